//! declarations of `anyhow` that emitted code names
use std::fmt;
pub struct Error(());
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl Error {
    pub fn msg<M: fmt::Display + fmt::Debug + Send + Sync + 'static>(_m: M) -> Self {
        Error(())
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for Error {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error {
    fn from(_e: E) -> Self {
        Error(())
    }
}
#[macro_export]
macro_rules! anyhow {
    ($($t:tt)*) => { $crate::Error::msg(format!($($t)*)) };
}
