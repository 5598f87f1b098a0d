//! declarations of the parts of base64 0.13 that emitted code uses; type checked against, never run
#[derive(Clone, Copy)]
pub struct Config(());
pub const STANDARD: Config = Config(());
pub mod read {
    use std::io::{Read, Result};
    pub struct DecoderReader<'a, R: 'a + Read> { inner: &'a mut R }
    impl<'a, R: Read> DecoderReader<'a, R> { pub fn new(r: &'a mut R, _: crate::Config) -> Self { DecoderReader { inner: r } } }
    impl<'a, R: Read> Read for DecoderReader<'a, R> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.inner.read(b) } }
}
pub mod write {
    use std::io::{Result, Write};
    pub struct EncoderWriter<W: Write> { inner: Option<W> }
    impl<W: Write> EncoderWriter<W> {
        pub fn new(w: W, _: crate::Config) -> Self { EncoderWriter { inner: Some(w) } }
        pub fn finish(&mut self) -> Result<W> { Ok(self.inner.take().unwrap()) }
    }
    impl<W: Write> Write for EncoderWriter<W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> { self.inner.as_mut().unwrap().write(b) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
    impl<W: Write> Drop for EncoderWriter<W> { fn drop(&mut self) {} }
}
