//! declarations of the parts of flate2 that emitted code uses; type checked against, never run
#[derive(Clone, Copy, Default)]
pub struct Compression(u32);
pub mod read {
    use std::io::{Read, Result};
    pub struct GzDecoder<R> { inner: R }
    impl<R: Read> GzDecoder<R> { pub fn new(r: R) -> Self { GzDecoder { inner: r } } pub fn into_inner(self) -> R { self.inner } }
    impl<R: Read> Read for GzDecoder<R> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.inner.read(b) } }
}
pub mod bufread {
    use std::io::{BufRead, Read, Result};
    pub struct GzDecoder<R> { inner: R }
    impl<R: BufRead> GzDecoder<R> { pub fn new(r: R) -> Self { GzDecoder { inner: r } } pub fn into_inner(self) -> R { self.inner } }
    impl<R: BufRead> Read for GzDecoder<R> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.inner.read(b) } }
}
pub mod write {
    use std::io::{Result, Write};
    pub struct GzEncoder<W: Write> { inner: Option<W> }
    impl<W: Write> GzEncoder<W> {
        pub fn new(w: W, _: crate::Compression) -> Self { GzEncoder { inner: Some(w) } }
        pub fn finish(mut self) -> Result<W> { Ok(self.inner.take().unwrap()) }
        pub fn try_finish(&mut self) -> Result<()> { Ok(()) }
    }
    impl<W: Write> Write for GzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> { self.inner.as_mut().unwrap().write(b) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
    impl<W: Write> Drop for GzEncoder<W> { fn drop(&mut self) {} }
}
