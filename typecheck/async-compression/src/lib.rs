//! declarations of the parts of async-compression that emitted code uses; type checked against, never run
pub mod tokio {
    pub mod bufread {
        use std::{io::Result, pin::Pin, task::{Context, Poll}};
        use tokio::io::{AsyncBufRead, AsyncRead, ReadBuf};
        pub struct GzipDecoder<R> { inner: R }
        impl<R: AsyncBufRead> GzipDecoder<R> { pub fn new(r: R) -> Self { GzipDecoder { inner: r } } }
        impl<R: AsyncBufRead> AsyncRead for GzipDecoder<R> {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<Result<()>> { let _ = &self.inner; Poll::Pending }
        }
    }
    pub mod write {
        use std::{io::Result, pin::Pin, task::{Context, Poll}};
        use tokio::io::AsyncWrite;
        pub struct GzipEncoder<W> { inner: W }
        impl<W: AsyncWrite> GzipEncoder<W> { pub fn new(w: W) -> Self { GzipEncoder { inner: w } } }
        impl<W: AsyncWrite> AsyncWrite for GzipEncoder<W> {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<Result<usize>> { let _ = &self.inner; Poll::Pending }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Pending }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Pending }
        }
    }
}
