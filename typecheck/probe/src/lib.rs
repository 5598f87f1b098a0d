use tokio::io::*;
pub struct T;
impl T {
    #[async_recursion::async_recursion]
    pub async fn decode_async<R: AsyncRead + AsyncBufRead + Unpin + Send>(reader: &mut R, n: u8) -> std::io::Result<Self> { if n == 0 { Ok(T) } else { T::decode_async(reader, n - 1).await } }
    #[async_recursion::async_recursion]
    pub async fn encode_async<W: AsyncWrite + Unpin + Send>(&self, w: &mut W) -> std::io::Result<()> { w.flush().await?; self.encode_async(w).await }
}
