//! Minimal stand-in for reqwest over tokio TCP.
use tokio::io::{AsyncReadExt, AsyncWriteExt};
#[derive(Debug)]
pub struct Error(pub std::io::Error);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub struct StatusCode(pub u16);
impl StatusCode {
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub struct Response(u16);
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.0)
    }
}
#[derive(Default, Clone)]
pub struct Client;
pub struct RequestBuilder {
    method: &'static str,
    url: String,
    body: Vec<u8>,
}
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn get(&self, u: String) -> RequestBuilder {
        RequestBuilder { method: "GET", url: u, body: vec![] }
    }
    pub fn post(&self, u: String) -> RequestBuilder {
        RequestBuilder { method: "POST", url: u, body: vec![] }
    }
}
impl RequestBuilder {
    pub fn json<T: serde::Serialize>(mut self, t: &T) -> Self {
        self.body = serde_json::to_vec(t).unwrap();
        self
    }
    pub async fn send(self) -> Result<Response, Error> {
        self.go().await.map_err(Error)
    }
    async fn go(self) -> std::io::Result<Response> {
        let u = self.url.strip_prefix("http://").unwrap_or(&self.url);
        let (host, path) = match u.find('/') {
            Some(p) => (&u[..p], &u[p..]),
            None => (u, "/"),
        };
        let mut s = tokio::net::TcpStream::connect(host).await?;
        let h = format!(
            "{} {} HTTP/1.1\r\nHost: {}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n",
            self.method,
            path,
            host,
            self.body.len()
        );
        s.write_all(h.as_bytes()).await?;
        s.write_all(&self.body).await?;
        let mut b = vec![];
        s.read_to_end(&mut b).await?;
        let t = String::from_utf8_lossy(&b).to_string();
        let c = t.split(' ').nth(1).and_then(|x| x.parse().ok());
        c.map(Response).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "no response"))
    }
}
