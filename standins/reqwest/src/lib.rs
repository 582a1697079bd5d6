//! The part of reqwest that the block crawler uses. Every request, whatever its host, goes in the
//! absolute form that proxies use to the address in STANDIN_HTTP, never to the network.
use std::io::{Read, Write};
use std::net::TcpStream;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

fn exchange(method: &str, url: &str, body: Option<String>) -> std::io::Result<(u16, Vec<u8>)> {
    let bad = |m: &str| std::io::Error::new(std::io::ErrorKind::Other, m.to_string());
    let mut s = TcpStream::connect(std::env::var("STANDIN_HTTP").map_err(|_| bad("there is no network"))?)?;
    let body = body.unwrap_or_default();
    s.write_all(format!("{method} {url} HTTP/1.1\r\nX-Run: {}\r\nContent-Length: {}\r\n\r\n{body}", std::env::var("STANDIN_RUN").unwrap_or_default(), body.len()).as_bytes())?;
    let mut all = vec![];
    s.read_to_end(&mut all)?;
    let p = all.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| bad("no answer"))?;
    let head = String::from_utf8_lossy(&all[..p]).into_owned();
    let status = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| bad("no status"))?;
    let len: usize = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|x| x.parse().ok()).ok_or_else(|| bad("no length"))?;
    let body = all[p + 4..].to_vec();
    if body.len() != len {
        return Err(bad("the answer is cut short"));
    }
    Ok((status, body))
}
async fn send(method: &'static str, url: String, body: Option<String>) -> Result<Response> {
    let (status, body) = tokio::task::spawn_blocking(move || exchange(method, &url, body)).await.map_err(|e| Error(e.to_string()))?.map_err(|e| Error(e.to_string()))?;
    Ok(Response { status, body })
}

pub struct Response {
    status: u16,
    body: Vec<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.status)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status >= 400 {
            return Err(Error(format!("status {}", self.status)));
        }
        Ok(self)
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| Error(e.to_string()))
    }
}
#[derive(Clone, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder { method: "POST", url: url.as_ref().into(), body: None }
    }
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder { method: "GET", url: url.as_ref().into(), body: None }
    }
}
pub struct RequestBuilder {
    method: &'static str,
    url: String,
    body: Option<String>,
}
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self {
        self.body = Some(serde_json::to_string(v).unwrap());
        self
    }
    pub fn body(mut self, b: impl Into<String>) -> Self {
        self.body = Some(b.into());
        self
    }
    pub async fn send(self) -> Result<Response> {
        send(self.method, self.url, self.body).await
    }
}
pub async fn get(url: impl AsRef<str>) -> Result<Response> {
    send("GET", url.as_ref().into(), None).await
}
