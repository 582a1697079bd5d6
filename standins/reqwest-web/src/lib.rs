//! The part of reqwest that the browser wallets use: each request is a call of the harness's hook.
use wasm_bindgen::{call, JsValue};

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub struct Response {
    status: u16,
    /// none if the answer is cut short
    body: Option<String>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.status)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status >= 400 {
            return Err(Error(format!("status {}", self.status)));
        }
        Ok(self)
    }
    pub async fn text(self) -> Result<String> {
        wasm_bindgen::pause().await;
        self.body.ok_or_else(|| Error("the answer is cut short".into()))
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.text().await?.into_bytes())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_str(&self.text().await?).map_err(|e| Error(e.to_string()))
    }
}
#[derive(Clone, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder { method: "POST", url: url.as_ref().into(), kind: None, body: None }
    }
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder { method: "GET", url: url.as_ref().into(), kind: None, body: None }
    }
}
pub struct RequestBuilder {
    method: &'static str,
    url: String,
    kind: Option<String>,
    body: Option<String>,
}
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self {
        self.body = Some(serde_json::to_string(v).unwrap());
        self.kind.get_or_insert("application/json".into());
        self
    }
    pub fn body(mut self, b: impl Into<String>) -> Self {
        self.body = Some(b.into());
        self
    }
    pub fn header(mut self, name: impl AsRef<str>, value: impl AsRef<str>) -> Self {
        if name.as_ref().eq_ignore_ascii_case("content-type") {
            self.kind = Some(value.as_ref().into())
        }
        self
    }
    pub async fn send(self) -> Result<Response> {
        let kind = self.kind.map_or(JsValue::Undefined, JsValue::Str);
        match call("reqwest", self.method, vec![JsValue::Str(self.url), kind, JsValue::Str(self.body.unwrap_or_default())]).await {
            Ok(JsValue::List(l)) => Ok(Response { status: l[0].as_f64().unwrap() as u16, body: l[1].as_string() }),
            Ok(v) => panic!("{v:?} is no answer"),
            Err(e) => Err(Error(e.as_string().unwrap_or_default())),
        }
    }
}
