//! An HTTP client for the simulated network, in the shape of reqwest.
use std::fmt;
use std::time::Duration;

use bytes::Bytes;
pub use http::{header, Method, StatusCode};

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Default)]
pub struct Client {
    timeout: Option<Duration>,
}
#[derive(Debug, Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn timeout(mut self, d: Duration) -> Self {
        self.0.timeout = Some(d);
        self
    }
    pub fn build(self) -> Result<Client, Error> {
        Ok(self.0)
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn post(&self, url: impl Into<UrlText>) -> RequestBuilder {
        RequestBuilder { c: self.clone(), m: Method::POST, url: url.into().0, body: Ok(Bytes::new()) }
    }
    pub fn get(&self, url: impl Into<UrlText>) -> RequestBuilder {
        RequestBuilder { c: self.clone(), m: Method::GET, url: url.into().0, body: Ok(Bytes::new()) }
    }
}
pub struct UrlText(String);
impl From<&str> for UrlText {
    fn from(s: &str) -> Self {
        UrlText(s.to_string())
    }
}
impl From<String> for UrlText {
    fn from(s: String) -> Self {
        UrlText(s)
    }
}
impl From<&String> for UrlText {
    fn from(s: &String) -> Self {
        UrlText(s.clone())
    }
}
pub struct RequestBuilder {
    c: Client,
    m: Method,
    url: String,
    body: Result<Bytes, Error>,
}
impl RequestBuilder {
    pub fn header(self, _: &str, _: &str) -> Self {
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, t: &T) -> Self {
        self.body = serde_json::to_vec(t).map(Bytes::from).map_err(|e| Error(e.to_string()));
        self
    }
    pub fn body(mut self, b: impl Into<Bytes>) -> Self {
        self.body = Ok(b.into());
        self
    }
    pub async fn send(self) -> Result<Response, Error> {
        let body = self.body?;
        let uri: http::Uri = self.url.parse().map_err(|e| Error(format!("invalid url: {e}")))?;
        let addr = uri.authority().ok_or_else(|| Error("invalid url".into()))?.to_string();
        let req = http::Request::builder().method(self.m).uri(uri).body(sim_tonic::net::boxed(body, None)).map_err(|e| Error(e.to_string()))?;
        let f = async {
            let r = sim_tonic::net::call(&addr, req).await.map_err(|e| Error(e.to_string()))?;
            let (h, b) = r.into_parts();
            let (data, _) = sim_tonic::net::collect(b).await.map_err(|e| Error(e.to_string()))?;
            Ok(Response { status: h.status, data })
        };
        match self.c.timeout {
            Some(d) => tokio::time::timeout(d, f).await.map_err(|_| Error("request timed out".into()))?,
            None => f.await,
        }
    }
}
pub struct Response {
    status: StatusCode,
    data: Bytes,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub async fn text(self) -> Result<String, Error> {
        Ok(String::from_utf8_lossy(&self.data).into_owned())
    }
    pub async fn bytes(self) -> Result<Bytes, Error> {
        Ok(self.data)
    }
}
