use std::convert::Infallible;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use http::{Request, Response, Uri};
use real_tonic::body::BoxBody;
use real_tonic::server::NamedService;
use tower_service::Service;

#[derive(Clone)]
pub struct Error(pub String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "transport error: {}", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "transport error: {}", self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct Endpoint {
    addr: String,
}
impl Endpoint {
    pub fn from_shared(s: impl Into<String>) -> Result<Self, Error> {
        let s: String = s.into();
        let u: Uri = s.parse().map_err(|e| Error(format!("invalid uri: {e}")))?;
        let a = u.authority().ok_or_else(|| Error("invalid uri".into()))?;
        Ok(Endpoint { addr: a.to_string() })
    }
    pub fn new<D>(d: D) -> Result<Self, Error>
    where
        D: TryInto<Self>,
        D::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
    {
        d.try_into().map_err(|e| Error(e.into().to_string()))
    }
    pub fn from_static(s: &'static str) -> Self {
        Self::from_shared(s).expect("invalid URI")
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub async fn connect(&self) -> Result<Channel, Error> {
        tokio::time::sleep(Duration::from_nanos(100_000 + simrt::choose(400_000))).await;
        crate::net::reachable(&self.addr)?;
        Ok(Channel { addr: self.addr.clone() })
    }
    pub fn connect_lazy(&self) -> Channel {
        Channel { addr: self.addr.clone() }
    }
}
impl TryFrom<String> for Endpoint {
    type Error = Error;
    fn try_from(s: String) -> Result<Self, Error> {
        Self::from_shared(s)
    }
}
impl TryFrom<&'static str> for Endpoint {
    type Error = Error;
    fn try_from(s: &'static str) -> Result<Self, Error> {
        Self::from_shared(s)
    }
}

#[derive(Clone, Debug)]
pub struct Channel {
    addr: String,
}
impl Channel {
    pub fn from_shared(s: impl Into<String>) -> Result<Endpoint, Error> {
        Endpoint::from_shared(s)
    }
}
type Fut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
impl Service<Request<BoxBody>> for Channel {
    type Response = Response<BoxBody>;
    type Error = Error;
    type Future = Fut<Result<Response<BoxBody>, Error>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: Request<BoxBody>) -> Self::Future {
        let addr = self.addr.clone();
        Box::pin(async move { crate::net::call(&addr, req).await })
    }
}

trait Dyn: Send {
    fn call(&mut self, r: Request<BoxBody>) -> Fut<Response<BoxBody>>;
    fn dup(&self) -> Box<dyn Dyn>;
}
impl<S> Dyn for S
where
    S: Service<Request<BoxBody>, Response = Response<BoxBody>, Error = Infallible> + Clone + Send + 'static,
    S::Future: Send + 'static,
{
    fn call(&mut self, r: Request<BoxBody>) -> Fut<Response<BoxBody>> {
        let f = Service::call(self, r);
        Box::pin(async move {
            match f.await {
                Ok(r) => r,
                Err(e) => match e {},
            }
        })
    }
    fn dup(&self) -> Box<dyn Dyn> {
        Box::new(self.clone())
    }
}
/// the services behind one address
#[derive(Clone)]
pub struct Routes(Arc<Mutex<Vec<(String, Box<dyn Dyn>)>>>);
impl Routes {
    fn route(&self, r: Request<BoxBody>) -> Fut<Response<BoxBody>> {
        let f = {
            let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
            let p = r.uri().path().to_string();
            g.iter_mut().find(|(n, _)| p.starts_with(&format!("/{n}/"))).map(|(_, s)| s.dup())
        };
        Box::pin(async move {
            match f {
                Some(mut s) => s.call(r).await,
                None => real_tonic::Status::unimplemented("").to_http(),
            }
        })
    }
}
impl<B> Service<Request<B>> for Routes
where
    B: http_body::Body<Data = bytes::Bytes> + Send + 'static,
    B::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
{
    type Response = Response<BoxBody>;
    type Error = Error;
    type Future = Fut<Result<Response<BoxBody>, Error>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: Request<B>) -> Self::Future {
        let r = r.map(|b| BoxBody::new(b.map_err(|e| real_tonic::Status::internal(e.into().to_string()))));
        let f = self.route(r);
        Box::pin(async move { Ok(f.await) })
    }
}

#[derive(Clone, Default)]
pub struct Server {}
impl Server {
    pub fn builder() -> Self {
        Server {}
    }
    pub fn add_service<S>(&mut self, s: S) -> Router
    where
        S: Service<Request<BoxBody>, Response = Response<BoxBody>, Error = Infallible> + NamedService + Clone + Send + 'static,
        S::Future: Send + 'static,
    {
        Router(Routes(Arc::new(Mutex::new(vec![])))).add_service(s)
    }
}
pub struct Router(Routes);
impl Router {
    pub fn add_service<S>(self, s: S) -> Self
    where
        S: Service<Request<BoxBody>, Response = Response<BoxBody>, Error = Infallible> + NamedService + Clone + Send + 'static,
        S::Future: Send + 'static,
    {
        self.0 .0.lock().unwrap().push((S::NAME.to_string(), Box::new(s)));
        self
    }
    pub fn into_service(self) -> Routes {
        self.0
    }
    /// makes the services reachable at `addr`
    pub fn listen(self, addr: &str) {
        let r = self.0;
        crate::net::listen(addr, Arc::new(move |q| r.route(q)));
    }
    pub async fn serve(self, addr: std::net::SocketAddr) -> Result<(), Error> {
        self.listen(&addr.to_string());
        std::future::pending::<()>().await;
        Ok(())
    }
}
