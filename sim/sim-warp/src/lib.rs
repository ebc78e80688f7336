//! The part of warp that cnosdb's services are written with, over the simulated network.
use std::convert::Infallible;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use bytes::Bytes;
use http::{Method, Request, Response, StatusCode};
use real_hyper::Body;

type Fut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

// ------------------------------------------------------------------ requests
pub struct Inner {
    segs: Vec<String>,
    at: usize,
    method: Method,
    body: Bytes,
}
pub type Ctx = Arc<Mutex<Inner>>;

// ------------------------------------------------------------------ tuples
pub trait Tuple: Send + Sized + 'static {}
pub trait Combine<T: Tuple>: Tuple {
    type Out: Tuple;
    fn combine(self, t: T) -> Self::Out;
}
macro_rules! tuples {
    ($(($($a:ident)*))*) => { $( impl<$($a: Send + 'static),*> Tuple for ($($a,)*) {} )* };
}
tuples!(() (A) (A B) (A B C) (A B C D));
macro_rules! combine {
    ($(($($a:ident)*) ($($b:ident)*);)*) => { $(
        #[allow(non_snake_case)]
        impl<$($a: Send + 'static,)* $($b: Send + 'static),*> Combine<($($b,)*)> for ($($a,)*) {
            type Out = ($($a,)* $($b,)*);
            fn combine(self, t: ($($b,)*)) -> Self::Out {
                let ($($a,)*) = self;
                let ($($b,)*) = t;
                ($($a,)* $($b,)*)
            }
        }
    )* };
}
combine! {
    () (); () (E); () (E F); () (E F G);
    (A) (); (A) (E); (A) (E F); (A) (E F G);
    (A B) (); (A B) (E); (A B) (E F);
    (A B C) (); (A B C) (E);
}
pub trait Func<Args> {
    type Output;
    fn call(&self, a: Args) -> Self::Output;
}
macro_rules! funcs {
    ($(($($a:ident)*))*) => { $(
        #[allow(non_snake_case)]
        impl<FN, R, $($a),*> Func<($($a,)*)> for FN where FN: Fn($($a),*) -> R {
            type Output = R;
            fn call(&self, a: ($($a,)*)) -> R {
                let ($($a,)*) = a;
                self($($a),*)
            }
        }
    )* };
}
funcs!(() (A) (A B) (A B C) (A B C D));

// ------------------------------------------------------------------ rejections
#[derive(Debug)]
pub enum Rejection {
    NotFound,
    Custom(String),
}
impl From<Infallible> for Rejection {
    fn from(e: Infallible) -> Self {
        match e {}
    }
}
pub mod reject {
    pub use super::Rejection;
    pub trait Reject: std::fmt::Debug + Send + Sync + 'static {}
    pub fn custom<T: Reject>(t: T) -> Rejection {
        Rejection::Custom(format!("{t:?}"))
    }
    pub fn not_found() -> Rejection {
        Rejection::NotFound
    }
}

// ------------------------------------------------------------------ replies
pub trait Reply: Send {
    fn into_response(self) -> Response<Body>;
}
impl Reply for Response<Body> {
    fn into_response(self) -> Response<Body> {
        self
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $( impl Reply for $t { fn into_response(self) -> Response<Body> { Response::new(Body::from(self)) } } )* };
}
plain!(String, Vec<u8>, &'static str, Bytes);
impl<T: Reply> Reply for (T,) {
    fn into_response(self) -> Response<Body> {
        self.0.into_response()
    }
}
pub enum Either<A, B> {
    A(A),
    B(B),
}
impl<A: Reply, B: Reply> Reply for Either<A, B> {
    fn into_response(self) -> Response<Body> {
        match self {
            Either::A(a) => a.into_response(),
            Either::B(b) => b.into_response(),
        }
    }
}
pub mod reply {
    use super::*;
    pub use super::Reply;
    pub type Response = http::Response<Body>;
    pub struct WithStatus<T>(pub(crate) T, pub(crate) StatusCode);
    impl<T: Reply> Reply for WithStatus<T> {
        fn into_response(self) -> http::Response<Body> {
            let mut r = self.0.into_response();
            *r.status_mut() = self.1;
            r
        }
    }
    pub fn with_status<T: Reply>(t: T, s: StatusCode) -> WithStatus<T> {
        WithStatus(t, s)
    }
    pub struct Json(Result<Vec<u8>, ()>);
    impl Reply for Json {
        fn into_response(self) -> http::Response<Body> {
            match self.0 {
                Ok(v) => http::Response::new(Body::from(v)),
                Err(()) => super::status(StatusCode::INTERNAL_SERVER_ERROR, ""),
            }
        }
    }
    pub fn json<T: serde::Serialize>(t: &T) -> Json {
        Json(serde_json::to_vec(t).map_err(|_| ()))
    }
}
fn status(s: StatusCode, b: &str) -> Response<Body> {
    let mut r = Response::new(Body::from(b.to_string()));
    *r.status_mut() = s;
    r
}

// ------------------------------------------------------------------ filters
pub trait Filter: Send + Sync + 'static {
    type Extract: Tuple;
    type Error: Send + 'static;
    fn run_filter(&self, c: Ctx) -> Fut<Result<Self::Extract, Self::Error>>;

    fn and<F>(self, o: F) -> And<Self, F>
    where
        Self: Sized,
        F: Filter,
        Self::Extract: Combine<F::Extract>,
    {
        And(self, o)
    }
    fn or<F>(self, o: F) -> Or<Self, F>
    where
        Self: Sized,
        F: Filter,
    {
        Or(Arc::new(self), Arc::new(o))
    }
    fn map<F>(self, f: F) -> Map<Self, F>
    where
        Self: Sized,
        F: Func<Self::Extract> + Clone,
    {
        Map(self, f)
    }
    fn and_then<F>(self, f: F) -> AndThen<Self, F>
    where
        Self: Sized,
        F: Func<Self::Extract> + Clone,
    {
        AndThen(self, f)
    }
    fn or_else<F>(self, f: F) -> OrElse<Self, F>
    where
        Self: Sized,
    {
        OrElse(self, f)
    }
}

#[derive(Clone)]
pub struct And<A, B>(A, B);
impl<A, B> Filter for And<A, B>
where
    A: Filter + Clone,
    B: Filter + Clone,
    A::Extract: Combine<B::Extract>,
    A::Error: Into<Rejection>,
    B::Error: Into<Rejection>,
{
    type Extract = <A::Extract as Combine<B::Extract>>::Out;
    type Error = Rejection;
    fn run_filter(&self, c: Ctx) -> Fut<Result<Self::Extract, Rejection>> {
        let (a, b) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            let x = a.run_filter(c.clone()).await.map_err(Into::into)?;
            let y = b.run_filter(c).await.map_err(Into::into)?;
            Ok(x.combine(y))
        })
    }
}
pub struct Or<A, B>(Arc<A>, Arc<B>);
impl<A, B> Clone for Or<A, B> {
    fn clone(&self) -> Self {
        Or(self.0.clone(), self.1.clone())
    }
}
impl<A, B> Filter for Or<A, B>
where
    A: Filter,
    B: Filter,
    A::Error: Into<Rejection>,
    B::Error: Into<Rejection>,
{
    type Extract = (Either<A::Extract, B::Extract>,);
    type Error = Rejection;
    fn run_filter(&self, c: Ctx) -> Fut<Result<Self::Extract, Rejection>> {
        let (a, b) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            let at = c.lock().unwrap().at;
            match a.run_filter(c.clone()).await {
                Ok(x) => Ok((Either::A(x),)),
                Err(e) => {
                    c.lock().unwrap().at = at;
                    match b.run_filter(c).await {
                        Ok(x) => Ok((Either::B(x),)),
                        Err(f) => match (e.into(), f.into()) {
                            (Rejection::NotFound, f) => Err(f),
                            (e, _) => Err(e),
                        },
                    }
                }
            }
        })
    }
}
#[derive(Clone)]
pub struct Map<A, F>(A, F);
impl<A, F> Filter for Map<A, F>
where
    A: Filter + Clone,
    F: Func<A::Extract> + Clone + Send + Sync + 'static,
    F::Output: Send + 'static,
{
    type Extract = (F::Output,);
    type Error = A::Error;
    fn run_filter(&self, c: Ctx) -> Fut<Result<Self::Extract, A::Error>> {
        let (a, f) = (self.0.clone(), self.1.clone());
        Box::pin(async move { Ok((f.call(a.run_filter(c).await?),)) })
    }
}
pub trait TryFut {
    type Ok;
    type Err;
    type F: Future<Output = Result<Self::Ok, Self::Err>> + Send;
    fn into_fut(self) -> Self::F;
}
impl<F, T, E> TryFut for F
where
    F: Future<Output = Result<T, E>> + Send,
{
    type Ok = T;
    type Err = E;
    type F = F;
    fn into_fut(self) -> F {
        self
    }
}
#[derive(Clone)]
pub struct AndThen<A, F>(A, F);
impl<A, F> Filter for AndThen<A, F>
where
    A: Filter + Clone,
    A::Error: Into<Rejection>,
    F: Func<A::Extract> + Clone + Send + Sync + 'static,
    F::Output: TryFut + Send + 'static,
    <F::Output as TryFut>::Ok: Send + 'static,
    <F::Output as TryFut>::Err: Into<Rejection> + Send,
{
    type Extract = (<F::Output as TryFut>::Ok,);
    type Error = Rejection;
    fn run_filter(&self, c: Ctx) -> Fut<Result<Self::Extract, Rejection>> {
        let (a, f) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            let x = a.run_filter(c).await.map_err(Into::into)?;
            f.call(x).into_fut().await.map(|x| (x,)).map_err(Into::into)
        })
    }
}
#[derive(Clone)]
pub struct OrElse<A, F>(A, F);
impl<A, F, R, E> Filter for OrElse<A, F>
where
    A: Filter + Clone,
    F: Fn(A::Error) -> R + Clone + Send + Sync + 'static,
    R: Future<Output = Result<A::Extract, E>> + Send + 'static,
    E: Send + 'static,
{
    type Extract = A::Extract;
    type Error = E;
    fn run_filter(&self, c: Ctx) -> Fut<Result<A::Extract, E>> {
        let (a, f) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            let at = c.lock().unwrap().at;
            match a.run_filter(c.clone()).await {
                Ok(x) => Ok(x),
                Err(e) => {
                    c.lock().unwrap().at = at;
                    f(e).await
                }
            }
        })
    }
}

#[derive(Clone)]
pub struct FnFilter<F>(F);
impl<F, T, E> Filter for FnFilter<F>
where
    F: Fn(&mut Inner) -> Result<T, E> + Clone + Send + Sync + 'static,
    T: Tuple,
    E: Send + 'static,
{
    type Extract = T;
    type Error = E;
    fn run_filter(&self, c: Ctx) -> Fut<Result<T, E>> {
        let r = (self.0)(&mut c.lock().unwrap());
        Box::pin(async move { r })
    }
}
pub fn any() -> impl Filter<Extract = (), Error = Infallible> + Clone {
    FnFilter(|_: &mut Inner| Ok(()))
}
fn method(m: Method) -> impl Filter<Extract = (), Error = Rejection> + Clone {
    FnFilter(move |i: &mut Inner| if i.method == m { Ok(()) } else { Err(Rejection::NotFound) })
}
pub fn get() -> impl Filter<Extract = (), Error = Rejection> + Clone {
    method(Method::GET)
}
pub fn post() -> impl Filter<Extract = (), Error = Rejection> + Clone {
    method(Method::POST)
}
pub mod body {
    use super::*;
    pub fn bytes() -> impl Filter<Extract = (Bytes,), Error = Rejection> + Clone {
        FnFilter(|i: &mut Inner| Ok((i.body.clone(),)))
    }
}
pub mod path {
    use super::*;
    pub fn param<T: std::str::FromStr + Send + 'static>() -> impl Filter<Extract = (T,), Error = Rejection> + Clone {
        FnFilter(|i: &mut Inner| match i.segs.get(i.at).and_then(|s| s.parse().ok()) {
            Some(v) => {
                i.at += 1;
                Ok((v,))
            }
            None => Err(Rejection::NotFound),
        })
    }
    pub fn end() -> impl Filter<Extract = (), Error = Rejection> + Clone {
        FnFilter(|i: &mut Inner| if i.at == i.segs.len() { Ok(()) } else { Err(Rejection::NotFound) })
    }
    pub fn path(p: &'static str) -> impl Filter<Extract = (), Error = Rejection> + Clone {
        FnFilter(move |i: &mut Inner| {
            if i.segs.get(i.at).map(|s| s.as_str()) == Some(p) {
                i.at += 1;
                Ok(())
            } else {
                Err(Rejection::NotFound)
            }
        })
    }
}
#[macro_export]
macro_rules! path {
    ($($t:tt)*) => { $crate::__path!(@ $crate::Filter::and($crate::any(), $crate::any()); $($t)*) };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __path {
    (@ $f:expr; ..) => { $f };
    (@ $f:expr; $s:literal) => { $crate::Filter::and($crate::Filter::and($f, $crate::path::path($s)), $crate::path::end()) };
    (@ $f:expr; $s:literal / $($r:tt)*) => { $crate::__path!(@ $crate::Filter::and($f, $crate::path::path($s)); $($r)*) };
    (@ $f:expr; $s:ty) => { $crate::Filter::and($crate::Filter::and($f, $crate::path::param::<$s>()), $crate::path::end()) };
    (@ $f:expr; $s:ident / $($r:tt)*) => { $crate::__path!(@ $crate::Filter::and($f, $crate::path::param::<$s>()); $($r)*) };
}

// ------------------------------------------------------------------ services
pub struct FilteredService<F>(Arc<F>);
impl<F> Clone for FilteredService<F> {
    fn clone(&self) -> Self {
        FilteredService(self.0.clone())
    }
}
pub fn service<F: Filter>(f: F) -> FilteredService<F> {
    FilteredService(Arc::new(f))
}
impl<F> tower_service::Service<Request<Body>> for FilteredService<F>
where
    F: Filter,
    F::Extract: Reply,
    F::Error: Into<Rejection>,
{
    type Response = Response<Body>;
    type Error = Infallible;
    type Future = Fut<Result<Response<Body>, Infallible>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: Request<Body>) -> Self::Future {
        let f = self.0.clone();
        Box::pin(async move {
            let (h, b) = r.into_parts();
            let body = match sim_tonic::net::collect(b).await {
                Ok((d, _)) => d,
                Err(_) => return Ok(status(StatusCode::BAD_REQUEST, "")),
            };
            let segs = h.uri.path().split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            let c = Arc::new(Mutex::new(Inner { segs, at: 0, method: h.method, body }));
            Ok(match f.run_filter(c).await.map_err(Into::into) {
                Ok(x) => x.into_response(),
                Err(Rejection::NotFound) => status(StatusCode::NOT_FOUND, ""),
                Err(Rejection::Custom(e)) => status(StatusCode::INTERNAL_SERVER_ERROR, &format!("Unhandled rejection: {e}")),
            })
        })
    }
}
pub struct Server<F>(FilteredService<F>);
pub fn serve<F: Filter>(f: F) -> Server<F> {
    Server(service(f))
}
impl<F> Server<F>
where
    F: Filter,
    F::Extract: Reply,
    F::Error: Into<Rejection>,
{
    pub async fn run(self, addr: impl Into<std::net::SocketAddr>) {
        let s = self.0;
        let s = Mutex::new(s);
        let r = hyper::serve_at(addr.into(), move || {
            let s = s.lock().unwrap().clone();
            Box::pin(async move { Ok::<_, Infallible>(s) })
        });
        let _ = r.await;
    }
}

pub mod hyper {
    //! hyper's types, with a server that answers on the simulated network
    use super::*;
    pub use real_hyper::{body, header, http, Body, Error, Method, Request, Response, StatusCode, Uri, Version};

    pub struct Conn;
    pub mod service {
        use super::*;
        pub struct MakeServiceFn<F>(pub(crate) F);
        pub fn make_service_fn<F, R, S, E>(f: F) -> MakeServiceFn<F>
        where
            F: FnMut(&Conn) -> R,
            R: Future<Output = Result<S, E>>,
        {
            MakeServiceFn(f)
        }
    }
    pub struct Server;
    pub struct Builder(std::net::SocketAddr);
    impl Server {
        pub fn bind(a: &std::net::SocketAddr) -> Builder {
            Builder(*a)
        }
    }
    impl Builder {
        pub fn http1_max_buf_size(self, _: usize) -> Self {
            self
        }
        pub fn serve<F, R, S, E, B>(self, m: service::MakeServiceFn<F>) -> Fut<Result<(), real_hyper::Error>>
        where
            F: FnMut(&Conn) -> R + Send + 'static,
            R: Future<Output = Result<S, E>> + Send + 'static,
            S: tower_service::Service<Request<Body>, Response = Response<B>> + Send + 'static,
            S::Error: std::fmt::Display,
            S::Future: Send + 'static,
            E: std::fmt::Debug + 'static,
            B: http_body::Body<Data = Bytes> + Send + 'static,
            B::Error: std::fmt::Display,
        {
            let f = Mutex::new(m.0);
            serve_at(self.0, move || Box::pin((f.lock().unwrap())(&Conn)))
        }
    }
    pub(crate) fn serve_at<M, S, E, B>(addr: std::net::SocketAddr, make: M) -> Fut<Result<(), real_hyper::Error>>
    where
        M: Fn() -> Fut<Result<S, E>> + Send + Sync + 'static,
        S: tower_service::Service<Request<Body>, Response = Response<B>> + Send + 'static,
        S::Error: std::fmt::Display,
        S::Future: Send + 'static,
        E: std::fmt::Debug + 'static,
        B: http_body::Body<Data = Bytes> + Send + 'static,
        B::Error: std::fmt::Display,
    {
        let svc: sim_tonic::net::Svc = Arc::new(move |r| {
            let s = make();
            Box::pin(async move {
                let Ok(mut s) = s.await else { return real_tonic::Status::internal("no service").to_http() };
                let (h, b) = r.into_parts();
                let b = match sim_tonic::net::collect(b).await {
                    Ok((d, _)) => d,
                    Err(e) => return e.to_http(),
                };
                let f = s.call(Request::from_parts(h, Body::from(b)));
                match f.await {
                    Ok(r) => r.map(|b| real_tonic::body::BoxBody::new(b.map_err(|e| real_tonic::Status::internal(e.to_string())))),
                    Err(e) => real_tonic::Status::internal(e.to_string()).to_http(),
                }
            })
        });
        Box::pin(async move {
            sim_tonic::net::listen(&addr.to_string(), svc);
            std::future::pending::<()>().await;
            Ok(())
        })
    }
}
