//! tower, with timeouts that follow the simulated clock.
pub use real_tower::*;

pub mod timeout {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std::time::Duration;

    use real_tower::{BoxError, Service};

    #[derive(Debug, Clone)]
    pub struct Timeout<T> {
        inner: T,
        timeout: Duration,
    }
    impl<T> Timeout<T> {
        pub const fn new(inner: T, timeout: Duration) -> Self {
            Timeout { inner, timeout }
        }
    }
    #[derive(Debug)]
    pub struct Elapsed;
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("request timed out")
        }
    }
    impl std::error::Error for Elapsed {}
    impl<S, R> Service<R> for Timeout<S>
    where
        S: Service<R>,
        S::Error: Into<BoxError>,
        S::Future: Send + 'static,
    {
        type Response = S::Response;
        type Error = BoxError;
        type Future = Pin<Box<dyn Future<Output = Result<S::Response, BoxError>> + Send>>;
        fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
            self.inner.poll_ready(cx).map_err(Into::into)
        }
        fn call(&mut self, r: R) -> Self::Future {
            let f = self.inner.call(r);
            let d = self.timeout;
            Box::pin(async move {
                match tokio::time::timeout(d, f).await {
                    Ok(r) => r.map_err(Into::into),
                    Err(_) => Err(Box::new(Elapsed) as BoxError),
                }
            })
        }
    }
}
