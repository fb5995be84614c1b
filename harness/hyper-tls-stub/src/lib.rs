//! Stand-in for hyper-tls: connects by plain HTTP only.

use std::task::{Context, Poll};

use hyper::{client::connect::HttpConnector, service::Service, Uri};

#[derive(Clone, Debug)]
pub struct HttpsConnector<T> { http: T }

impl HttpsConnector<HttpConnector> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { HttpsConnector { http: HttpConnector::new() } }
}

impl<T: Service<Uri>> Service<Uri> for HttpsConnector<T> {
    type Response = T::Response;
    type Error = T::Error;
    type Future = T::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> { self.http.poll_ready(cx) }
    fn call(&mut self, dst: Uri) -> Self::Future { self.http.call(dst) }
}
