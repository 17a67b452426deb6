//! reqwest 0.11, without a network: requests go to the function installed with `control::serve`
pub use http::{header, HeaderMap, Method, StatusCode};
pub use url::Url;
mod query;
use http::header::{HeaderName, HeaderValue, CONTENT_TYPE};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt;

#[derive(Debug)]
enum Kind {
    Builder,
    Request,
    Decode,
    Status(StatusCode),
}
#[derive(Debug)]
pub struct Error {
    kind: Kind,
    text: String,
}
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    fn new(kind: Kind, text: impl ToString) -> Self {
        Self { kind, text: text.to_string() }
    }
    pub fn is_builder(&self) -> bool {
        matches!(self.kind, Kind::Builder)
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request)
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.kind, Kind::Decode)
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} error: {}", self.kind, self.text)
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new(Kind::Builder, e))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug)]
pub struct Body(Vec<u8>);
impl Body {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        Some(&self.0)
    }
}
impl From<Vec<u8>> for Body {
    fn from(x: Vec<u8>) -> Self {
        Self(x)
    }
}
impl From<String> for Body {
    fn from(x: String) -> Self {
        Self(x.into())
    }
}
impl From<&'static str> for Body {
    fn from(x: &'static str) -> Self {
        Self(x.into())
    }
}
#[derive(Clone, Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    body: Option<Body>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Self { method, url, headers: HeaderMap::new(), body: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
}
#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Self
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder(url.into_url().map(|u| Request::new(method, u)))
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
    pub async fn execute(&self, request: Request) -> Result<Response> {
        let url = request.url.clone();
        match control::call(request) {
            Some((status, body)) => Ok(Response {
                status: StatusCode::from_u16(status).unwrap(),
                headers: HeaderMap::new(),
                url,
                body,
            }),
            None => Err(Error::new(Kind::Request, "connection refused")),
        }
    }
}
#[derive(Debug)]
pub struct RequestBuilder(Result<Request>);
impl RequestBuilder {
    fn with(mut self, f: impl FnOnce(&mut Request) -> Result<()>) -> Self {
        if let Ok(r) = &mut self.0 {
            if let Err(e) = f(r) {
                self.0 = Err(e);
            }
        }
        self
    }
    pub fn query<T: Serialize + ?Sized>(self, query: &T) -> Self {
        self.with(|r| {
            let pairs = query.serialize(query::Pairs).map_err(|e| Error::new(Kind::Builder, e.0))?;
            r.url.query_pairs_mut().extend_pairs(pairs);
            if r.url.query() == Some("") {
                r.url.set_query(None);
            }
            Ok(())
        })
    }
    pub fn json<T: Serialize + ?Sized>(self, json: &T) -> Self {
        self.with(|r| {
            let b = serde_json::to_vec(json).map_err(|e| Error::new(Kind::Builder, e))?;
            if !r.headers.contains_key(CONTENT_TYPE) {
                r.headers.insert(CONTENT_TYPE, HeaderValue::from_static("application/json"));
            }
            r.body = Some(Body(b));
            Ok(())
        })
    }
    pub fn body<B: Into<Body>>(self, body: B) -> Self {
        self.with(|r| {
            r.body = Some(body.into());
            Ok(())
        })
    }
    pub fn header<K, V>(self, key: K, value: V) -> Self
    where
        HeaderName: TryFrom<K>,
        <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        HeaderValue: TryFrom<V>,
        <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        self.with(|r| {
            let k = HeaderName::try_from(key).map_err(|e| Error::new(Kind::Builder, e.into()))?;
            let v = HeaderValue::try_from(value).map_err(|e| Error::new(Kind::Builder, e.into()))?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, headers: HeaderMap) -> Self {
        self.with(|r| {
            r.headers.extend(headers);
            Ok(())
        })
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Request> {
        self.0
    }
    pub async fn send(self) -> Result<Response> {
        Client.execute(self.0?).await
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    url: Url,
    body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| Error::new(Kind::Decode, e))
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error::new(Kind::Status(self.status), self.status));
        }
        Ok(self)
    }
}
/// what answers the requests of this thread
pub mod control {
    use super::Request;
    use std::cell::RefCell;
    pub type Server = Box<dyn FnMut(Request) -> Option<(u16, Vec<u8>)>>;
    thread_local! {
        static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
    }
    pub fn serve(f: impl FnMut(Request) -> Option<(u16, Vec<u8>)> + 'static) {
        SERVER.with(|s| *s.borrow_mut() = Some(Box::new(f)));
    }
    pub fn call(r: Request) -> Option<(u16, Vec<u8>)> {
        SERVER.with(|s| s.borrow_mut().as_mut().and_then(|f| f(r)))
    }
}
