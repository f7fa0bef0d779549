//! Stand-in for reqwest (no network in the verified configuration). Only the
//! shape http-range-client's `impl AsyncHttpRangeClient for reqwest::Client`
//! needs; every request fails. The checks use an in-memory range client.
#[derive(Debug, Clone, Default)]
pub struct Client;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no network") }
}
impl std::error::Error for Error {}
impl Error { pub fn status(&self) -> Option<StatusCode> { None } }
#[derive(Debug, Clone, Copy)]
pub struct StatusCode(u16);
impl StatusCode {
    pub fn is_success(&self) -> bool { false }
    pub fn as_u16(&self) -> u16 { self.0 }
}
pub struct RequestBuilder;
impl RequestBuilder {
    pub fn header(self, _k: &str, _v: &str) -> Self { self }
    pub async fn send(self) -> Result<Response, Error> { Err(Error) }
}
pub struct HeaderValue;
impl HeaderValue { pub fn to_str(&self) -> Result<&str, Error> { Err(Error) } }
pub struct HeaderMap;
impl HeaderMap { pub fn get(&self, _k: &str) -> Option<&HeaderValue> { None } }
pub struct Response { h: HeaderMap }
impl Response {
    pub fn status(&self) -> StatusCode { StatusCode(0) }
    pub fn headers(&self) -> &HeaderMap { &self.h }
    pub async fn bytes(self) -> Result<bytes::Bytes, Error> { Err(Error) }
}
impl Client {
    pub fn new() -> Self { Client }
    pub fn get(&self, _u: &str) -> RequestBuilder { RequestBuilder }
    pub fn head(&self, _u: &str) -> RequestBuilder { RequestBuilder }
}
