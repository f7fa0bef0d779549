//! Stand-in for reqwest 0.11 as cjseq2's extension fetcher uses it; every request fails.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no network") }
}
impl std::error::Error for Error {}
pub mod blocking {
    use super::Error;
    pub struct Client;
    pub struct ClientBuilder;
    pub struct RequestBuilder;
    pub struct Response;
    impl Client {
        pub fn builder() -> ClientBuilder { ClientBuilder }
        pub fn get(&self, _u: &str) -> RequestBuilder { RequestBuilder }
    }
    impl ClientBuilder {
        pub fn timeout(self, _d: std::time::Duration) -> Self { self }
        pub fn build(self) -> Result<Client, Error> { Ok(Client) }
    }
    impl RequestBuilder { pub fn send(self) -> Result<Response, Error> { Err(Error) } }
    impl Response { pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> { Err(Error) } }
}
