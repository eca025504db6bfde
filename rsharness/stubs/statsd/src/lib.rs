use std::net::ToSocketAddrs;
#[derive(Debug)]
pub struct Error;
pub struct Client;
impl Client {
    pub fn new<T: ToSocketAddrs>(_host: T, _prefix: &str) -> Result<Client, Error> {
        Ok(Client)
    }
    pub fn gauge(&self, _k: &str, _v: f64) {}
    pub fn count(&self, _k: &str, _v: f64) {}
    pub fn incr(&self, _k: &str) {}
    pub fn decr(&self, _k: &str) {}
    pub fn timer(&self, _k: &str, _v: f64) {}
}
