//! A stand-in for rustls 0.21 clients. The "handshake" sends the server's name
//! and gets a list of certificates: a decimal length and a newline before each.
use std::fmt;
use std::io::{self, Read, Write};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Certificate(pub Vec<u8>);
impl AsRef<[u8]> for Certificate {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerName(String);
#[derive(Debug)]
pub struct InvalidDnsNameError;
impl fmt::Display for InvalidDnsNameError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "invalid dns name")
    }
}
impl TryFrom<&str> for ServerName {
    type Error = InvalidDnsNameError;
    fn try_from(s: &str) -> Result<Self, InvalidDnsNameError> {
        if s.is_empty() || !s.chars().all(|c| c.is_ascii_alphanumeric() || ".-_".contains(c)) {
            return Err(InvalidDnsNameError);
        }
        Ok(ServerName(s.to_string()))
    }
}
#[derive(Debug)]
pub enum Error {
    General(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub mod client {
    use super::*;
    pub struct ServerCertVerified(());
    impl ServerCertVerified {
        pub fn assertion() -> Self {
            ServerCertVerified(())
        }
    }
    pub trait ServerCertVerifier {
        fn verify_server_cert(
            &self,
            end_entity: &Certificate,
            intermediates: &[Certificate],
            server_name: &ServerName,
            scts: &mut dyn Iterator<Item = &[u8]>,
            ocsp_response: &[u8],
            now: std::time::SystemTime,
        ) -> Result<ServerCertVerified, Error>;
    }
}

pub struct ClientConfig {
    verifier: Arc<dyn client::ServerCertVerifier>,
}
pub struct Builder;
pub struct WithVerifier(Arc<dyn client::ServerCertVerifier>);
impl ClientConfig {
    pub fn builder() -> Builder {
        Builder
    }
}
impl Builder {
    pub fn with_safe_defaults(self) -> Builder {
        self
    }
    pub fn with_custom_certificate_verifier(self, v: Arc<dyn client::ServerCertVerifier>) -> WithVerifier {
        WithVerifier(v)
    }
}
impl WithVerifier {
    pub fn with_no_client_auth(self) -> ClientConfig {
        ClientConfig { verifier: self.0 }
    }
}

pub struct ClientConnection {
    config: Arc<ClientConfig>,
    name: ServerName,
    certs: Option<Vec<Certificate>>,
}
impl ClientConnection {
    pub fn new(config: Arc<ClientConfig>, name: ServerName) -> Result<Self, Error> {
        Ok(ClientConnection { config, name, certs: None })
    }
    pub fn peer_certificates(&self) -> Option<&[Certificate]> {
        self.certs.as_deref()
    }
    fn handshake<T: Read + Write>(&mut self, s: &mut T) -> io::Result<()> {
        if self.certs.is_some() {
            return Ok(());
        }
        writeln!(s, "HELLO {}", self.name.0)?;
        let mut all = vec![];
        s.read_to_end(&mut all)?;
        let mut certs = vec![];
        let mut b = &all[..];
        let bad = |m: String| io::Error::new(io::ErrorKind::InvalidData, m);
        while let Some(i) = b.iter().position(|x| *x == b'\n') {
            let n: usize = std::str::from_utf8(&b[..i]).ok().and_then(|x| x.parse().ok()).ok_or_else(|| bad("handshake".into()))?;
            let d = b.get(i + 1..i + 1 + n).ok_or_else(|| bad("handshake".into()))?;
            certs.push(Certificate(d.to_vec()));
            b = &b[i + 1 + n..];
        }
        if certs.is_empty() {
            return Err(bad("handshake failed".into()));
        }
        self.config
            .verifier
            .verify_server_cert(&certs[0], &certs[1..], &self.name, &mut std::iter::empty(), &[], std::time::SystemTime::now())
            .map_err(|e| bad(e.to_string()))?;
        self.certs = Some(certs);
        Ok(())
    }
}

pub struct Stream<'a, T> {
    pub conn: &'a mut ClientConnection,
    pub sock: &'a mut T,
}
impl<'a, T: Read + Write> Stream<'a, T> {
    pub fn new(conn: &'a mut ClientConnection, sock: &'a mut T) -> Self {
        Stream { conn, sock }
    }
}
impl<T: Read + Write> Write for Stream<'_, T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.conn.handshake(self.sock)?;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.conn.handshake(self.sock)
    }
}
impl<T: Read + Write> Read for Stream<'_, T> {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        self.conn.handshake(self.sock)?;
        Ok(0)
    }
}
