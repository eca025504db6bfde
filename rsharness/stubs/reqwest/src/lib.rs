//! A stand-in for reqwest's blocking client. Every request goes to the server
//! at $VH_HTTP, with the scheme and host of the URL in front of the path.
use std::fmt;
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub mod blocking {
    use super::{Error, Result, StatusCode};
    use std::io::{Read, Write};
    use std::net::TcpStream;
    use std::time::Duration;

    pub struct Response {
        status: u16,
        body: std::result::Result<Vec<u8>, String>,
    }
    #[derive(Clone, Debug)]
    pub struct Bytes(Vec<u8>);
    impl std::ops::Deref for Bytes {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsRef<[u8]> for Bytes {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }

    pub fn get<T: AsRef<str>>(url: T) -> Result<Response> {
        fetch(url.as_ref()).map_err(Error)
    }

    fn fetch(url: &str) -> std::result::Result<Response, String> {
        let (scheme, rest) = url.split_once("://").ok_or("relative URL")?;
        let (host, path) = rest.split_once('/').unwrap_or((rest, ""));
        let server = std::env::var("VH_HTTP").map_err(|_| "no server")?;
        let mut s = TcpStream::connect(server).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(Duration::from_secs(30))).map_err(|e| e.to_string())?;
        write!(s, "GET /{scheme}/{host}/{path} HTTP/1.0\r\nHost: {host}\r\n\r\n").map_err(|e| e.to_string())?;
        let mut b = vec![];
        let end = s.read_to_end(&mut b);
        let h = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("connection closed before message completed")?;
        let head = String::from_utf8_lossy(&b[..h]).into_owned();
        let mut lines = head.split("\r\n");
        let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|c| c.parse().ok()).ok_or("invalid response")?;
        let mut want = None;
        for l in lines {
            if let Some((k, v)) = l.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    want = v.trim().parse::<usize>().ok();
                }
            }
        }
        let mut body = b.split_off(h + 4);
        let body = match want {
            Some(n) if body.len() < n => Err("end of file before message length reached".to_string()),
            Some(n) => {
                body.truncate(n);
                Ok(body)
            }
            None => end.map(|_| body).map_err(|e| e.to_string()),
        };
        Ok(Response { status, body })
    }

    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.status)
        }
        pub fn error_for_status(self) -> Result<Response> {
            if self.status >= 400 {
                return Err(Error(format!("HTTP status {}", self.status)));
            }
            Ok(self)
        }
        pub fn bytes(self) -> Result<Bytes> {
            self.body.map(Bytes).map_err(Error)
        }
        pub fn text(self) -> Result<String> {
            self.body.map(|b| String::from_utf8_lossy(&b).into_owned()).map_err(Error)
        }
        pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
            let b = self.body.map_err(Error)?;
            serde_json::from_slice(&b).map_err(|e| Error(e.to_string()))
        }
    }

    #[derive(Clone, Default)]
    pub struct Client;
    pub struct RequestBuilder(String);
    impl Client {
        pub fn new() -> Self {
            Client
        }
        pub fn get<T: AsRef<str>>(&self, url: T) -> RequestBuilder {
            RequestBuilder(url.as_ref().to_string())
        }
    }
    impl RequestBuilder {
        pub fn send(self) -> Result<Response> {
            get(self.0)
        }
    }
}
