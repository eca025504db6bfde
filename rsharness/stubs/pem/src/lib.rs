//! A stand-in for pem: the first block of a text.
use base64::Engine;
#[derive(Debug, Clone, PartialEq)]
pub struct Pem {
    pub tag: String,
    pub contents: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct PemError(&'static str);
impl std::fmt::Display for PemError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "malformed PEM: {}", self.0)
    }
}
impl std::error::Error for PemError {}
pub fn parse<B: AsRef<[u8]>>(input: B) -> Result<Pem, PemError> {
    let s = std::str::from_utf8(input.as_ref()).map_err(|_| PemError("not utf-8"))?;
    let a = s.find("-----BEGIN ").ok_or(PemError("no beginning"))? + 11;
    let n = s[a..].find("-----").ok_or(PemError("no beginning"))?;
    let tag = &s[a..a + n];
    let body = &s[a + n + 5..];
    let e = body.find(&format!("-----END {tag}-----")).ok_or(PemError("no end"))?;
    let b64: String = body[..e].chars().filter(|c| !c.is_whitespace()).collect();
    let contents = base64::engine::general_purpose::STANDARD.decode(b64).map_err(|_| PemError("not base64"))?;
    Ok(Pem { tag: tag.to_string(), contents })
}
pub fn parse_many<B: AsRef<[u8]>>(input: B) -> Result<Vec<Pem>, PemError> {
    let s = String::from_utf8_lossy(input.as_ref()).into_owned();
    let mut out = vec![];
    let mut rest = &s[..];
    while let Some(i) = rest.find("-----BEGIN ") {
        let p = parse(&rest[i..])?;
        let end = format!("-----END {}-----", p.tag);
        let j = rest[i..].find(&end).unwrap() + i + end.len();
        out.push(p);
        rest = &rest[j..];
    }
    Ok(out)
}
