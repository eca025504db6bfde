//! A stand-in for x509-parser: DER certificates with the names, keys, validity
//! and SCT list that the query tool looks at. The stand-in for a signature by a
//! key is the SHA-256 hash of "signature", the key's SPKI and the signed part.
use der_parser::Oid;
use sha2::{Digest, Sha256};
use std::fmt;

pub mod prelude {
    pub use crate::*;
}
pub mod certificate {
    pub use crate::*;
}

#[derive(Clone, Debug, PartialEq)]
pub enum X509Error {
    Der,
    DuplicateExtensions,
    SignatureVerificationError,
    SignatureUnsupportedAlgorithm,
}
impl fmt::Display for X509Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for X509Error {}
pub type X509Result<'a, T> = Result<(&'a [u8], T), X509Error>;

/// One element: tag, content, whole encoding.
struct Tlv<'a> {
    tag: u8,
    body: &'a [u8],
    all: &'a [u8],
}
fn tlv<'a>(b: &mut &'a [u8]) -> Option<Tlv<'a>> {
    let s = *b;
    let tag = *s.first()?;
    let l0 = *s.get(1)? as usize;
    let (hdr, len) = if l0 < 0x80 {
        (2, l0)
    } else {
        let n = l0 & 0x7f;
        if n == 0 || n > 4 {
            return None;
        }
        (2 + n, s.get(2..2 + n)?.iter().fold(0usize, |a, x| a << 8 | *x as usize))
    };
    let all = s.get(..hdr.checked_add(len)?)?;
    *b = &s[all.len()..];
    Some(Tlv { tag, body: &all[hdr..], all })
}
fn want<'a>(b: &mut &'a [u8], tag: u8) -> Option<Tlv<'a>> {
    tlv(b).filter(|t| t.tag == tag)
}

#[derive(Clone, Debug, PartialEq)]
pub struct X509Name<'a> {
    raw: &'a [u8],
}
impl<'a> X509Name<'a> {
    pub fn as_raw(&self) -> &'a [u8] {
        self.raw
    }
}
impl fmt::Display for X509Name<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(self.raw).escape_debug())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct ASN1Time(i64);
impl ASN1Time {
    pub fn now() -> Self {
        ASN1Time(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64)
    }
    pub fn timestamp(&self) -> i64 {
        self.0
    }
}
fn time(t: &Tlv) -> Option<ASN1Time> {
    let s = std::str::from_utf8(t.body).ok()?.strip_suffix('Z')?;
    let n = |r: std::ops::Range<usize>| s.get(r)?.parse::<i64>().ok();
    let (y, k) = match (t.tag, s.len()) {
        (0x17, 12) => (n(0..2).map(|y| if y < 50 { 2000 + y } else { 1900 + y })?, 2),
        (0x18, 14) => (n(0..4)?, 4),
        _ => return None,
    };
    let (mo, d) = (n(k..k + 2)?, n(k + 2..k + 4)?);
    // Days since the epoch of a proleptic Gregorian date.
    let yy = if mo <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * (if mo > 2 { mo - 3 } else { mo + 9 }) + 2) / 5 + d - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    Some(ASN1Time(days * 86400 + n(k + 4..k + 6)? * 3600 + n(k + 6..k + 8)? * 60 + n(k + 8..k + 10)?))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Validity {
    pub not_before: ASN1Time,
    pub not_after: ASN1Time,
}
impl Validity {
    pub fn is_valid(&self) -> bool {
        self.is_valid_at(ASN1Time::now())
    }
    pub fn is_valid_at(&self, t: ASN1Time) -> bool {
        t >= self.not_before && t <= self.not_after
    }
    pub fn time_to_expiration(&self) -> Option<std::time::Duration> {
        let n = ASN1Time::now();
        if !self.is_valid_at(n) {
            return None;
        }
        Some(std::time::Duration::from_secs((self.not_after.0 - n.0) as u64))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SubjectPublicKeyInfo<'a> {
    pub raw: &'a [u8],
}

#[derive(Clone, Debug, PartialEq)]
pub struct CtLogID<'a> {
    pub key_id: &'a [u8; 32],
}
#[derive(Clone, Debug, PartialEq)]
pub struct SignedCertificateTimestamp<'a> {
    pub id: CtLogID<'a>,
    pub timestamp: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ParsedExtension<'a> {
    SCT(Vec<SignedCertificateTimestamp<'a>>),
    ParseError,
    UnsupportedExtension,
}
#[derive(Clone, Debug, PartialEq)]
pub struct X509Extension<'a> {
    pub oid: Vec<u8>,
    pub critical: bool,
    pub value: &'a [u8],
    parsed: ParsedExtension<'a>,
}
impl<'a> X509Extension<'a> {
    pub fn parsed_extension(&self) -> &ParsedExtension<'a> {
        &self.parsed
    }
}
const SCT_OID: &[u8] = &[0x2b, 6, 1, 4, 1, 0xd6, 0x79, 2, 4, 2];
fn scts(v: &[u8]) -> Option<Vec<SignedCertificateTimestamp<'_>>> {
    let mut b = v;
    let inner = want(&mut b, 4)?.body;
    let n = u16::from_be_bytes(inner.get(..2)?.try_into().ok()?) as usize;
    let mut b = inner.get(2..2 + n)?;
    let mut out = vec![];
    while !b.is_empty() {
        let n = u16::from_be_bytes(b.get(..2)?.try_into().ok()?) as usize;
        let s = b.get(2..2 + n)?;
        b = &b[2 + n..];
        if s.len() < 43 {
            return None;
        }
        out.push(SignedCertificateTimestamp { id: CtLogID { key_id: s[1..33].try_into().ok()? }, timestamp: u64::from_be_bytes(s[33..41].try_into().ok()?) });
    }
    Some(out)
}
fn oid_of(b: &[u8]) -> String {
    let (mut out, mut acc) = (vec![], 0u64);
    for x in b {
        acc = acc << 7 | (x & 0x7f) as u64;
        if x & 0x80 == 0 {
            if out.is_empty() {
                let a = (acc / 40).min(2);
                out.push(a);
                acc -= a * 40;
            }
            out.push(acc);
            acc = 0;
        }
    }
    out.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}

#[derive(Clone, Debug, PartialEq)]
pub struct TbsCertificate<'a> {
    pub issuer: X509Name<'a>,
    pub validity: Validity,
    pub subject: X509Name<'a>,
    pub subject_pki: SubjectPublicKeyInfo<'a>,
    extensions: Vec<X509Extension<'a>>,
    raw_serial: &'a [u8],
    raw: &'a [u8],
}
impl<'a> TbsCertificate<'a> {
    pub fn raw_serial(&self) -> &'a [u8] {
        self.raw_serial
    }
    pub fn issuer(&self) -> &X509Name<'a> {
        &self.issuer
    }
    pub fn subject(&self) -> &X509Name<'a> {
        &self.subject
    }
    pub fn validity(&self) -> &Validity {
        &self.validity
    }
    pub fn public_key(&self) -> &SubjectPublicKeyInfo<'a> {
        &self.subject_pki
    }
    pub fn extensions(&self) -> &[X509Extension<'a>] {
        &self.extensions
    }
    pub fn get_extension_unique(&self, oid: &Oid) -> Result<Option<&X509Extension<'a>>, X509Error> {
        let mut it = self.extensions.iter().filter(|e| oid_of(&e.oid) == oid.dotted());
        let first = it.next();
        if it.next().is_some() {
            return Err(X509Error::DuplicateExtensions);
        }
        Ok(first)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct X509Certificate<'a> {
    pub tbs_certificate: TbsCertificate<'a>,
    pub signature_value: &'a [u8],
}
impl<'a> std::ops::Deref for X509Certificate<'a> {
    type Target = TbsCertificate<'a>;
    fn deref(&self) -> &TbsCertificate<'a> {
        &self.tbs_certificate
    }
}
pub trait FromDer<'a>: Sized {
    fn from_der(b: &'a [u8]) -> X509Result<'a, Self>;
}
impl<'a> FromDer<'a> for X509Certificate<'a> {
    fn from_der(b: &'a [u8]) -> X509Result<'a, Self> {
        let mut r = b;
        cert(&mut r).map(|c| (r, c)).ok_or(X509Error::Der)
    }
}
fn cert<'a>(r: &mut &'a [u8]) -> Option<X509Certificate<'a>> {
    let mut c = want(r, 0x30)?.body;
    let tbs = want(&mut c, 0x30)?;
    want(&mut c, 0x30)?;
    let sig = want(&mut c, 3)?;
    let mut t = tbs.body;
    if t.first() == Some(&0xa0) {
        tlv(&mut t)?;
    }
    let serial = want(&mut t, 2)?;
    want(&mut t, 0x30)?;
    let issuer = want(&mut t, 0x30)?;
    let mut v = want(&mut t, 0x30)?.body;
    let (nb, na) = (time(&tlv(&mut v)?)?, time(&tlv(&mut v)?)?);
    let subject = want(&mut t, 0x30)?;
    let spki = want(&mut t, 0x30)?;
    let mut extensions = vec![];
    while let Some(x) = tlv(&mut t) {
        if x.tag != 0xa3 {
            continue;
        }
        let mut b = x.body;
        let mut l = want(&mut b, 0x30)?.body;
        while !l.is_empty() {
            let mut e = want(&mut l, 0x30)?.body;
            let oid = want(&mut e, 6)?.body;
            let mut value = tlv(&mut e)?;
            let critical = value.tag == 1;
            if critical {
                value = tlv(&mut e)?;
            }
            let parsed = if oid == SCT_OID { scts(value.body).map_or(ParsedExtension::ParseError, ParsedExtension::SCT) } else { ParsedExtension::UnsupportedExtension };
            extensions.push(X509Extension { oid: oid.to_vec(), critical, value: value.body, parsed });
        }
    }
    Some(X509Certificate {
        tbs_certificate: TbsCertificate {
            issuer: X509Name { raw: issuer.all },
            validity: Validity { not_before: nb, not_after: na },
            subject: X509Name { raw: subject.all },
            subject_pki: SubjectPublicKeyInfo { raw: spki.all },
            extensions,
            raw_serial: serial.body,
            raw: tbs.all,
        },
        signature_value: sig.body.get(1..)?,
    })
}
impl<'a> X509Certificate<'a> {
    /// With no key, the certificate's own key is used.
    pub fn verify_signature(&self, key: Option<&SubjectPublicKeyInfo>) -> Result<(), X509Error> {
        let spki = key.unwrap_or(&self.tbs_certificate.subject_pki);
        let mut h = Sha256::new();
        h.update(b"signature");
        h.update(spki.raw);
        h.update(self.tbs_certificate.raw);
        if h.finalize().as_slice() == self.signature_value {
            Ok(())
        } else {
            Err(X509Error::SignatureVerificationError)
        }
    }
}
