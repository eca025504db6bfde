//! A stand-in for clubcard-crlite over the recording clubcard. The file is text.
use clubcard::{Block, Clubcard, Item, Query};
use std::collections::BTreeMap;
use std::fmt;
use std::io::Read;

#[derive(Debug, Clone, Default)]
pub struct CRLiteCoverage(pub Vec<u8>);
impl CRLiteCoverage {
    pub fn from_mozilla_ct_logs_json<T: Read>(mut r: T) -> Self {
        let mut v = vec![];
        r.read_to_end(&mut v).unwrap();
        CRLiteCoverage(v)
    }
}

pub struct CRLiteKey {
    issuer: [u8; 32],
    serial: Vec<u8>,
}
impl CRLiteKey {
    pub fn new(issuer: &[u8; 32], serial: &[u8]) -> Self {
        CRLiteKey { issuer: *issuer, serial: serial.to_vec() }
    }
}
pub struct CRLiteQuery<'a> {
    key: &'a CRLiteKey,
}
impl<'a> CRLiteQuery<'a> {
    pub fn new(key: &'a CRLiteKey, _log_timestamp: Option<([u8; 32], u64)>) -> Self {
        CRLiteQuery { key }
    }
}
impl<'a> Query for CRLiteQuery<'a> {
    fn block_of(&self) -> Vec<u8> {
        self.key.issuer.to_vec()
    }
    fn discriminant_of(&self) -> Vec<u8> {
        self.key.serial.clone()
    }
}
impl<'a> clubcard::builder::BuildFor for CRLiteQuery<'a> {
    type Universe = CRLiteCoverage;
    type Partition = ();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CRLiteStatus {
    Good,
    NotCovered,
    NotEnrolled,
    Revoked,
}
pub type LogId = [u8; 32];
pub type Timestamp = u64;

impl CRLiteCoverage {
    fn covers(&self, id: &LogId, t: Timestamp) -> bool {
        let v: serde_json::Value = serde_json::from_slice(&self.0).unwrap_or_default();
        v.as_array().map_or(false, |a| {
            a.iter().any(|l| {
                let b64 = l["LogID"].as_str().unwrap_or("");
                unb64(b64).as_deref() == Some(&id[..])
                    && l["MinTimestamp"].as_u64().map_or(false, |m| m <= t)
                    && l["MaxTimestamp"].as_u64().map_or(false, |m| t <= m)
            })
        })
    }
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
    for b in s.trim_end_matches('=').bytes() {
        let v = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| *x == b)?;
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

pub mod builder {
    use super::*;
    pub struct CRLiteBuilderItem {
        issuer: [u8; 32],
        serial: Vec<u8>,
        revoked: bool,
    }
    impl CRLiteBuilderItem {
        pub fn revoked(issuer: [u8; 32], serial: Vec<u8>) -> Self {
            CRLiteBuilderItem { issuer, serial, revoked: true }
        }
        pub fn not_revoked(issuer: [u8; 32], serial: Vec<u8>) -> Self {
            CRLiteBuilderItem { issuer, serial, revoked: false }
        }
    }
    impl Item for CRLiteBuilderItem {
        fn block_of(&self) -> Vec<u8> {
            self.issuer.to_vec()
        }
        fn discriminant_of(&self) -> Vec<u8> {
            self.serial.clone()
        }
        fn included_of(&self) -> bool {
            self.revoked
        }
    }
}

#[derive(Debug)]
pub struct ClubcardError(String);
impl fmt::Display for ClubcardError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ClubcardError {}

#[derive(Debug)]
pub struct CRLiteClubcard(Clubcard<4, CRLiteCoverage, ()>);

impl From<Clubcard<4, CRLiteCoverage, ()>> for CRLiteClubcard {
    fn from(c: Clubcard<4, CRLiteCoverage, ()>) -> Self {
        CRLiteClubcard(c)
    }
}
impl AsRef<Clubcard<4, CRLiteCoverage, ()>> for CRLiteClubcard {
    fn as_ref(&self) -> &Clubcard<4, CRLiteCoverage, ()> {
        &self.0
    }
}
impl fmt::Display for CRLiteClubcard {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}

impl CRLiteClubcard {
    /// As the real one: a certificate is covered if one of its timestamps is,
    /// and only then the issuer and the serial are looked at.
    pub fn contains<'a>(&self, key: &CRLiteKey, timestamps: impl Iterator<Item = (&'a LogId, Timestamp)>) -> CRLiteStatus {
        if !timestamps.into_iter().any(|(id, t)| self.0.universe.covers(id, t)) {
            return CRLiteStatus::NotCovered;
        }
        let q = CRLiteQuery::new(key, None);
        if !self.0.blocks.contains_key(&q.block_of()) {
            return CRLiteStatus::NotEnrolled;
        }
        if self.0.unchecked_contains(&q) { CRLiteStatus::Revoked } else { CRLiteStatus::Good }
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, ClubcardError> {
        let mut s = String::from("STUBCLUBCARD\n");
        s += &format!("c {}\n", hexs(&self.0.universe.0));
        for (id, b) in &self.0.blocks {
            s += &format!("b {} {}\n", hexs(id), b.universe.map_or("-".to_string(), |n| n.to_string()));
            for (k, inc) in &b.approx {
                s += &format!("a {} {}\n", hexs(k), *inc as u8);
            }
            for (k, inc) in &b.exact {
                s += &format!("x {} {}\n", hexs(k), *inc as u8);
            }
        }
        Ok(s.into_bytes())
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, ClubcardError> {
        Self::parse(bytes).ok_or_else(|| ClubcardError("malformed clubcard".into()))
    }
    fn parse(bytes: &[u8]) -> Option<Self> {
        let s = std::str::from_utf8(bytes).ok()?;
        let mut it = s.lines();
        if it.next()? != "STUBCLUBCARD" {
            return None;
        }
        let mut cov = CRLiteCoverage::default();
        let mut blocks: BTreeMap<Vec<u8>, Block> = BTreeMap::new();
        let mut cur = vec![];
        for l in it {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "c" => cov.0 = unhex(f.get(1)?)?,
                "b" => {
                    cur = unhex(f.get(1)?)?;
                    blocks.entry(cur.clone()).or_default().universe = f.get(2)?.parse().ok();
                }
                "a" => blocks.get_mut(&cur)?.approx.push((unhex(f.get(1)?)?, *f.get(2)? == "1")),
                "x" => blocks.get_mut(&cur)?.exact.push((unhex(f.get(1)?)?, *f.get(2)? == "1")),
                _ => return None,
            }
        }
        Some(CRLiteClubcard(Clubcard::of(cov, (), blocks)))
    }
}
