//! A stand-in for rust_cascade that records what it is given. The file holds
//! every included and excluded key; unknown keys are answered arbitrarily.
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HashAlgorithm {
    MurmurHash3,
    Sha256l32,
    Sha256,
}

#[derive(Debug)]
pub struct CascadeError(String);
impl fmt::Display for CascadeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for CascadeError {}

#[derive(Default)]
pub struct ExcludeSet {
    keys: Vec<Vec<u8>>,
}

pub struct CascadeBuilder {
    include_left: usize,
    exclude_left: usize,
    inc: Vec<Vec<u8>>,
    exc: Vec<Vec<u8>>,
}

impl CascadeBuilder {
    pub fn default(capacity: usize, excludes: usize) -> Self {
        Self::new(HashAlgorithm::Sha256, vec![], capacity, excludes)
    }
    pub fn new(_h: HashAlgorithm, _salt: Vec<u8>, capacity: usize, excludes: usize) -> Self {
        CascadeBuilder { include_left: capacity, exclude_left: excludes, inc: vec![], exc: vec![] }
    }
    pub fn include(&mut self, item: Vec<u8>) -> Result<(), CascadeError> {
        if self.include_left == 0 {
            return Err(CascadeError("capacity violation: include".into()));
        }
        self.include_left -= 1;
        self.inc.push(item);
        Ok(())
    }
    pub fn exclude(&mut self, item: Vec<u8>) -> Result<(), CascadeError> {
        let mut s = ExcludeSet::default();
        self.exclude_threaded(&mut s, item);
        self.collect_exclude_set(&mut s)
    }
    pub fn exclude_threaded(&self, set: &mut ExcludeSet, item: Vec<u8>) {
        set.keys.push(item);
    }
    pub fn collect_exclude_set(&mut self, set: &mut ExcludeSet) -> Result<(), CascadeError> {
        if set.keys.len() > self.exclude_left {
            return Err(CascadeError("capacity violation: exclude".into()));
        }
        self.exclude_left -= set.keys.len();
        self.exc.append(&mut set.keys);
        Ok(())
    }
    pub fn finalize(self) -> Result<Box<Cascade>, CascadeError> {
        Ok(Box::new(Cascade::of(self.inc, self.exc)))
    }
}

#[derive(Debug)]
pub struct Cascade {
    inc: Vec<Vec<u8>>,
    exc: Vec<Vec<u8>>,
    map: BTreeMap<Vec<u8>, bool>,
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}

impl Cascade {
    fn of(inc: Vec<Vec<u8>>, exc: Vec<Vec<u8>>) -> Self {
        let mut map = BTreeMap::new();
        for k in &exc {
            map.insert(k.clone(), false);
        }
        for k in &inc {
            map.insert(k.clone(), true);
        }
        Cascade { inc, exc, map }
    }
    pub fn has(&self, item: Vec<u8>) -> bool {
        match self.map.get(&item) {
            Some(x) => *x,
            None => item.iter().fold(0u8, |a, b| a ^ b).count_ones() % 2 == 1,
        }
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, CascadeError> {
        if self.inc.is_empty() {
            return Ok(vec![]);
        }
        let mut s = String::from("STUBCASCADE\n");
        for k in &self.inc {
            s += &format!("i {}\n", hexs(k));
        }
        for k in &self.exc {
            s += &format!("e {}\n", hexs(k));
        }
        Ok(s.into_bytes())
    }
    pub fn from_bytes(bytes: Vec<u8>) -> Result<Option<Box<Self>>, CascadeError> {
        if bytes.is_empty() {
            return Ok(None);
        }
        let bad = || CascadeError("malformed cascade".into());
        let s = String::from_utf8(bytes).map_err(|_| bad())?;
        let mut it = s.lines();
        if it.next() != Some("STUBCASCADE") {
            return Err(bad());
        }
        let (mut inc, mut exc) = (vec![], vec![]);
        for l in it {
            let (t, k) = l.split_once(' ').ok_or_else(bad)?;
            let k = unhex(k).ok_or_else(bad)?;
            if t == "i" { inc.push(k) } else { exc.push(k) }
        }
        Ok(Some(Box::new(Cascade::of(inc, exc))))
    }
}
impl fmt::Display for Cascade {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "cascade of {} and {}", self.inc.len(), self.exc.len())
    }
}
