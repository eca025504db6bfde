pub use clap_derive_stub::{Parser, Subcommand, ValueEnum};
use std::ffi::{OsStr, OsString};

pub trait Parser {
    fn parse() -> Self;
}

pub trait FromArg: Sized {
    fn from_arg(s: &OsStr) -> Result<Self, String>;
}
impl FromArg for std::path::PathBuf {
    fn from_arg(s: &OsStr) -> Result<Self, String> {
        Ok(s.into())
    }
}
impl FromArg for OsString {
    fn from_arg(s: &OsStr) -> Result<Self, String> {
        Ok(s.into())
    }
}
macro_rules! from_str {
    ($($t:ty),*) => { $( impl FromArg for $t {
        fn from_arg(s: &OsStr) -> Result<Self, String> {
            s.to_str().ok_or("not unicode".to_string())?.parse().map_err(|_| format!("invalid value {s:?}"))
        }
    } )* };
}
from_str!(String, u8, u16, u32, u64, usize, i32, i64, f64);

pub fn fail(m: &str) -> ! {
    eprintln!("error: {m}");
    std::process::exit(2)
}

pub fn default<T: FromArg>(s: &str) -> T {
    T::from_arg(OsStr::new(s)).unwrap_or_else(|e| fail(&e))
}

/// A subcommand with its arguments.
pub trait Sub: Sized {
    fn from_words(name: &str, args: Vec<OsString>) -> Self;
}
pub fn one<T: FromArg>(mut v: Vec<OsString>) -> T {
    if v.len() != 1 {
        fail("one argument is required");
    }
    T::from_arg(&v.remove(0)).unwrap_or_else(|e| fail(&e))
}
pub fn many<T: FromArg>(v: Vec<OsString>) -> Vec<T> {
    v.iter().map(|a| T::from_arg(a).unwrap_or_else(|e| fail(&e))).collect()
}
#[derive(Clone, Copy, Debug)]
pub enum ArgAction {
    Count,
    SetTrue,
}

/// One pass over the command line.
pub struct Args {
    it: std::iter::Skip<std::env::ArgsOs>,
    cur: String,
    val: Option<OsString>,
    shorts: Vec<char>,
}

impl Args {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Args { it: std::env::args_os().skip(1), cur: String::new(), val: None, shorts: vec![] }
    }
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> bool {
        if !self.shorts.is_empty() {
            self.cur = format!("-{}", self.shorts.remove(0));
            return true;
        }
        let Some(a) = self.it.next() else { return false };
        let s = a.to_string_lossy().into_owned();
        self.val = None;
        if s.starts_with("--") {
            if let Some((k, v)) = s.split_once('=') {
                self.cur = k.to_string();
                self.val = Some(v.into());
            } else {
                self.cur = s;
            }
        } else if s.starts_with('-') && s.len() > 1 {
            self.shorts = s[1..].chars().collect();
            self.cur = format!("-{}", self.shorts.remove(0));
        } else {
            self.cur = s;
        }
        true
    }
    /// The current argument, if it is not an option.
    pub fn word(&self) -> Option<&str> {
        if self.cur.starts_with('-') && self.cur.len() > 1 { None } else { Some(&self.cur) }
    }
    /// Everything that is left, for the arguments of a subcommand.
    pub fn rest(&mut self) -> Vec<OsString> {
        let v: Vec<OsString> = self.it.by_ref().collect();
        if let Some(o) = v.iter().find(|a| a.to_string_lossy().starts_with('-') && a.len() > 1) {
            fail(&format!("unexpected argument {o:?}"));
        }
        v
    }
    pub fn is(&self, long: &str, short: &str) -> bool {
        (!long.is_empty() && self.cur.strip_prefix("--") == Some(long))
            || (!short.is_empty() && self.cur == format!("-{short}"))
    }
    pub fn value<T: FromArg>(&mut self) -> T {
        let v = match self.val.take() {
            Some(v) => v,
            None => self.it.next().unwrap_or_else(|| fail(&format!("{} needs a value", self.cur))),
        };
        T::from_arg(&v).unwrap_or_else(|e| fail(&e))
    }
    pub fn unknown(&self) -> ! {
        fail(&format!("unexpected argument {}", self.cur))
    }
}
