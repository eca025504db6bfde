//! A stand-in for base64 0.21: engines over the 0.13 stand-in's alphabet.
pub use engine::Engine;
pub mod engine {
    #[derive(Clone, Copy, Debug)]
    pub struct GeneralPurpose {
        pub(crate) url: bool,
        pub(crate) pad: bool,
    }
    pub trait Engine {
        fn encode<T: AsRef<[u8]>>(&self, t: T) -> String;
        fn decode<T: AsRef<[u8]>>(&self, t: T) -> Result<Vec<u8>, crate::DecodeError>;
    }
    impl Engine for GeneralPurpose {
        fn encode<T: AsRef<[u8]>>(&self, t: T) -> String {
            let tab = self.table();
            let mut out = String::new();
            for ch in t.as_ref().chunks(3) {
                let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
                for i in 0..4 {
                    if i <= ch.len() {
                        out.push(tab[(n >> (18 - 6 * i) & 63) as usize] as char);
                    } else if self.pad {
                        out.push('=');
                    }
                }
            }
            out
        }
        fn decode<T: AsRef<[u8]>>(&self, t: T) -> Result<Vec<u8>, crate::DecodeError> {
            let s = t.as_ref();
            let end = s.iter().position(|b| *b == b'=').unwrap_or(s.len());
            let pad = s.len() - end;
            if end % 4 == 1 || (if self.pad { s.len() % 4 != 0 || pad > 2 } else { pad > 0 }) || s[end..].iter().any(|b| *b != b'=') {
                return Err(crate::DecodeError("padding"));
            }
            let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
            for b in &s[..end] {
                let v = self.table().iter().position(|x| x == b).ok_or(crate::DecodeError("byte"))?;
                acc = acc << 6 | v as u32;
                bits += 6;
                if bits >= 8 {
                    bits -= 8;
                    out.push((acc >> bits) as u8);
                    acc &= (1 << bits) - 1;
                }
            }
            if acc != 0 {
                return Err(crate::DecodeError("last symbol"));
            }
            Ok(out)
        }
    }
    impl GeneralPurpose {
        fn table(&self) -> &'static [u8; 64] {
            if self.url {
                b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
            } else {
                b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
            }
        }
    }
    pub mod general_purpose {
        pub use super::GeneralPurpose;
        pub const STANDARD: GeneralPurpose = GeneralPurpose { url: false, pad: true };
        pub const STANDARD_NO_PAD: GeneralPurpose = GeneralPurpose { url: false, pad: false };
        pub const URL_SAFE: GeneralPurpose = GeneralPurpose { url: true, pad: true };
        pub const URL_SAFE_NO_PAD: GeneralPurpose = GeneralPurpose { url: true, pad: false };
    }
}
pub mod prelude {
    pub use crate::engine::general_purpose::{
        STANDARD as BASE64_STANDARD, STANDARD_NO_PAD as BASE64_STANDARD_NO_PAD, URL_SAFE as BASE64_URL_SAFE,
        URL_SAFE_NO_PAD as BASE64_URL_SAFE_NO_PAD,
    };
    pub use crate::engine::Engine as _;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(&'static str);
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "invalid {}", self.0)
    }
}
impl std::error::Error for DecodeError {}
