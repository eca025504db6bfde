//! A stand-in for base64 0.13: padding is optional when decoding, trailing bits must be zero.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}

const STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn table(c: Config) -> &'static [u8; 64] {
    if c.url { URL } else { STD }
}

pub fn encode_config<T: AsRef<[u8]>>(t: T, c: Config) -> String {
    let tab = table(c);
    let mut out = String::new();
    for ch in t.as_ref().chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                out.push(tab[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else if c.pad {
                out.push('=');
            }
        }
    }
    out
}

pub fn decode_config<T: AsRef<[u8]>>(t: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let s = t.as_ref();
    let tab = table(c);
    let mut end = s.len();
    while end > 0 && s[end - 1] == b'=' && s.len() - end < 2 {
        end -= 1;
    }
    if end < s.len() && s.len() % 4 != 0 {
        return Err(DecodeError::InvalidByte(end, b'='));
    }
    if end % 4 == 1 {
        return Err(DecodeError::InvalidLength);
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for (i, b) in s[..end].iter().enumerate() {
        let v = tab.iter().position(|x| x == b).ok_or(DecodeError::InvalidByte(i, *b))?;
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 {
        return Err(DecodeError::InvalidLastSymbol(end - 1, s[end - 1]));
    }
    Ok(out)
}
pub fn decode<T: AsRef<[u8]>>(t: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(t, STANDARD)
}
pub fn encode<T: AsRef<[u8]>>(t: T) -> String {
    encode_config(t, STANDARD)
}
