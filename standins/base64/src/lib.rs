//! Stand-in for the part of base64 0.13 that mina-rs uses.
#[derive(Clone, Copy, Debug)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}
fn alphabet(c: Config) -> Vec<u8> {
    let mut a: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
    a.extend(if c.url { b"-_" } else { b"+/" });
    a
}
pub fn encode<T: AsRef<[u8]>>(t: T) -> String {
    encode_config(t, STANDARD)
}
pub fn encode_config<T: AsRef<[u8]>>(t: T, c: Config) -> String {
    let a = alphabet(c);
    let mut r = String::new();
    for ch in t.as_ref().chunks(3) {
        let x = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                r.push(a[(x >> (18 - 6 * i) & 63) as usize] as char);
            } else if c.pad {
                r.push('=');
            }
        }
    }
    r
}
pub fn decode<T: AsRef<[u8]>>(t: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(t, STANDARD)
}
/// Padding is accepted but not required, as in 0.13.
pub fn decode_config<T: AsRef<[u8]>>(t: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let a = alphabet(c);
    let t = t.as_ref();
    let mut end = t.len();
    while end > 0 && t[end - 1] == b'=' && t.len() - end < 2 {
        end -= 1;
    }
    if end < t.len() && t.len() % 4 != 0 {
        return Err(DecodeError::InvalidByte(end, b'='));
    }
    let mut r = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for (i, b) in t[..end].iter().enumerate() {
        let v = a.iter().position(|x| x == b).ok_or(DecodeError::InvalidByte(i, *b))?;
        acc = (acc << 6 | v as u32) & 0xffff;
        n += 6;
        if n >= 8 {
            n -= 8;
            r.push((acc >> n) as u8);
        }
    }
    if n == 6 {
        return Err(DecodeError::InvalidLength);
    }
    if n > 0 && acc & ((1 << n) - 1) != 0 {
        return Err(DecodeError::InvalidLastSymbol(end - 1, t[end - 1]));
    }
    Ok(r)
}
