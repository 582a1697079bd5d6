//! Stand-in for bs58 0.4 with the `check` feature (Bitcoin alphabet).
use sha2::{Digest, Sha256};
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn checksum(b: &[u8]) -> [u8; 4] {
    let h = Sha256::digest(Sha256::digest(b));
    [h[0], h[1], h[2], h[3]]
}
pub mod encode {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Error {
        BufferTooSmall,
    }
    #[derive(Clone, Copy)]
    enum Check {
        No,
        Yes(Option<u8>),
    }
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
        input: I,
        check: Check,
        _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub(crate) fn new(input: I) -> Self {
            Self { input, check: Check::No, _p: std::marker::PhantomData }
        }
        pub fn with_check(self) -> Self {
            Self { check: Check::Yes(None), ..self }
        }
        pub fn with_check_version(self, v: u8) -> Self {
            Self { check: Check::Yes(Some(v)), ..self }
        }
        pub fn into_string(self) -> String {
            let mut b = vec![];
            if let Check::Yes(Some(v)) = self.check {
                b.push(v);
            }
            b.extend_from_slice(self.input.as_ref());
            if let Check::Yes(_) = self.check {
                let c = checksum(&b);
                b.extend(c);
            }
            let mut digits: Vec<u8> = vec![];
            for x in &b {
                let mut carry = *x as u32;
                for d in digits.iter_mut() {
                    carry += (*d as u32) << 8;
                    *d = (carry % 58) as u8;
                    carry /= 58;
                }
                while carry > 0 {
                    digits.push((carry % 58) as u8);
                    carry /= 58;
                }
            }
            digits.extend(b.iter().take_while(|x| **x == 0).map(|_| 0));
            digits.iter().rev().map(|d| ALPHABET[*d as usize] as char).collect()
        }
        pub fn into_vec(self) -> Vec<u8> {
            self.into_string().into_bytes()
        }
    }
}
pub mod decode {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        InvalidChecksum { checksum: [u8; 4], expected_checksum: [u8; 4] },
        InvalidVersion { ver: u8, expected_ver: u8 },
        NoChecksum,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
        input: I,
        check: Option<Option<u8>>,
        _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
        pub(crate) fn new(input: I) -> Self {
            Self { input, check: None, _p: std::marker::PhantomData }
        }
        pub fn with_check(self, v: Option<u8>) -> Self {
            Self { check: Some(v), ..self }
        }
        pub fn into_vec(self) -> Result<Vec<u8>, Error> {
            let s = self.input.as_ref();
            let mut b: Vec<u8> = vec![];
            for (index, c) in s.iter().enumerate() {
                if *c > 127 {
                    return Err(Error::NonAsciiCharacter { index });
                }
                let Some(p) = ALPHABET.iter().position(|a| a == c) else {
                    return Err(Error::InvalidCharacter { character: *c as char, index });
                };
                let mut carry = p as u32;
                for x in b.iter_mut() {
                    carry += *x as u32 * 58;
                    *x = carry as u8;
                    carry >>= 8;
                }
                while carry > 0 {
                    b.push(carry as u8);
                    carry >>= 8;
                }
            }
            b.extend(s.iter().take_while(|c| **c == ALPHABET[0]).map(|_| 0));
            b.reverse();
            if let Some(v) = self.check {
                if b.len() < 4 {
                    return Err(Error::NoChecksum);
                }
                let expected: [u8; 4] = b[b.len() - 4..].try_into().unwrap();
                b.truncate(b.len() - 4);
                let c = checksum(&b);
                if c != expected {
                    return Err(Error::InvalidChecksum { checksum: c, expected_checksum: expected });
                }
                if let Some(v) = v {
                    let got = *b.first().unwrap_or(&expected[0]);
                    if got != v {
                        return Err(Error::InvalidVersion { ver: got, expected_ver: v });
                    }
                }
            }
            Ok(b)
        }
    }
}
pub fn encode<'a, I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<'a, I> {
    encode::EncodeBuilder::new(input)
}
pub fn decode<'a, I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<'a, I> {
    decode::DecodeBuilder::new(input)
}
