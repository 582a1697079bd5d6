//! Messages of protocol buffers, version 3, of the few kinds of fields that the wallet has; what a build script
//! makes of the .proto files uses this.
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait Message: Default {
    fn new() -> Self {
        Self::default()
    }
    fn fields(&self, to: &mut Vec<u8>);
    fn field(&mut self, number: u64, value: Value) -> Result<()>;
    fn write_to_bytes(&self) -> Result<Vec<u8>> {
        let mut v = vec![];
        self.fields(&mut v);
        Ok(v)
    }
    fn merge_from_bytes(&mut self, mut b: &[u8]) -> Result<()> {
        while !b.is_empty() {
            let tag = varint(&mut b)?;
            let value = match tag & 7 {
                0 => Value::Int(varint(&mut b)?),
                2 => {
                    let n = varint(&mut b)? as usize;
                    Value::Bytes(take(&mut b, n)?)
                }
                1 => Value::Other(take(&mut b, 8)?),
                5 => Value::Other(take(&mut b, 4)?),
                n => return Err(Error(format!("wire type {n}"))),
            };
            self.field(tag >> 3, value)?
        }
        Ok(())
    }
    fn parse_from_bytes(b: &[u8]) -> Result<Self> {
        let mut m = Self::default();
        m.merge_from_bytes(b)?;
        Ok(m)
    }
}
pub enum Value<'a> {
    Int(u64),
    Bytes(&'a [u8]),
    Other(&'a [u8]),
}
fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8]> {
    if n > b.len() {
        return Err(Error("unexpected end".into()));
    }
    let (a, rest) = b.split_at(n);
    *b = rest;
    Ok(a)
}
fn varint(b: &mut &[u8]) -> Result<u64> {
    let mut n = 0;
    for i in 0..10 {
        let x = take(b, 1)?[0];
        n |= ((x & 127) as u64).wrapping_shl(7 * i);
        if x < 128 {
            return Ok(n);
        }
    }
    Err(Error("varint too long".into()))
}
fn put(to: &mut Vec<u8>, mut n: u64) {
    while n > 127 {
        to.push(n as u8 | 128);
        n >>= 7
    }
    to.push(n as u8)
}
/// A type of field; the default is not written.
pub trait Field: Sized + Default + PartialEq {
    fn put(&self, number: u64, to: &mut Vec<u8>);
    fn get(v: Value) -> Result<Self>;
}
impl Field for String {
    fn put(&self, number: u64, to: &mut Vec<u8>) {
        if !self.is_empty() {
            put(to, number << 3 | 2);
            put(to, self.len() as u64);
            to.extend(self.as_bytes())
        }
    }
    fn get(v: Value) -> Result<Self> {
        match v {
            Value::Bytes(b) => String::from_utf8(b.to_vec()).map_err(|e| Error(e.to_string())),
            _ => Err(Error("wrong wire type".into())),
        }
    }
}
impl Field for i64 {
    fn put(&self, number: u64, to: &mut Vec<u8>) {
        if *self != 0 {
            put(to, number << 3);
            put(to, *self as u64)
        }
    }
    fn get(v: Value) -> Result<Self> {
        match v {
            Value::Int(n) => Ok(n as i64),
            _ => Err(Error("wrong wire type".into())),
        }
    }
}
impl Field for bool {
    fn put(&self, number: u64, to: &mut Vec<u8>) {
        (*self as i64).put(number, to)
    }
    fn get(v: Value) -> Result<Self> {
        i64::get(v).map(|n| n != 0)
    }
}
