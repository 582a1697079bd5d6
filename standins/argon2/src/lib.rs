//! Stand-in for argon2 0.4: Argon2i (RFC 9106) with one lane, and the part of its interface that is used.
mod blake2b {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    pub fn hash(len: usize, parts: &[&[u8]]) -> Vec<u8> {
        let m: Vec<u8> = parts.concat();
        let mut h = IV;
        h[0] ^= 0x0101_0000 ^ len as u64;
        let blocks = m.len().max(1).div_ceil(128);
        for b in 0..blocks {
            let mut w = [0u8; 128];
            let end = m.len().min(128 * (b + 1));
            w[..end - 128 * b].copy_from_slice(&m[128 * b..end]);
            let x: Vec<u64> = w.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let mut v = [0u64; 16];
            v[..8].copy_from_slice(&h);
            v[8..].copy_from_slice(&IV);
            v[12] ^= end as u64;
            if b + 1 == blocks {
                v[14] = !v[14];
            }
            for r in 0..12 {
                let s = &SIGMA[r % 10];
                let mut g = |a: usize, b: usize, c: usize, d: usize, i: usize| {
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x[s[2 * i]]);
                    v[d] = (v[d] ^ v[a]).rotate_right(32);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(24);
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x[s[2 * i + 1]]);
                    v[d] = (v[d] ^ v[a]).rotate_right(16);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(63);
                };
                g(0, 4, 8, 12, 0);
                g(1, 5, 9, 13, 1);
                g(2, 6, 10, 14, 2);
                g(3, 7, 11, 15, 3);
                g(0, 5, 10, 15, 4);
                g(1, 6, 11, 12, 5);
                g(2, 7, 8, 13, 6);
                g(3, 4, 9, 14, 7);
            }
            for i in 0..8 {
                h[i] ^= v[i] ^ v[i + 8];
            }
        }
        h.iter().flat_map(|x| x.to_le_bytes()).take(len).collect()
    }
}
fn long_hash(len: usize, parts: &[&[u8]]) -> Vec<u8> {
    let l = (len as u32).to_le_bytes();
    let mut all: Vec<&[u8]> = vec![&l];
    all.extend_from_slice(parts);
    if len <= 64 {
        return blake2b::hash(len, &all);
    }
    let mut v = blake2b::hash(64, &all);
    let mut out = v[..32].to_vec();
    while len - out.len() > 64 {
        v = blake2b::hash(64, &[&v]);
        out.extend_from_slice(&v[..32]);
    }
    let last = len - out.len();
    out.extend(blake2b::hash(last, &[&v]));
    out
}
type Block = [u64; 128];
fn permute(b: &mut Block, ix: &[usize; 16]) {
    let mut g = |a: usize, bb: usize, c: usize, d: usize| {
        let f = |x: u64, y: u64| x.wrapping_add(y).wrapping_add(2u64.wrapping_mul((x & 0xffff_ffff).wrapping_mul(y & 0xffff_ffff)));
        let (a, bb, c, d) = (ix[a], ix[bb], ix[c], ix[d]);
        b[a] = f(b[a], b[bb]);
        b[d] = (b[d] ^ b[a]).rotate_right(32);
        b[c] = f(b[c], b[d]);
        b[bb] = (b[bb] ^ b[c]).rotate_right(24);
        b[a] = f(b[a], b[bb]);
        b[d] = (b[d] ^ b[a]).rotate_right(16);
        b[c] = f(b[c], b[d]);
        b[bb] = (b[bb] ^ b[c]).rotate_right(63);
    };
    g(0, 4, 8, 12);
    g(1, 5, 9, 13);
    g(2, 6, 10, 14);
    g(3, 7, 11, 15);
    g(0, 5, 10, 15);
    g(1, 6, 11, 12);
    g(2, 7, 8, 13);
    g(3, 4, 9, 14);
}
fn compress(x: &Block, y: &Block) -> Block {
    let mut r = *x;
    for i in 0..128 {
        r[i] ^= y[i]
    }
    let mut q = r;
    for i in 0..8 {
        let ix: [usize; 16] = std::array::from_fn(|k| 16 * i + k);
        permute(&mut q, &ix);
    }
    for i in 0..8 {
        let ix: [usize; 16] = std::array::from_fn(|k| 2 * i + 16 * (k / 2) + k % 2);
        permute(&mut q, &ix);
    }
    for i in 0..128 {
        q[i] ^= r[i]
    }
    q
}
fn block(b: &[u8]) -> Block {
    std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()))
}
fn argon2i(m_cost: u32, t_cost: u32, pw: &[u8], salt: &[u8], out: usize) -> Vec<u8> {
    let le = |x: usize| (x as u32).to_le_bytes();
    let h0 = blake2b::hash(
        64,
        &[&le(1), &le(out), &le(m_cost as usize), &le(t_cost as usize), &le(0x13), &le(1), &le(pw.len()), pw, &le(salt.len()), salt, &le(0), &le(0)],
    );
    let q = (m_cost as usize / 4) * 4;
    let seg = q / 4;
    let mut mem: Vec<Block> = vec![[0; 128]; q];
    mem[0] = block(&long_hash(1024, &[&h0, &le(0), &le(0)]));
    mem[1] = block(&long_hash(1024, &[&h0, &le(1), &le(0)]));
    let zero = [0u64; 128];
    for pass in 0..t_cost as usize {
        for slice in 0..4 {
            let mut z = [0u64; 128];
            z[0] = pass as u64;
            z[2] = slice as u64;
            z[3] = q as u64;
            z[4] = t_cost as u64;
            z[5] = 1;
            let mut addr = zero;
            for i in 0..seg {
                if i % 128 == 0 {
                    z[6] += 1;
                    addr = compress(&zero, &compress(&zero, &z));
                }
                if pass == 0 && slice == 0 && i < 2 {
                    continue;
                }
                let at = slice * seg + i;
                let prev = (at + q - 1) % q;
                let j1 = addr[i % 128] & 0xffff_ffff;
                let area = if pass == 0 { at - 1 } else { q - seg + i - 1 } as u64;
                let x = j1 * j1 >> 32;
                let y = area * x >> 32;
                let start = if pass == 0 || slice == 3 { 0 } else { (slice + 1) * seg };
                let from = (start + (area - 1 - y) as usize) % q;
                let mut n = compress(&mem[prev], &mem[from]);
                if pass > 0 {
                    for k in 0..128 {
                        n[k] ^= mem[at][k]
                    }
                }
                mem[at] = n;
            }
        }
    }
    let last: Vec<u8> = mem[q - 1].iter().flat_map(|x| x.to_le_bytes()).collect();
    long_hash(out, &[&last])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Algorithm {
    Argon2i,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Version {
    V0x13,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    MemoryTooLittle,
    MemoryTooMuch,
    TimeTooSmall,
    SaltTooShort,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
impl From<Error> for password_hash::Error {
    fn from(_: Error) -> Self {
        password_hash::Error::Invalid
    }
}
#[derive(Clone, Debug)]
pub struct Params {
    m: u32,
    t: u32,
}
#[derive(Clone, Debug)]
pub struct ParamsBuilder(Params);
impl ParamsBuilder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Params { m: 4096, t: 3 })
    }
    pub fn m_cost(&mut self, m: u32) -> Result<&mut Self, Error> {
        if m < 8 {
            return Err(Error::MemoryTooLittle);
        }
        if m > 0x0fff_ffff {
            return Err(Error::MemoryTooMuch);
        }
        self.0.m = m;
        Ok(self)
    }
    pub fn t_cost(&mut self, t: u32) -> Result<&mut Self, Error> {
        if t < 1 {
            return Err(Error::TimeTooSmall);
        }
        self.0.t = t;
        Ok(self)
    }
    pub fn params(self) -> Result<Params, Error> {
        Ok(self.0)
    }
}
pub struct Argon2(Params);
impl Argon2 {
    pub fn new(_: Algorithm, _: Version, p: Params) -> Self {
        Self(p)
    }
    pub fn hash_password_into(&self, pw: &[u8], salt: &[u8], out: &mut [u8]) -> Result<(), Error> {
        if salt.len() < 8 {
            return Err(Error::SaltTooShort);
        }
        let n = out.len();
        out.copy_from_slice(&argon2i(self.0.m, self.0.t, pw, salt, n));
        Ok(())
    }
}
pub use password_hash::PasswordHasher;
impl PasswordHasher for Argon2 {
    fn hash_password(&self, pw: &[u8], salt: &password_hash::SaltString) -> password_hash::Result<password_hash::PasswordHash> {
        let mut buf = [0; 64];
        let salt = salt.b64_decode(&mut buf)?;
        let mut out = [0; 32];
        self.hash_password_into(pw, salt, &mut out)?;
        Ok(password_hash::PasswordHash { hash: Some(password_hash::Output(out.to_vec())) })
    }
}
pub mod password_hash {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Error {
        SaltTooShort,
        SaltTooLong,
        InvalidLength,
        Invalid,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    /// Salt in unpadded base64 of 4 to 64 characters; kept here as bytes.
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SaltString(Vec<u8>);
    impl SaltString {
        pub fn b64_encode(b: &[u8]) -> Result<Self> {
            match (b.len() * 4).div_ceil(3) {
                0..=3 => Err(Error::SaltTooShort),
                4..=64 => Ok(Self(b.to_vec())),
                _ => Err(Error::SaltTooLong),
            }
        }
        pub fn b64_decode<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8]> {
            let b = buf.get_mut(..self.0.len()).ok_or(Error::InvalidLength)?;
            b.copy_from_slice(&self.0);
            Ok(b)
        }
    }
    pub struct Output(pub(crate) Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    pub struct PasswordHash {
        pub hash: Option<Output>,
    }
    pub trait PasswordHasher {
        fn hash_password(&self, pw: &[u8], salt: &SaltString) -> Result<PasswordHash>;
    }
}
