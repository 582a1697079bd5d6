//! Stand-in for xsalsa20poly1305 0.9: the NaCl secret box, tag first.
use generic_array::{
    typenum::{U24, U32},
    GenericArray,
};
fn words(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}
const C: [u32; 4] = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574];
fn rounds(x: &mut [u32; 16]) {
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
        x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
        x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
        x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(5, 9, 13, 1);
        q(10, 14, 2, 6);
        q(15, 3, 7, 11);
        q(0, 1, 2, 3);
        q(5, 6, 7, 4);
        q(10, 11, 8, 9);
        q(15, 12, 13, 14);
    }
}
fn state(k: &[u32], n: &[u32]) -> [u32; 16] {
    [C[0], k[0], k[1], k[2], k[3], C[1], n[0], n[1], n[2], n[3], C[2], k[4], k[5], k[6], k[7], C[3]]
}
fn stream(key: &[u8], nonce: &[u8], len: usize) -> Vec<u8> {
    let n = words(nonce);
    let mut x = state(&words(key), &n[..4]);
    rounds(&mut x);
    let sub = [x[0], x[5], x[10], x[15], x[6], x[7], x[8], x[9]];
    let mut out = vec![];
    let mut ctr = 0u64;
    while out.len() < len {
        let s = state(&sub, &[n[4], n[5], ctr as u32, (ctr >> 32) as u32]);
        let mut y = s;
        rounds(&mut y);
        out.extend((0..16).flat_map(|i| y[i].wrapping_add(s[i]).to_le_bytes()));
        ctr += 1;
    }
    out.truncate(len);
    out
}
fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    // limbs of 26 bits
    let load = |b: &[u8; 17]| -> [u64; 5] {
        let mut l = [0u64; 5];
        for bit in 0..136 {
            if b[bit / 8] >> (bit % 8) & 1 == 1 {
                l[bit / 26] |= 1 << (bit % 26)
            }
        }
        l
    };
    let mut r = [0u8; 17];
    r[..16].copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] {
        r[i] &= 15
    }
    for i in [4, 8, 12] {
        r[i] &= 252
    }
    let r = load(&r);
    let mut h = [0u64; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        for (x, y) in h.iter_mut().zip(load(&b)) {
            *x += y
        }
        let mut t = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let v = h[i] as u128 * r[j] as u128;
                t[(i + j) % 5] += if i + j >= 5 { v * 5 } else { v };
            }
        }
        let mut carry = 0u128;
        for x in t.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= (1 << 26) - 1;
        }
        t[0] += carry * 5;
        let mut carry = 0;
        for (x, y) in h.iter_mut().zip(t) {
            let v = y as u64 + carry;
            carry = v >> 26;
            *x = v & ((1 << 26) - 1);
        }
        h[0] += carry * 5;
    }
    // fully reduce, then add the second half of the key modulo 2^128
    for _ in 0..2 {
        let mut carry = 0;
        for x in h.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= (1 << 26) - 1;
        }
        h[0] += carry * 5;
    }
    let max = (1u64 << 26) - 1;
    if h[1..].iter().all(|x| *x == max) && h[0] >= max - 4 {
        h = [h[0] - (max - 4), 0, 0, 0, 0]
    }
    let mut n = 0u128;
    for (i, x) in h.iter().enumerate() {
        n = n.wrapping_add((*x as u128) << (26 * i))
    }
    n.wrapping_add(u128::from_le_bytes(key[16..32].try_into().unwrap())).to_le_bytes()
}
pub struct XSalsa20Poly1305(GenericArray<u8, U32>);
pub trait KeyInit {
    fn new(key: &GenericArray<u8, U32>) -> Self;
}
impl KeyInit for XSalsa20Poly1305 {
    fn new(key: &GenericArray<u8, U32>) -> Self {
        Self(*key)
    }
}
pub mod aead {
    pub use generic_array;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "aead::Error")
        }
    }
    impl std::error::Error for Error {}
    pub trait Aead {
        type Nonce;
        fn encrypt(&self, nonce: &Self::Nonce, plain: &[u8]) -> Result<Vec<u8>, Error>;
        fn decrypt(&self, nonce: &Self::Nonce, cipher: &[u8]) -> Result<Vec<u8>, Error>;
    }
}
impl aead::Aead for XSalsa20Poly1305 {
    type Nonce = GenericArray<u8, U24>;
    fn encrypt(&self, nonce: &Self::Nonce, plain: &[u8]) -> Result<Vec<u8>, aead::Error> {
        let s = stream(&self.0, nonce, 32 + plain.len());
        let c: Vec<u8> = plain.iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect();
        let mut out = poly1305(&s[..32], &c).to_vec();
        out.extend(c);
        Ok(out)
    }
    fn decrypt(&self, nonce: &Self::Nonce, cipher: &[u8]) -> Result<Vec<u8>, aead::Error> {
        if cipher.len() < 16 {
            return Err(aead::Error);
        }
        let (tag, c) = cipher.split_at(16);
        let s = stream(&self.0, nonce, 32 + c.len());
        if poly1305(&s[..32], c) != tag {
            return Err(aead::Error);
        }
        Ok(c.iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect())
    }
}
