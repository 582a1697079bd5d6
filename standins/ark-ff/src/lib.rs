//! Stand-in for ark-ff 0.3: 256-bit prime fields, plain representation, no assembly.
//! Same observable behaviour for the calls mina-rs makes.
use num_bigint::BigUint;
pub use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::ops::*;

pub mod bytes {
    pub use crate::{FromBytes, ToBytes};
}
pub mod fields {
    pub use crate::{Field, FpParameters, PrimeField};
}
pub mod biginteger {
    pub use crate::{BigInteger, BigInteger256};
}
pub trait ToBytes {
    fn write<W: Write>(&self, w: W) -> io::Result<()>;
}
pub trait FromBytes: Sized {
    fn read<R: Read>(r: R) -> io::Result<Self>;
}
pub trait BigInteger: Sized + Clone + Copy + Debug + Default + Ord + ToBytes + FromBytes {
    fn add_nocarry(&mut self, o: &Self) -> bool;
    fn sub_noborrow(&mut self, o: &Self) -> bool;
    fn muln(&mut self, n: u32);
    fn divn(&mut self, n: u32);
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn to_bits_le(&self) -> Vec<bool>;
}
#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, Debug)]
pub struct BigInteger256(pub [u64; 4]);
impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        Self(v)
    }
}
impl PartialOrd for BigInteger256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInteger256 {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}
impl ToBytes for BigInteger256 {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        self.0.iter().try_for_each(|x| w.write_all(&x.to_le_bytes()))
    }
}
impl FromBytes for BigInteger256 {
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        let mut o = [0u64; 4];
        for x in o.iter_mut() {
            let mut b = [0; 8];
            r.read_exact(&mut b)?;
            *x = u64::from_le_bytes(b);
        }
        Ok(Self(o))
    }
}
impl BigInteger for BigInteger256 {
    fn add_nocarry(&mut self, o: &Self) -> bool {
        let mut c = false;
        for i in 0..4 {
            let (a, x) = self.0[i].overflowing_add(o.0[i]);
            let (a, y) = a.overflowing_add(c as u64);
            self.0[i] = a;
            c = x | y;
        }
        c
    }
    fn sub_noborrow(&mut self, o: &Self) -> bool {
        let mut c = false;
        for i in 0..4 {
            let (a, x) = self.0[i].overflowing_sub(o.0[i]);
            let (a, y) = a.overflowing_sub(c as u64);
            self.0[i] = a;
            c = x | y;
        }
        c
    }
    fn muln(&mut self, n: u32) {
        for _ in 0..n.min(256) {
            let mut c = 0;
            for x in self.0.iter_mut() {
                let t = *x >> 63;
                *x = *x << 1 | c;
                c = t;
            }
        }
    }
    fn divn(&mut self, n: u32) {
        for _ in 0..n.min(256) {
            let mut c = 0;
            for x in self.0.iter_mut().rev() {
                let t = *x << 63;
                *x = *x >> 1 | c;
                c = t;
            }
        }
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn num_bits(&self) -> u32 {
        (0..256).rev().find(|i| self.get_bit(*i)).map_or(0, |i| i as u32 + 1)
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..256).map(|i| self.get_bit(i)).collect()
    }
}
impl From<u64> for BigInteger256 {
    fn from(x: u64) -> Self {
        Self([x, 0, 0, 0])
    }
}
impl From<BigInteger256> for BigUint {
    fn from(x: BigInteger256) -> Self {
        BigUint::from_bytes_le(&x.to_bytes_le())
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(v: BigUint) -> Result<Self, String> {
        let b = v.to_bytes_le();
        if b.len() > 32 {
            return Err(format!("A BigUint of {} bits cannot fit into a 256 bits ark_ff::BigInteger", v.bits()));
        }
        let mut o = [0u8; 32];
        o[..b.len()].copy_from_slice(&b);
        Ok(BigInteger256::read(&o[..]).unwrap())
    }
}
impl Display for BigInteger256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for x in self.0.iter().rev() {
            write!(f, "{x:016X}")?;
        }
        Ok(())
    }
}
pub trait FpParameters: 'static + Send + Sync + Sized {
    const MODULUS: BigInteger256;
    const MODULUS_BITS: u32;
}
pub trait Field:
    Copy + Debug + Display + Default + Eq + Ord + Zero + One + Neg<Output = Self> + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + ToBytes + FromBytes + From<u64> + 'static
{
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn inverse(&self) -> Option<Self>;
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let mut r = Self::one();
        for x in e.as_ref().iter().rev() {
            for i in (0..64).rev() {
                r = r.square();
                if x >> i & 1 == 1 {
                    r = r * *self;
                }
            }
        }
        r
    }
}
pub trait PrimeField: Field + From<Self::BigInt> + Into<Self::BigInt> {
    type Params: FpParameters;
    type BigInt: BigInteger;
    fn from_repr(r: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn size_in_bits() -> usize {
        Self::Params::MODULUS_BITS as usize
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
}
pub trait SquareRootField: Field {
    fn sqrt(&self) -> Option<Self>;
}
pub struct Fp256<P>(BigInteger256, PhantomData<P>);
impl<P> Clone for Fp256<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P> Copy for Fp256<P> {}
impl<P> PartialEq for Fp256<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P> Eq for Fp256<P> {}
impl<P> std::hash::Hash for Fp256<P> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P> PartialOrd for Fp256<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P> Ord for Fp256<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<P> Default for Fp256<P> {
    fn default() -> Self {
        Self(BigInteger256([0; 4]), PhantomData)
    }
}
impl<P> Debug for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fp256 \"({})\"", self.0)
    }
}
impl<P> Display for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fp256 \"({})\"", self.0)
    }
}
impl<P: FpParameters> Fp256<P> {
    fn raw(b: BigInteger256) -> Self {
        Self(b, PhantomData)
    }
    fn big(b: BigUint) -> Self {
        let m: BigUint = P::MODULUS.into();
        Self::raw((b % m).try_into().unwrap())
    }
}
impl<P: FpParameters> From<BigInteger256> for Fp256<P> {
    /// Panics if the number is not smaller than the modulus, like the original.
    fn from(b: BigInteger256) -> Self {
        Self::from_repr(b).unwrap()
    }
}
impl<P: FpParameters> From<Fp256<P>> for BigInteger256 {
    fn from(x: Fp256<P>) -> Self {
        x.0
    }
}
macro_rules! from_int { ($($t:ty)*) => { $(impl<P: FpParameters> From<$t> for Fp256<P> {
    fn from(x: $t) -> Self { Self::raw(BigInteger256([x as u64, 0, 0, 0])) }
})* } }
from_int!(u8 u16 u32 u64 bool);
impl<P: FpParameters> From<u128> for Fp256<P> {
    fn from(x: u128) -> Self {
        Self::raw(BigInteger256([x as u64, (x >> 64) as u64, 0, 0]))
    }
}
impl<P: FpParameters> Add for Fp256<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let mut a = self.0;
        a.add_nocarry(&o.0); // both are below 2^255
        if a >= P::MODULUS {
            a.sub_noborrow(&P::MODULUS);
        }
        Self::raw(a)
    }
}
impl<P: FpParameters> Sub for Fp256<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let mut a = self.0;
        if a < o.0 {
            a.add_nocarry(&P::MODULUS);
        }
        a.sub_noborrow(&o.0);
        Self::raw(a)
    }
}
impl<P: FpParameters> Neg for Fp256<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::default() - self
    }
}
impl<P: FpParameters> Mul for Fp256<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        // the modulus is 2^254 + c with c of 126 bits, so that 2^254 stands for -c
        let c = [P::MODULUS.0[0], P::MODULUS.0[1]];
        debug_assert!(P::MODULUS.0[2] == 0 && P::MODULUS.0[3] == 1 << 62);
        fn wide<const N: usize>(a: &[u64], b: &[u64]) -> [u64; N] {
            let mut r = [0u64; N];
            for (i, x) in a.iter().enumerate() {
                let mut k = 0u128;
                for (j, y) in b.iter().enumerate() {
                    k += *x as u128 * *y as u128 + r[i + j] as u128;
                    r[i + j] = k as u64;
                    k >>= 64;
                }
                if i + b.len() < N {
                    r[i + b.len()] = k as u64;
                }
            }
            r
        }
        fn low(n: &[u64]) -> BigInteger256 {
            BigInteger256([n[0], n[1], n[2], n[3] & (1 << 62) - 1])
        }
        fn high(n: &[u64], i: usize) -> u64 {
            n.get(3 + i).map_or(0, |x| x >> 62) | n.get(4 + i).map_or(0, |x| x << 2)
        }
        let n: [u64; 8] = wide(&self.0 .0, &o.0 .0);
        let h: [u64; 6] = wide(&[high(&n, 0), high(&n, 1), high(&n, 2), high(&n, 3)], &c);
        let t: [u64; 4] = wide(&[high(&h, 0), high(&h, 1)], &c);
        let fit = |b: BigInteger256| if b >= P::MODULUS { let mut b = b; b.sub_noborrow(&P::MODULUS); b } else { b };
        Self::raw(fit(low(&n))) - Self::raw(fit(low(&h))) + Self::raw(fit(BigInteger256(t)))
    }
}
impl<P: FpParameters> Div for Fp256<P> {
    type Output = Self;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, o: Self) -> Self {
        self * o.inverse().unwrap()
    }
}
impl<P: FpParameters> AddAssign for Fp256<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<P: FpParameters> SubAssign for Fp256<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<P: FpParameters> MulAssign for Fp256<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<P: FpParameters> Zero for Fp256<P> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        self.0 .0 == [0; 4]
    }
}
impl<P: FpParameters> One for Fp256<P> {
    fn one() -> Self {
        1u64.into()
    }
}
impl<P: FpParameters> ToBytes for Fp256<P> {
    fn write<W: Write>(&self, w: W) -> io::Result<()> {
        self.0.write(w)
    }
}
impl<P: FpParameters> FromBytes for Fp256<P> {
    fn read<R: Read>(r: R) -> io::Result<Self> {
        BigInteger256::read(r).and_then(|b| Self::from_repr(b).ok_or_else(|| io::Error::new(io::ErrorKind::Other, "FromBytes::read failed")))
    }
}
impl<P: FpParameters> Field for Fp256<P> {
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let m: BigUint = P::MODULUS.into();
        let e = &m - 2u32;
        Some(Self::big(BigUint::from(self.0).modpow(&e, &m)))
    }
}
impl<P: FpParameters> PrimeField for Fp256<P> {
    type Params = P;
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        (r < P::MODULUS).then(|| Self::raw(r))
    }
    fn into_repr(&self) -> BigInteger256 {
        self.0
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        Self::big(BigUint::from_bytes_le(b))
    }
}
impl<P: FpParameters> SquareRootField for Fp256<P> {
    /// Tonelli-Shanks, 2-adicity 32 for both Pasta fields.
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() {
            return Some(*self);
        }
        let m: BigUint = P::MODULUS.into();
        let one = BigUint::from(1u32);
        let half = (&m - &one) >> 1u32;
        let n = BigUint::from(self.0);
        if n.modpow(&half, &m) != one {
            return None;
        }
        let s = (&m - &one).trailing_zeros().unwrap();
        let q = (&m - &one) >> s;
        let mut z = BigUint::from(2u32);
        while z.modpow(&half, &m) == one {
            z += 1u32;
        }
        let mut c = z.modpow(&q, &m);
        let mut r = n.modpow(&((&q + 1u32) >> 1u32), &m);
        let mut t = n.modpow(&q, &m);
        let mut k = s;
        while t != one {
            let mut i = 0;
            let mut u = t.clone();
            while u != one {
                u = &u * &u % &m;
                i += 1;
            }
            let mut b = c.clone();
            for _ in 0..k - i - 1 {
                b = &b * &b % &m;
            }
            r = &r * &b % &m;
            c = &b * &b % &m;
            t = &t * &c % &m;
            k = i;
        }
        Some(Self::raw(r.try_into().unwrap()))
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct M;
    impl FpParameters for M {
        const MODULUS: BigInteger256 = BigInteger256::new([0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000]);
        const MODULUS_BITS: u32 = 255;
    }
    #[test]
    fn product() {
        let m: BigUint = M::MODULUS.into();
        let mut v: Vec<BigUint> = (0u32..4).map(BigUint::from).collect();
        for i in 1u32..5 {
            v.push(&m - i);
        }
        for k in [64, 127, 128, 192, 253, 254] {
            for d in 0u32..3 {
                v.push(((BigUint::from(1u32) << k) + d) % &m);
                v.push(((BigUint::from(1u32) << k) - 1u32 - d) % &m);
            }
        }
        let mut x = BigUint::from(3u32);
        for _ in 0..300 {
            x = &x * &x * 7u32 % &m + 1u32;
            v.push(&x % &m);
        }
        for a in &v {
            for b in &v {
                let f = |n: &BigUint| Fp256::<M>::from_repr(n.clone().try_into().unwrap()).unwrap();
                assert_eq!(BigUint::from((f(a) * f(b)).into_repr()), a * b % &m, "{a} {b}");
            }
        }
    }
}
