//! Stand-in for mina-signer: key pairs, addresses and Schnorr signatures on the real Pallas
//! curve, with the stand-in sponge of mina-hasher.
use ark_ff::{BigInteger, PrimeField, Zero};
use mina_curves::pasta::{Fp, Fq, Pallas};
use mina_hasher::{DomainParameter, Hashable};
use o1_utils::FieldHelpers;
use sha2::{Digest, Sha256};
pub type BaseField = Fp;
pub type ScalarField = Fq;
pub type CurvePoint = Pallas;

pub fn generator() -> Pallas {
    let y = Fp::from_bytes(
        &hex::decode("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb").unwrap().into_iter().rev().collect::<Vec<_>>(),
    )
    .unwrap();
    Pallas::new(Fp::from(1u64), y, false)
}
fn times(p: Pallas, s: Fq) -> Pallas {
    p.times(&s.into_repr().to_bits_le())
}
fn odd(f: Fp) -> bool {
    f.into_repr().is_odd()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(clippy::upper_case_acronyms)]
pub enum NetworkId {
    TESTNET = 0x00,
    MAINNET = 0x01,
}
impl From<NetworkId> for u8 {
    fn from(i: NetworkId) -> u8 {
        i as u8
    }
}
impl DomainParameter for NetworkId {
    fn into_bytes(self) -> Vec<u8> {
        vec![self as u8]
    }
}

pub mod pubkey {
    use super::*;
    pub const MINA_ADDRESS_LEN: usize = 55;
    #[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
    pub enum PubKeyError {
        #[error("Invalid address length")]
        AddressLength,
        #[error("Invalid address base58")]
        AddressBase58,
        #[error("Invalid raw address bytes length")]
        AddressRawByteLength,
        #[error("Invalid address checksum")]
        AddressChecksum,
        #[error("Invalid address version")]
        AddressVersion,
        #[error("Invalid x-coordinate bytes")]
        XCoordinateBytes,
        #[error("Invalid x-coordinate")]
        XCoordinate,
        #[error("Public key point not on curve")]
        YCoordinateParityBytes,
        #[error("Invalid y-coordinate parity")]
        YCoordinateParity,
        #[error("Invalid secret key")]
        SecKey,
        #[error("not on curve")]
        NonCurvePoint,
    }
    pub type Result<T> = std::result::Result<T, PubKeyError>;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PubKey(Pallas);
    impl PubKey {
        pub fn from_point_unsafe(p: Pallas) -> Self {
            Self(p)
        }
        pub fn point(&self) -> &Pallas {
            &self.0
        }
        pub fn into_compressed(&self) -> CompressedPubKey {
            CompressedPubKey { x: self.0.x, is_odd: odd(self.0.y) }
        }
        pub fn into_address(self) -> String {
            self.into_compressed().into_address()
        }
        pub fn from_address(a: &str) -> Result<Self> {
            let c = CompressedPubKey::from_address(a)?;
            let p = Pallas::get_point_from_x(c.x, c.is_odd).ok_or(PubKeyError::XCoordinate)?;
            Ok(Self(if odd(p.y) == c.is_odd { p } else { p.neg() }))
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CompressedPubKey {
        pub x: Fp,
        pub is_odd: bool,
    }
    impl CompressedPubKey {
        pub fn from_address(a: &str) -> Result<Self> {
            if a.len() != MINA_ADDRESS_LEN {
                return Err(PubKeyError::AddressLength);
            }
            let b = bs58::decode(a).with_check(Some(0xcb)).into_vec().map_err(|_| PubKeyError::AddressBase58)?;
            if b.len() != 36 {
                return Err(PubKeyError::AddressRawByteLength);
            }
            if b[..3] != [0xcb, 1, 1] {
                return Err(PubKeyError::AddressVersion);
            }
            let x = Fp::from_bytes(&b[3..35]).map_err(|_| PubKeyError::XCoordinateBytes)?;
            let is_odd = match b[35] {
                0 => false,
                1 => true,
                _ => return Err(PubKeyError::YCoordinateParity),
            };
            Ok(Self { x, is_odd })
        }
        pub fn into_address(&self) -> String {
            let mut b = vec![0xcb, 1, 1];
            b.extend(self.x.to_bytes());
            b.push(self.is_odd as u8);
            bs58::encode(b).with_check().into_string()
        }
        pub fn empty() -> Self {
            Self { x: Fp::zero(), is_odd: false }
        }
        pub fn from_secret_key(s: &super::SecKey) -> Self {
            PubKey(times(generator(), s.0)).into_compressed()
        }
    }
}
pub use pubkey::{CompressedPubKey, PubKey};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SecKey(pub(crate) Fq);
impl SecKey {
    pub fn scalar(&self) -> &Fq {
        &self.0
    }
}
pub mod keypair {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
    pub enum KeypairError {
        #[error("Invalid secret key")]
        SecretKey,
        #[error("public key point not on curve")]
        NonCurvePoint,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Keypair {
        pub secret: SecKey,
        pub public: PubKey,
    }
    impl Keypair {
        pub fn from_secret(s: Fq) -> Self {
            Self { secret: SecKey(s), public: PubKey::from_point_unsafe(times(generator(), s)) }
        }
        /// The hexadecimal form of a secret key is big-endian.
        pub fn from_hex(h: &str) -> Result<Self, KeypairError> {
            let mut b = hex::decode(h).map_err(|_| KeypairError::SecretKey)?;
            if b.len() != 32 {
                return Err(KeypairError::SecretKey);
            }
            b.reverse();
            Ok(Self::from_secret(Fq::from_bytes(&b).map_err(|_| KeypairError::SecretKey)?))
        }
        pub fn to_hex(&self) -> String {
            let mut b = self.secret.0.to_bytes();
            b.reverse();
            hex::encode(b)
        }
        pub fn get_address(&self) -> String {
            self.public.clone().into_address()
        }
    }
}
pub use keypair::Keypair;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature {
    pub rx: Fp,
    pub s: Fq,
}
impl Signature {
    pub fn new(rx: Fp, s: Fq) -> Self {
        Self { rx, s }
    }
    pub fn dummy() -> Self {
        Self { rx: Fp::from(1u64), s: Fq::from(1u64) }
    }
}
impl std::fmt::Display for Signature {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", self.rx.to_hex(), self.s.to_hex())
    }
}
pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool;
}
pub struct Schnorr<H: Hashable> {
    kind: &'static str,
    d: H::D,
}
impl<H: Hashable> Schnorr<H> {
    fn message_hash(&self, p: &PubKey, rx: Fp, input: &H) -> Fq {
        let roi = input.to_roinput().append_field(p.point().x).append_field(p.point().y).append_field(rx);
        let h = mina_hasher::stand_in_sponge(self.kind, H::domain_string(self.d.clone()).as_deref(), &roi.to_fields());
        Fq::from_bytes(&h.to_bytes()).expect("254 bits")
    }
}
impl<H: Hashable> Signer<H> for Schnorr<H> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        let mut h = Sha256::new();
        h.update(kp.secret.0.to_bytes());
        h.update(self.d.clone().into_bytes());
        for f in input.to_roinput().to_fields() {
            h.update(f.to_bytes());
        }
        let mut b = h.finalize().to_vec();
        b[31] &= 0x3f;
        let k = Fq::from_bytes(&b).expect("254 bits");
        let r = times(generator(), k);
        let k = if odd(r.y) { -k } else { k };
        let e = self.message_hash(&kp.public, r.x, input);
        Signature { rx: r.x, s: k + e * kp.secret.0 }
    }
    fn verify(&mut self, sig: &Signature, p: &PubKey, input: &H) -> bool {
        let e = self.message_hash(p, sig.rx, input);
        let v = times(generator(), sig.s).plus(times(*p.point(), e).neg());
        !v.infinity && !odd(v.y) && v.x == sig.rx
    }
}
pub fn create_legacy<H: 'static + Hashable>(domain_param: H::D) -> impl Signer<H> {
    Schnorr { kind: "legacy", d: domain_param }
}
pub fn create_kimchi<H: 'static + Hashable>(domain_param: H::D) -> impl Signer<H> {
    Schnorr { kind: "kimchi", d: domain_param }
}
