//! Stand-in for mina-hasher. The random oracle input (fields and bits, the packing of bits
//! into field elements, the domain prefix) follows the original; the sponge does not: the
//! Poseidon constants are not available offline, so SHA-256 stands in for it.
use ark_ff::PrimeField;
pub use mina_curves::pasta::{Fp, Fq};
use o1_utils::FieldHelpers;
use sha2::{Digest, Sha256};
pub mod roinput {
    pub use crate::ROInput;
}
/// What a mina-rs type feeds to the random oracle.
#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct ROInput {
    pub fields: Vec<Fp>,
    pub bits: Vec<bool>,
}
fn bits_of(bytes: &[u8]) -> impl Iterator<Item = bool> + '_ {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1))
}
impl ROInput {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn append_hashable(self, h: &impl Hashable) -> Self {
        self.append_roinput(h.to_roinput())
    }
    pub fn append_roinput(mut self, mut o: ROInput) -> Self {
        self.fields.append(&mut o.fields);
        self.bits.append(&mut o.bits);
        self
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_scalar(mut self, s: Fq) -> Self {
        let b = s.to_bytes();
        self.bits.extend(bits_of(&b).take(Fq::size_in_bits()));
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(b);
        self
    }
    pub fn append_bytes(mut self, b: &[u8]) -> Self {
        self.bits.extend(bits_of(b));
        self
    }
    pub fn append_u32(self, x: u32) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn append_u64(self, x: u64) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn to_fields(&self) -> Vec<Fp> {
        let mut r = self.fields.clone();
        for c in self.bits.chunks(Fp::size_in_bits() - 1) {
            let mut bytes = [0u8; 32];
            for (i, b) in c.iter().enumerate() {
                bytes[i / 8] |= (*b as u8) << (i % 8);
            }
            r.push(Fp::from_bytes(&bytes).expect("254 bits"));
        }
        r
    }
}
pub trait DomainParameter: Clone {
    fn into_bytes(self) -> Vec<u8>;
}
impl DomainParameter for () {
    fn into_bytes(self) -> Vec<u8> {
        vec![]
    }
}
impl DomainParameter for u32 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
impl DomainParameter for u64 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
pub trait Hashable: Clone {
    type D: DomainParameter;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}
pub trait Hasher<H: Hashable> {
    fn reset(&mut self) -> &mut dyn Hasher<H>;
    fn init(&mut self, domain_param: H::D) -> &mut dyn Hasher<H>;
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H>;
    fn digest(&mut self) -> Fp;
    fn hash(&mut self, input: &H) -> Fp {
        self.reset();
        self.update(input);
        let r = self.digest();
        self.reset();
        r
    }
    fn init_and_hash(&mut self, domain_param: H::D, input: &H) -> Fp {
        self.init(domain_param);
        self.update(input);
        let r = self.digest();
        self.reset();
        r
    }
}
/// The sponge's stand-in: a hash of kind, domain and field elements.
pub fn stand_in_sponge(kind: &str, domain: Option<&str>, fields: &[Fp]) -> Fp {
    let mut h = Sha256::new();
    h.update(kind.as_bytes());
    match domain {
        None => h.update([0u8]),
        Some(d) => {
            assert!(d.len() <= 20, "domain prefix of more than 20 bytes: {d:?}");
            h.update([1u8]);
            h.update(d.as_bytes());
            h.update(vec![b'*'; 20 - d.len()]);
        }
    }
    h.update((fields.len() as u64).to_le_bytes());
    for f in fields {
        h.update(f.to_bytes());
    }
    let mut b: Vec<u8> = h.finalize().to_vec();
    b[31] &= 0x3f;
    Fp::from_bytes(&b).expect("254 bits")
}
pub struct StandIn<H: Hashable> {
    kind: &'static str,
    init: Option<String>,
    fields: Vec<Fp>,
    _p: std::marker::PhantomData<H>,
}
impl<H: Hashable> StandIn<H> {
    fn new(kind: &'static str, d: H::D) -> Self {
        Self { kind, init: H::domain_string(d), fields: vec![], _p: std::marker::PhantomData }
    }
}
impl<H: Hashable> Hasher<H> for StandIn<H> {
    fn reset(&mut self) -> &mut dyn Hasher<H> {
        self.fields.clear();
        self
    }
    fn init(&mut self, d: H::D) -> &mut dyn Hasher<H> {
        self.init = H::domain_string(d);
        self.fields.clear();
        self
    }
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H> {
        self.fields.extend(input.to_roinput().to_fields());
        self
    }
    fn digest(&mut self) -> Fp {
        stand_in_sponge(self.kind, self.init.as_deref(), &self.fields)
    }
}
pub type PoseidonHasherLegacy<H> = StandIn<H>;
pub type PoseidonHasherKimchi<H> = StandIn<H>;
pub fn create_legacy<H: Hashable>(d: H::D) -> StandIn<H> {
    StandIn::new("legacy", d)
}
pub fn create_kimchi<H: Hashable>(d: H::D) -> StandIn<H> {
    StandIn::new("kimchi", d)
}
