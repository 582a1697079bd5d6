//! The hashers of multihash 0.16 that mina-rs could use.
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(&mut self) -> &[u8];
    fn reset(&mut self);
}
macro_rules! blake {
    ($name:ident, $n:literal) => {
        #[derive(Debug)]
        pub struct $name {
            data: Vec<u8>,
            out: [u8; $n],
        }
        impl Default for $name {
            fn default() -> Self {
                Self { data: vec![], out: [0; $n] }
            }
        }
        impl Hasher for $name {
            fn update(&mut self, input: &[u8]) {
                self.data.extend_from_slice(input)
            }
            fn finalize(&mut self) -> &[u8] {
                use blake2::digest::{Update, VariableOutput};
                let mut h = blake2::Blake2bVar::new($n).unwrap();
                h.update(&self.data);
                self.out.copy_from_slice(&h.finalize_boxed());
                &self.out
            }
            fn reset(&mut self) {
                self.data.clear()
            }
        }
    };
}
blake!(Blake2b256, 32);
blake!(Blake2b512, 64);
#[derive(Debug, Default)]
pub struct Sha2_256 {
    data: Vec<u8>,
    out: [u8; 32],
}
impl Hasher for Sha2_256 {
    fn update(&mut self, input: &[u8]) {
        self.data.extend_from_slice(input)
    }
    fn finalize(&mut self) -> &[u8] {
        use sha2::Digest;
        self.out = sha2::Sha256::digest(&self.data).into();
        &self.out
    }
    fn reset(&mut self) {
        self.data.clear()
    }
}
