//! Stand-in for the part of o1-utils that mina-rs uses.
pub mod field_helpers {
    use ark_ff::{BigInteger, FromBytes, PrimeField};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum FieldHelpersError {
        DeserializeBytes,
        DecodeHex,
        FromBigToField,
    }
    impl std::fmt::Display for FieldHelpersError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for FieldHelpersError {}
    pub type Result<T> = std::result::Result<T, FieldHelpersError>;
    pub trait FieldHelpers<F> {
        /// Little-endian bytes; Err for a value that is not below the modulus.
        fn from_bytes(bytes: &[u8]) -> Result<F>;
        fn from_hex(hex: &str) -> Result<F>;
        fn to_bytes(&self) -> Vec<u8>;
        fn to_hex(&self) -> String;
        fn size_in_bytes() -> usize
        where
            F: PrimeField,
        {
            (F::size_in_bits() + 7) / 8
        }
    }
    impl<F: PrimeField> FieldHelpers<F> for F {
        fn from_bytes(mut bytes: &[u8]) -> Result<F> {
            let b = <F::BigInt as FromBytes>::read(&mut bytes).map_err(|_| FieldHelpersError::DeserializeBytes)?;
            F::from_repr(b).ok_or(FieldHelpersError::DeserializeBytes)
        }
        fn from_hex(h: &str) -> Result<F> {
            let b = hex::decode(h).map_err(|_| FieldHelpersError::DecodeHex)?;
            <F as FieldHelpers<F>>::from_bytes(&b)
        }
        fn to_bytes(&self) -> Vec<u8> {
            self.into_repr().to_bytes_le()
        }
        fn to_hex(&self) -> String {
            hex::encode(<F as FieldHelpers<F>>::to_bytes(self))
        }
    }
}
pub use field_helpers::FieldHelpers;
