//! Stand-in for mina-curves: the Pasta fields and curves with their real parameters.
pub mod pasta {
    use ark_ec::{short_weierstrass_jacobian::GroupAffine, ModelParameters, SWModelParameters};
    use ark_ff::{BigInteger256, Fp256, FpParameters};
    pub struct FpParams;
    pub struct FqParams;
    impl FpParameters for FpParams {
        const MODULUS: BigInteger256 = BigInteger256::new([0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000]);
        const MODULUS_BITS: u32 = 255;
    }
    impl FpParameters for FqParams {
        const MODULUS: BigInteger256 = BigInteger256::new([0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000]);
        const MODULUS_BITS: u32 = 255;
    }
    pub type Fp = Fp256<FpParams>;
    pub type Fq = Fp256<FqParams>;
    pub mod fp {
        pub use super::Fp;
    }
    pub mod fq {
        pub use super::Fq;
    }
    pub struct PallasParameters;
    pub struct VestaParameters;
    impl ModelParameters for PallasParameters {
        type BaseField = Fp;
        type ScalarField = Fq;
    }
    impl SWModelParameters for PallasParameters {
        const COEFF_B: u64 = 5;
    }
    impl ModelParameters for VestaParameters {
        type BaseField = Fq;
        type ScalarField = Fp;
    }
    impl SWModelParameters for VestaParameters {
        const COEFF_B: u64 = 5;
    }
    pub type Pallas = GroupAffine<PallasParameters>;
    pub type Vesta = GroupAffine<VestaParameters>;
    pub mod pallas {
        pub use super::{Pallas as Affine, PallasParameters};
    }
    pub mod vesta {
        pub use super::{Vesta as Affine, VestaParameters};
    }
}
