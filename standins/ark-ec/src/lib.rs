//! Stand-in for the part of ark-ec 0.3 that mina-rs uses.
use ark_ff::{Field, PrimeField, SquareRootField};
pub mod models {
    pub use crate::{ModelParameters, SWModelParameters};
}
pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: Field + SquareRootField;
    type ScalarField: PrimeField + SquareRootField;
}
pub trait SWModelParameters: ModelParameters {
    const COEFF_B: u64;
}
pub mod short_weierstrass_jacobian {
    use super::*;
    use std::marker::PhantomData;
    pub struct GroupAffine<P: ModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
        _p: PhantomData<P>,
    }
    impl<P: ModelParameters> Clone for GroupAffine<P> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<P: ModelParameters> Copy for GroupAffine<P> {}
    impl<P: ModelParameters> PartialEq for GroupAffine<P> {
        fn eq(&self, o: &Self) -> bool {
            self.infinity == o.infinity && (self.infinity || (self.x == o.x && self.y == o.y))
        }
    }
    impl<P: ModelParameters> Eq for GroupAffine<P> {}
    impl<P: ModelParameters> std::fmt::Debug for GroupAffine<P> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "GroupAffine({:?}, {:?}, {})", self.x, self.y, self.infinity)
        }
    }
    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            Self { x, y, infinity, _p: PhantomData }
        }
        pub fn zero() -> Self {
            use ark_ff::Zero;
            Self::new(P::BaseField::zero(), P::BaseField::from(1u64), true)
        }
        pub fn is_on_curve(&self) -> bool {
            self.infinity || self.y.square() == self.x.square() * self.x + P::BaseField::from(P::COEFF_B)
        }
        /// The point with this abscissa and the smaller or greater ordinate.
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let y = (x.square() * x + P::BaseField::from(P::COEFF_B)).sqrt()?;
            let n = -y;
            let big = if y > n { y } else { n };
            let small = if y > n { n } else { y };
            Some(Self::new(x, if greatest { big } else { small }, false))
        }
        pub fn neg(self) -> Self {
            Self::new(self.x, -self.y, self.infinity)
        }
        pub fn plus(self, o: Self) -> Self {
            use ark_ff::Zero;
            if self.infinity {
                return o;
            }
            if o.infinity {
                return self;
            }
            let l = if self.x == o.x {
                if self.y != o.y || self.y.is_zero() {
                    return Self::zero();
                }
                P::BaseField::from(3u64) * self.x.square() / self.y.double()
            } else {
                (o.y - self.y) / (o.x - self.x)
            };
            let x = l.square() - self.x - o.x;
            Self::new(x, l * (self.x - x) - self.y, false)
        }
        /// In Jacobian coordinates, which need no division until the end.
        pub fn times(self, bits_le: &[bool]) -> Self {
            use ark_ff::{One, Zero};
            type F<P> = <P as ModelParameters>::BaseField;
            let dbl = |(x, y, z): (F<P>, F<P>, F<P>)| {
                if z.is_zero() || y.is_zero() {
                    return (F::<P>::one(), F::<P>::one(), F::<P>::zero());
                }
                let (a, b) = (x.square(), y.square());
                let s = (x * b).double().double();
                let m = a.double() + a;
                let x3 = m.square() - s.double();
                (x3, m * (s - x3) - b.square().double().double().double(), (y * z).double())
            };
            let add = |(x, y, z): (F<P>, F<P>, F<P>)| {
                if z.is_zero() {
                    return (self.x, self.y, F::<P>::one());
                }
                let zz = z.square();
                let (u, v) = (self.x * zz - x, self.y * zz * z - y);
                if u.is_zero() {
                    return if v.is_zero() { dbl((x, y, z)) } else { (F::<P>::one(), F::<P>::one(), F::<P>::zero()) };
                }
                let uu = u.square();
                let (uuu, w) = (uu * u, x * uu);
                let x3 = v.square() - uuu - w.double();
                (x3, v * (w - x3) - y * uuu, z * u)
            };
            let mut r = (F::<P>::one(), F::<P>::one(), F::<P>::zero());
            if !self.infinity {
                for b in bits_le.iter().rev() {
                    r = dbl(r);
                    if *b {
                        r = add(r);
                    }
                }
            }
            if r.2.is_zero() {
                return Self::zero();
            }
            let i = r.2.inverse().unwrap();
            let ii = i.square();
            Self::new(r.0 * ii, r.1 * ii * i, false)
        }
    }
}
