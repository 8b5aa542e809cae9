//! Prime fields of many sizes, besides the three of the repository (257, the 252-bit field of the VDF and the
//! 255-bit scalar field of BLS12-381).
use ff::{Field, PrimeField};

pub use hodor::Fr as F257;
pub use hodor::verif_hooks::experiments::Fr as F252;
pub use hodor::verif_hooks::BlsScalarFr as F255;

mod m_f17 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "65537"]
    #[PrimeFieldGenerator = "3"]
    pub struct F17(F17Repr);
}
pub use self::m_f17::F17;

mod m_f31 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "1085276161"]
    #[PrimeFieldGenerator = "11"]
    pub struct F31(F31Repr);
}
pub use self::m_f31::F31;

mod m_baby {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "2013265921"]
    #[PrimeFieldGenerator = "31"]
    pub struct Baby(BabyRepr);
}
pub use self::m_baby::Baby;

mod m_f63 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "4611686171972468737"]
    #[PrimeFieldGenerator = "5"]
    pub struct F63(F63Repr);
}
pub use self::m_f63::F63;

mod m_f64 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "9223372195768565761"]
    #[PrimeFieldGenerator = "7"]
    pub struct F64(F64Repr);
}
pub use self::m_f64::F64;

mod m_gold {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "18446744069414584321"]
    #[PrimeFieldGenerator = "7"]
    pub struct Gold(GoldRepr);
}
pub use self::m_gold::Gold;

mod m_f65 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "18446744146723995649"]
    #[PrimeFieldGenerator = "22"]
    pub struct F65(F65Repr);
}
pub use self::m_f65::F65;

mod m_f128 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "170141183460469231731687335601721311233"]
    #[PrimeFieldGenerator = "3"]
    pub struct F128(F128Repr);
}
pub use self::m_f128::F128;

mod m_f129 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "340282366920938463463374692094163550209"]
    #[PrimeFieldGenerator = "7"]
    pub struct F129(F129Repr);
}
pub use self::m_f129::F129;

mod m_f192 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "3138550867693340381917894711603833208051281023548470067201"]
    #[PrimeFieldGenerator = "17"]
    pub struct F192(F192Repr);
}
pub use self::m_f192::F192;

mod m_f193 {
    use ff::{Field, PrimeField, PrimeFieldRepr};
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "6277101735386680763835789423207666416102425531733235466241"]
    #[PrimeFieldGenerator = "3"]
    pub struct F193(F193Repr);
}
pub use self::m_f193::F193;

pub trait Named: PrimeField {
    const NAME: &'static str;
}
impl Named for F257 { const NAME: &'static str = "F257"; }
impl Named for F252 { const NAME: &'static str = "F252"; }
impl Named for F255 { const NAME: &'static str = "F255"; }
impl Named for F17 { const NAME: &'static str = "F17"; }
impl Named for F31 { const NAME: &'static str = "F31"; }
impl Named for Baby { const NAME: &'static str = "Baby"; }
impl Named for F63 { const NAME: &'static str = "F63"; }
impl Named for F64 { const NAME: &'static str = "F64"; }
impl Named for Gold { const NAME: &'static str = "Gold"; }
impl Named for F65 { const NAME: &'static str = "F65"; }
impl Named for F128 { const NAME: &'static str = "F128"; }
impl Named for F129 { const NAME: &'static str = "F129"; }
impl Named for F192 { const NAME: &'static str = "F192"; }
impl Named for F193 { const NAME: &'static str = "F193"; }

/// order of the root of unity must be exactly 2^S
pub fn sanity<F: PrimeField>() -> bool {
    let mut r = F::root_of_unity();
    for _ in 0..(F::S - 1) {
        r.square();
    }
    let mut m = F::one();
    m.negate();
    r == m && r != F::one()
}
