//! Field elements and vectors from small serialisable seeds.
use ff::{Field, PrimeField, PrimeFieldRepr};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn f_u64<F: PrimeField>(x: u64) -> F {
    let ch = F::char();
    let limbs = ch.as_ref();
    let small = limbs.iter().skip(1).all(|l| *l == 0);
    let v = if small { x % limbs[0] } else { x };
    F::from_repr(F::Repr::from(v)).expect("reduced")
}

/// seeds 0..=6 are special elements, everything else is spread over the field
pub fn el<F: PrimeField>(seed: u64) -> F {
    match seed {
        0 => F::zero(),
        1 => F::one(),
        2 => { let mut m = F::one(); m.negate(); m },
        3 => f_u64(2),
        4 => F::multiplicative_generator(),
        5 => f_u64::<F>(2).inverse().unwrap_or(F::one()),
        6 => f_u64(3),
        _ => {
            let two64 = {
                let mut t: F = f_u64(1u64 << 32);
                t.square();
                t
            };
            let mut acc = F::zero();
            let limbs = (F::NUM_BITS / 64 + 1) as u64;
            for i in 0..limbs {
                acc.mul_assign(&two64);
                acc.add_assign(&f_u64::<F>(mix(seed.wrapping_add(i.wrapping_mul(0xabcdef1234567)))));
            }
            acc
        }
    }
}

pub fn el_nonzero<F: PrimeField>(seed: u64) -> F {
    let e: F = el(seed);
    if e.is_zero() { F::one() } else { e }
}

pub fn add<F: Field>(a: F, b: &F) -> F { let mut t = a; t.add_assign(b); t }
pub fn sub<F: Field>(a: F, b: &F) -> F { let mut t = a; t.sub_assign(b); t }
pub fn mul<F: Field>(a: F, b: &F) -> F { let mut t = a; t.mul_assign(b); t }
pub fn neg<F: Field>(a: F) -> F { let mut t = a; t.negate(); t }
pub fn inv<F: Field>(a: F) -> F { a.inverse().expect("inverse of zero in the oracle") }

/// strategy for an element seed: special elements are frequent
pub fn eseed() -> BoxedStrategy<u64> {
    prop_oneof![3 => 0u64..7, 7 => 7u64..u64::MAX].boxed()
}
pub fn eseed_nz() -> BoxedStrategy<u64> {
    prop_oneof![3 => 1u64..7, 7 => 7u64..u64::MAX].boxed()
}

/// A vector described by its pattern
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct VecSpec {
    pub len: usize,
    pub kind: u8,
    pub seed: u64,
}

pub const VEC_KINDS: u8 = 8;

impl VecSpec {
    pub fn expand<F: PrimeField>(&self) -> Vec<F> {
        let n = self.len;
        let s = self.seed;
        (0..n).map(|i| {
            let r = mix(s ^ mix(i as u64 + 1));
            match self.kind {
                0 => el(r | 8),
                1 => el(if r % 3 == 0 { (r >> 8) % 7 } else { r | 8 }),
                2 => if n > 0 && i == (s as usize) % n { el_nonzero(s >> 7) } else { F::zero() },
                3 => F::zero(),
                4 => el(s),
                5 => f_u64(i as u64 + (s % 5)),
                6 => if i < (n / 2).max(1) - ((s as usize) % ((n / 4).max(1))) { el(r | 8) } else { F::zero() },
                _ => if r % 4 == 0 { el(r | 8) } else { F::zero() },
            }
        }).collect()
    }
    pub fn is_plain_zero(&self) -> bool { self.kind == 3 }
}

pub fn vecspec_len(len: BoxedStrategy<usize>) -> BoxedStrategy<VecSpec> {
    (len, prop_oneof![6 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8), 2 => Just(6u8), 1 => Just(7u8)], any::<u64>())
        .prop_map(|(len, kind, seed)| VecSpec { len, kind, seed }).boxed()
}

pub fn pow2(lo: u32, hi: u32) -> BoxedStrategy<usize> {
    (lo..=hi).prop_map(|l| 1usize << l).boxed()
}

pub fn hex<F: PrimeField>(f: &F) -> String {
    let mut v = vec![];
    f.into_repr().write_be(&mut v).unwrap();
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
