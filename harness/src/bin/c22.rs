use ff::{Field, LegendreSymbol, PrimeField, SqrtField};
use hodor::verif_hooks::experiments::{Fq2, Fr};
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

// the field is F_q[u] / (u^2 - 3)
type E = (Fr, Fr);
fn beta() -> Fr { f_u64(3) }
fn rmul(a: &E, b: &E) -> E { (add(mul(a.0, &b.0), &mul(mul(a.1, &b.1), &beta())), add(mul(a.0, &b.1), &mul(a.1, &b.0))) }
fn rpow(a: &E, e: &[u64]) -> E {
    let mut r = (Fr::one(), Fr::zero());
    for limb in e.iter().rev() { for i in (0..64).rev() { r = rmul(&r, &r); if limb >> i & 1 == 1 { r = rmul(&r, a); } } }
    r
}
fn fpow(a: &Fr, e: &[u64]) -> Fr {
    let mut r = Fr::one();
    for limb in e.iter().rev() { for i in (0..64).rev() { r = mul(r, &r); if limb >> i & 1 == 1 { r = mul(r, a); } } }
    r
}
fn rnorm(a: &E) -> Fr { sub(mul(a.0, &a.0), &mul(mul(a.1, &a.1), &beta())) }
fn of(a: &E) -> Fq2 { Fq2 { c0: a.0, c1: a.1 } }
fn back(a: &Fq2) -> E { (a.c0, a.c1) }
fn shr(mut v: Vec<u64>, k: u32) -> Vec<u64> { for i in 0..v.len() { v[i] = v[i] >> k | if i + 1 < v.len() { v[i + 1] << (64 - k) } else { 0 }; } v }
fn q() -> Vec<u64> { Fr::char().as_ref().to_vec() }
fn q_minus_one(k: u32) -> Vec<u64> { let mut v = q(); v[0] -= 1; shr(v, k) }

#[derive(Clone, Debug, Serialize, Deserialize)]
enum El { Any(u64, u64), Base(u64), Imag(u64), Same(u64), Opp(u64), Square(u64, u64), Fourth(u64, u64), NonSquare(u64, u64), Power(u64, u64, u32) }

fn value(e: &El) -> E {
    let z = Fr::zero();
    match e {
        El::Any(a, b) => (el(*a), el(*b)),
        El::Base(a) => (el(*a), z), El::Imag(a) => (z, el(*a)),
        El::Same(a) => (el(*a), el(*a)), El::Opp(a) => (el(*a), neg(el(*a))),
        El::Square(a, b) => { let x = (el(*a), el(*b)); rmul(&x, &x) }
        El::Fourth(a, b) => { let x = (el(*a), el(*b)); let y = rmul(&x, &x); rmul(&y, &y) }
        El::NonSquare(a, b) => {
            // times the first non-square 1 + k u found
            let x = (el::<Fr>(*a), el::<Fr>(*b));
            let x = rmul(&x, &x);
            let mut k = 1u64;
            loop { let n = (Fr::one(), f_u64(k)); let s = fpow(&rnorm(&n), &q_minus_one(1)); if s != Fr::one() && !s.is_zero() { return rmul(&x, &n); } k += 1; }
        }
        // elements of two-power order and their products: the interesting ones of root extraction
        El::Power(a, b, k) => { let x = (el(*a), el(*b)); rpow(&x, &shr({ let mut v = q(); v[0] -= 1; v }, *k % 193)) }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Add(El), Sub(El), Mul(El), Square, Double, Neg, Inv, By0(u64), By1(u64), Pow(Vec<u64>), Frob, Own }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { start: El, ops: Vec<Op> }

fn history(c: &Case) -> Res {
    let mut w = value(&c.start);
    let mut x = of(&w);
    let mut kinds = std::collections::HashSet::new();
    for (i, o) in c.ops.iter().enumerate() {
        kinds.insert(std::mem::discriminant(o));
        let was = w;
        guarded(|| {
            match o {
                Op::Add(e) => { let e = value(e); x.add_assign(&of(&e)); w = (add(w.0, &e.0), add(w.1, &e.1)); }
                Op::Sub(e) => { let e = value(e); x.sub_assign(&of(&e)); w = (sub(w.0, &e.0), sub(w.1, &e.1)); }
                Op::Mul(e) => { let e = value(e); x.mul_assign(&of(&e)); w = rmul(&w, &e); }
                Op::Square => { x.square(); w = rmul(&w, &w); }
                Op::Double => { x.double(); w = (add(w.0, &w.0), add(w.1, &w.1)); }
                Op::Neg => { x.negate(); w = (neg(w.0), neg(w.1)); }
                Op::Inv => {
                    let r = x.inverse();
                    ensure!(r.is_some() != (w.0.is_zero() && w.1.is_zero()), "inverse given for zero, or not given for another element");
                    if let Some(r) = r {
                        ensure!(rmul(&back(&r), &w) == (Fr::one(), Fr::zero()), "element times its inverse is not one");
                        x = r; w = back(&r);
                    }
                }
                Op::By0(a) => { let a: Fr = el(*a); x.mul_by_0(&a); w = (mul(w.0, &a), mul(w.1, &a)); }
                Op::By1(a) => { let a: Fr = el(*a); x.mul_by_1(&a); w = rmul(&w, &(Fr::zero(), a)); }
                Op::Pow(e) => { x = x.pow(e); w = rpow(&w, e); }
                Op::Frob => { x = x.pow(Fr::char()); w = (w.0, neg(w.1)); }
                Op::Own => { let y = x; x.mul_assign(&y); x.add_assign(&y); x.sub_assign(&y); w = rmul(&w, &w); }
            }
            Ok(())
        })?;
        ensure!(back(&x) == w, "operation {} ({:?}): got {} for ({}, {})", i, o, x, hex(&was.0), hex(&was.1));
        ensure!(x.is_zero() == (w.0.is_zero() && w.1.is_zero()), "zero test");
        ensure!(x.norm() == rnorm(&w), "norm of ({}, {})", hex(&w.0), hex(&w.1));
        let conj = rmul(&w, &(w.0, neg(w.1)));
        ensure!(conj == (x.norm(), Fr::zero()), "norm is not the product with the conjugate");
        ensure!((x == of(&was)) == (w == was), "equality");
        let want = w.1.into_repr().cmp(&was.1.into_repr()).then(w.0.into_repr().cmp(&was.0.into_repr()));
        ensure!(x.cmp(&of(&was)) == want && x.partial_cmp(&of(&was)) == Some(want), "order");
        ensure!((want == Ordering::Equal) == (w == was), "order against equality");
    }
    Ok(Out::when(kinds.len() >= 3 && !(w.0.is_zero() || w.1.is_zero())))
}

fn root(c: &El) -> Res {
    let w = value(c);
    let x = of(&w);
    let n = rnorm(&w);
    let zero = w.0.is_zero() && w.1.is_zero();
    let s = fpow(&n, &q_minus_one(1));
    let square = s == Fr::one();
    ensure!(zero || square || s == neg(Fr::one()), "oracle: character of ({}, {})", hex(&w.0), hex(&w.1));
    let l = guarded(|| Ok(x.legendre()))?;
    let want = if zero { LegendreSymbol::Zero } else if square { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue };
    ensure!(l == want, "character of ({}, {}): {:?} for {:?}", hex(&w.0), hex(&w.1), l, want);
    let r = guarded(|| Ok(x.sqrt()))?;
    match r {
        Some(r) => {
            let r = back(&r);
            ensure!(zero || square, "a root is given for the non-square ({}, {})", hex(&w.0), hex(&w.1));
            ensure!(rmul(&r, &r) == w, "the root given for ({}, {}) does not square to it", hex(&w.0), hex(&w.1));
        }
        None => ensure!(!zero && !square, "no root is given for the square ({}, {})", hex(&w.0), hex(&w.1)),
    }
    // a square made by the library has a root as well, one of the two
    let mut y = x;
    y.square();
    let r = guarded(|| Ok(y.sqrt()))?.ok_or("no root of a square")?;
    let mut m = x;
    m.negate();
    ensure!(r == x || r == m, "the root of the square of ({}, {})", hex(&w.0), hex(&w.1));
    let quartic = fpow(&n, &q_minus_one(2)) == Fr::one();
    Ok(Out::when(!zero).lif(square && quartic, "square, norm a fourth power").lif(square && !quartic, "square, norm not a fourth power").lif(!square && !zero, "not a square").lif(w.1.is_zero(), "of the base field").lif(w.0.is_zero(), "purely imaginary"))
}

fn els() -> BoxedStrategy<El> {
    let s = eseed;
    prop_oneof![4 => (s(), s()).prop_map(|(a, b)| El::Any(a, b)), 1 => s().prop_map(El::Base), 1 => s().prop_map(El::Imag), 1 => s().prop_map(El::Same), 1 => s().prop_map(El::Opp),
        1 => (s(), s()).prop_map(|(a, b)| El::Square(a, b)), 1 => (s(), s()).prop_map(|(a, b)| El::Fourth(a, b)), 1 => (s(), s()).prop_map(|(a, b)| El::NonSquare(a, b))].boxed()
}

fn main() {
    let mut c = Ctx::new("C22", "histories: at least three kinds of operations ending in an element with both parts non-zero; roots: element not zero");
    c.assume("frobenius_map is not implemented by the library (it panics) and is not called; conjugation is the power of the characteristic");
    c.sub("histories", c.n(500000, 20000000), || {
        let e = || prop_oneof![1 => Just(vec![0u64]), 1 => Just(vec![1u64]), 2 => (0u64..40).prop_map(|x| vec![x]), 2 => any::<u64>().prop_map(|x| vec![x]), 1 => vec(any::<u64>(), 0..5)];
        let op = prop_oneof![2 => els().prop_map(Op::Add), 2 => els().prop_map(Op::Sub), 4 => els().prop_map(Op::Mul), 2 => Just(Op::Square), 1 => Just(Op::Double), 1 => Just(Op::Neg), 2 => Just(Op::Inv),
            1 => eseed().prop_map(Op::By0), 1 => eseed().prop_map(Op::By1), 1 => e().prop_map(Op::Pow), 1 => Just(Op::Frob), 1 => Just(Op::Own)];
        (els(), vec(op, 1..16)).prop_map(|(start, ops)| Case { start, ops }).boxed()
    }, history);
    c.sub("roots", c.n(150000, 8000000), || prop_oneof![6 => els(), 1 => (eseed(), eseed(), any::<u32>()).prop_map(|(a, b, k)| El::Power(a, b, k))].boxed(), root);
    c.finish();
}
