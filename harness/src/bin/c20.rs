use ff::{Field, PrimeField};
use hodor::utils::poly::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Interp { n: usize, xs: u8, xseed: u64, ys: u8, yseed: u64, pos: u64, field: u8 }

fn interp<F: PrimeField>(c: &Interp) -> Res {
    let n = c.n.max(2);
    let mut xs: Vec<F> = vec![];
    for i in 0..(4 * n + 40) as u64 {
        let x: F = match c.xs % 5 { 0 => el(mix(c.xseed ^ mix(i)) | 8), 1 => f_u64(i), 2 => powu(&F::multiplicative_generator(), i), 3 => el(i % 9 + if i >= 9 { mix(i + c.xseed) } else { 0 }), _ => neg(f_u64(i + c.xseed % 3)) };
        if !xs.contains(&x) && xs.len() < n { xs.push(x); }
    }
    if xs.len() < 2 { return Ok(Out::trivial()); }
    let n = xs.len();
    // zero at any place
    if c.pos % 3 == 0 { if let Some(k) = xs.iter().position(|x| x.is_zero()) { xs.swap(k, c.pos as usize / 3 % n); } else { xs[c.pos as usize / 3 % n] = F::zero(); } }
    let ys: Vec<F> = VecSpec { len: n, kind: c.ys, seed: c.yseed }.expand();
    let pts: Vec<(F, F)> = xs.iter().cloned().zip(ys.iter().cloned()).collect();
    let p = guarded(|| interpolate(&pts).ok_or("no interpolation".to_string()))?;
    ensure!(degree_plus_one(&p) <= n, "degree {} through {} points", degree_plus_one(&p), n);
    ensure!(p.len() == n, "{} coefficients for {} points", p.len(), n);
    for (k, (x, y)) in pts.iter().enumerate() { ensure!(horner(&p, x) == *y, "the polynomial does not pass through point {} of {}", k, n); }
    // order of points does not matter
    let mut rev = pts.clone();
    rev.reverse();
    rev.rotate_left(c.pos as usize % n);
    ensure!(guarded(|| interpolate(&rev).ok_or("no interpolation".to_string()))? == p, "order of points matters");
    Ok(Out::when(ys.iter().any(|y| !y.is_zero())).lif(n == 2, "two points").lif(n > 16, "more than 16 points").lif(xs.contains(&F::zero()), "zero among the abscissae"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slice { len: usize, a: (u8, u64), b: (u8, u64), first: u64, base: u64, cpus: usize, field: u8 }

fn slices<F: PrimeField>(c: &Slice) -> Res {
    let a: Vec<F> = VecSpec { len: c.len, kind: c.a.0, seed: c.a.1 }.expand();
    let b: Vec<F> = VecSpec { len: c.len, kind: c.b.0, seed: c.b.1 }.expand();
    let (first, base) = (el::<F>(c.first), el::<F>(c.base));
    with_cpus(c.cpus, || {
        let got = guarded(|| Ok(evaluate_at_consequitive_powers(&a, first, base)))?;
        ensure!(got == mul(horner(&a, &base), &first), "evaluation of {} coefficients at consecutive powers (cpus {})", c.len, c.cpus);
        let mut v = a.clone();
        guarded(|| Ok(mul_polynomial_by_scalar(&mut v, base)))?;
        if let Some(i) = (0..c.len).find(|i| v[*i] != mul(a[*i], &base)) { return Err(format!("scaling: element {} of {} (cpus {})", i, c.len, c.cpus)); }
        let mut v = a.clone();
        guarded(|| Ok(mul_add_polynomials(&mut v, &b, first)))?;
        if let Some(i) = (0..c.len).find(|i| v[*i] != add(a[*i], &mul(b[*i], &first))) { return Err(format!("scaled addition: element {} of {} (cpus {})", i, c.len, c.cpus)); }
        Ok(Out::when(c.len > 1 && a.iter().any(|x| !x.is_zero())).lif(c.cpus > 1, "several cpus").lif(c.len == 0, "empty").lif(c.len < c.cpus, "more cpus than elements").lif(base.is_zero(), "base zero").lif(base == F::one(), "base one"))
    })
}

fn main() {
    let c = Ctx::new("C20", "values not all zero");
    c.sub("interpolation", c.n(120000, 10000000), || (prop_oneof![300 => 2usize..10, 50 => 10usize..40, 1 => 40usize..110], any::<u8>(), any::<u64>(), 0u8..VEC_KINDS, any::<u64>(), any::<u64>(), any::<u8>()).prop_map(|(n, xs, xseed, ys, yseed, pos, field)| Interp { n, xs, xseed, ys, yseed, pos, field }).boxed(),
        |x| by_field!(x.field, interp, x; Gold, F252, F257, F255, F17, Baby, F128, F193));
    c.sub("slices", c.n(60000, 5000000), || (prop_oneof![32 => 0usize..24, 8 => 24usize..300, 1 => 300usize..6000], (0u8..VEC_KINDS, any::<u64>()), (0u8..VEC_KINDS, any::<u64>()), eseed(), eseed(), prop_oneof![1 => Just(1usize), 1 => 2usize..=8], any::<u8>())
        .prop_map(|(len, a, b, first, base, cpus, field)| Slice { len, a, b, first, base, cpus, field }).boxed(), |x| by_field!(x.field, slices, x; Gold, F252, F257, F255, F17, Baby, F128, F193));
    c.sub("large slices", c.n(80, 4000), || (6000usize..600000, (0u8..VEC_KINDS, any::<u64>()), (0u8..VEC_KINDS, any::<u64>()), eseed(), eseed(), prop_oneof![1 => Just(1usize), 1 => 2usize..=8], any::<u8>())
        .prop_map(|(len, a, b, first, base, cpus, field)| Slice { len, a, b, first, base, cpus, field }).boxed(), |x| by_field!(x.field, slices, x; Gold, F252, F257, F255));
    c.finish();
}
