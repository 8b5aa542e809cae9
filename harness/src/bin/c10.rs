use ff::{Field, PrimeField};
use hodor::polynomials::*;
use hodor::verif_hooks::*;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add { other: u64, kind: u8, seed: u64 }, AddScaled { other: u64, kind: u8, seed: u64, by: u64 }, Sub { other: u64, kind: u8, seed: u64 }, Mul { kind: u8, seed: u64 },
    Scale(u64), Negate, Distribute(u64), PadFactor(u64), PadTo(u64), Trim(u64), Evaluate(u64), Pow(u64), Square, AddConst(u64), BatchInv, Poke { at: u64, v: u64 },
    Fft, CosetFft, CloneCheck,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { len: usize, kind: u8, seed: u64, values: bool, ops: Vec<Op>, cpus: usize, field: u8 }

enum P<F: PrimeField> { C(Polynomial<F, Coefficients>), V(Polynomial<F, Values>) }

fn meta<F: PrimeField>(size: usize, exp: u32, omega: &F, omegainv: &F, geninv: &F, minv: &F) -> Result<(), String> {
    let g = gen_of::<F>(size);
    ensure!(1usize << exp == size, "exponent {} for size {}", exp, size);
    ensure!(*omega == g && mul(*omega, omegainv) == F::one(), "generator of the domain for size {}", size);
    ensure!(mul(*geninv, &F::multiplicative_generator()) == F::one(), "inverse of the multiplicative generator");
    ensure!(mul(*minv, &f_u64::<F>(size as u64)) == F::one(), "inverse of the size {}", size);
    Ok(())
}

fn same<F: PrimeField>(p: &P<F>, m: &[F], values: bool, what: &Op) -> Result<(), String> {
    let (v, size) = match p { P::C(p) => (p.as_ref(), p.size()), P::V(p) => (p.as_ref(), p.size()) };
    ensure!(matches!(p, P::V(_)) == values, "form");
    ensure!(size == m.len() && v.len() == m.len(), "size {} instead of {} after {:?}", size, m.len(), what);
    if let Some(i) = (0..m.len()).find(|i| v[*i] != m[*i]) { return Err(format!("wrong entry {} of {} after {:?}", i, m.len(), what)); }
    match p { P::C(p) => meta(size, p.exp, &p.omega, &p.omegainv, &p.geninv, &p.minv), P::V(p) => meta(size, p.exp, &p.omega, &p.omegainv, &p.geninv, &p.minv) }.map_err(|e| format!("{} after {:?}", e, what))
}

fn history<F: PrimeField>(c: &Case) -> Res {
    let w = worker_with_cpus(c.cpus);
    let cap = 1usize << F::S.min(if c.len >= 6000 { 18 } else if c.len > 512 { 13 } else { 9 });
    let len = c.len.min(cap).max(1);
    let init: Vec<F> = VecSpec { len, kind: c.kind, seed: c.seed }.expand();
    let mut m = init.clone();
    m.resize(len.next_power_of_two(), F::zero());
    let e = |e: hodor::SynthesisError| format!("{}", e);
    let mut p = if c.values { P::V(Polynomial::from_values(init).map_err(e)?) } else { P::C(Polynomial::from_coeffs(init).map_err(e)?) };
    let mut values = c.values;
    let mut o = Out::trivial();
    macro_rules! both { ($p:ident, $x:expr) => { match &mut p { P::C($p) => $x, P::V($p) => $x } } }
    for op in c.ops.iter() {
        let before = m.clone();
        let n = m.len();
        // a value form needs an operand of the same size, coefficients may be added to larger ones
        let other = |sel: u64, kind: u8, seed: u64| -> Vec<F> {
            let k = if values { n } else { 1usize << (sel % (log2(n) as u64 + 1)) };
            VecSpec { len: k, kind, seed }.expand()
        };
        let mut applied = true;
        match op {
            Op::Add { other: s, kind, seed } => {
                let b = other(*s, *kind, *seed);
                match &mut p { P::C(p) => p.add_assign(&w, &Polynomial::from_coeffs(b.clone()).map_err(e)?), P::V(p) => p.add_assign(&w, &Polynomial::from_values(b.clone()).map_err(e)?) }
                for (x, y) in m.iter_mut().zip(b.iter()) { x.add_assign(y); }
            }
            Op::AddScaled { other: s, kind, seed, by } => {
                let b = other(*s, *kind, *seed);
                let k: F = el(*by);
                match &mut p { P::C(p) => p.add_assign_scaled(&w, &Polynomial::from_coeffs(b.clone()).map_err(e)?, &k), P::V(p) => p.add_assign_scaled(&w, &Polynomial::from_values(b.clone()).map_err(e)?, &k) }
                for (x, y) in m.iter_mut().zip(b.iter()) { x.add_assign(&mul(*y, &k)); }
            }
            Op::Sub { other: s, kind, seed } => {
                let b = other(*s, *kind, *seed);
                match &mut p { P::C(p) => p.sub_assign(&w, &Polynomial::from_coeffs(b.clone()).map_err(e)?), P::V(p) => p.sub_assign(&w, &Polynomial::from_values(b.clone()).map_err(e)?) }
                for (x, y) in m.iter_mut().zip(b.iter()) { x.sub_assign(y); }
            }
            Op::Mul { kind, seed } => match &mut p {
                P::V(p) => {
                    let b = other(0, *kind, *seed);
                    p.mul_assign(&w, &Polynomial::from_values(b.clone()).map_err(e)?);
                    for (x, y) in m.iter_mut().zip(b.iter()) { x.mul_assign(y); }
                }
                _ => applied = false,
            },
            Op::Scale(s) => { let k: F = el(*s); both!(p, p.scale(&w, k)); for x in m.iter_mut() { x.mul_assign(&k); } }
            Op::Negate => { both!(p, p.negate(&w)); for x in m.iter_mut() { x.negate(); } }
            Op::Distribute(s) => { let k: F = el(*s); both!(p, p.distribute_powers(&w, k)); for (i, x) in m.iter_mut().enumerate() { x.mul_assign(&powu(&k, i as u64)); } }
            Op::PadFactor(f) => {
                let f = if f % 4 == 0 { (f / 4 % 9) as usize } else { 1usize << (f / 4 % 4) };
                if f.is_power_of_two() && n * f > cap { continue; }
                let r = both!(p, p.pad_by_factor(f));
                ensure!(r.is_ok() == f.is_power_of_two(), "padding {} entries by factor {}: {:?}", n, f, r.is_ok());
                if r.is_ok() { m.resize(n * f, F::zero()); } else { o.labels.push("bad factor refused".into()); }
            }
            Op::PadTo(s) => {
                let k = if s % 4 == 0 { (s / 4 % (2 * cap as u64)) as usize } else { n << (s / 4 % 4) };
                if k.is_power_of_two() && k > cap { continue; }
                let r = both!(p, p.pad_to_size(k));
                ensure!(r.is_ok() == (k.is_power_of_two() && k >= n), "padding {} entries to {}: {:?}", n, k, r.is_ok());
                if r.is_ok() { m.resize(k, F::zero()); } else { o.labels.push("bad size refused".into()); }
            }
            Op::Trim(d) => {
                let d = (*d % (n as u64 + 3)) as usize;
                let r = both!(p, p.trim_to_degree(d));
                ensure!(r.is_ok(), "trimming failed");
                for x in m.iter_mut().skip(d + 1) { *x = F::zero(); }
            }
            Op::Evaluate(x) => match &p {
                P::C(p) => { let x: F = el(*x); let v = p.evaluate_at(&w, x); ensure!(v == horner(&m, &x), "value at a point ({} coefficients, {} cpus)", n, c.cpus); }
                _ => applied = false,
            },
            Op::Pow(k) => match &mut p {
                P::V(p) => { let k = if k % 3 == 0 { k / 3 } else { k / 3 % 6 }; p.pow(&w, k); for x in m.iter_mut() { *x = powu(x, k); } }
                _ => applied = false,
            },
            Op::Square => match &mut p { P::V(p) => { p.square(&w); for x in m.iter_mut() { *x = mul(*x, &x.clone()); } } _ => applied = false },
            Op::AddConst(s) => match &mut p { P::V(p) => { let k: F = el(*s); p.add_constant(&w, &k); for x in m.iter_mut() { x.add_assign(&k); } } _ => applied = false },
            Op::BatchInv => match &mut p {
                P::V(p) => {
                    let r = p.batch_inversion(&w);
                    let zero = m.iter().any(|x| x.is_zero());
                    ensure!(r.is_ok() != zero, "inversion of {} values, zero among them: {}, succeeds: {}", n, zero, r.is_ok());
                    if !zero { for x in m.iter_mut() { *x = inv(*x); } }
                    o.labels.push(if zero { "inversion refused" } else { "inversion" }.into());
                }
                _ => applied = false,
            },
            Op::Poke { at, v } => { let i = *at as usize % n; let k: F = el(*v); both!(p, p.as_mut()[i] = k); m[i] = k; }
            Op::Fft | Op::CosetFft => {
                let coset = matches!(op, Op::CosetFft);
                let s = if coset { F::multiplicative_generator() } else { F::one() };
                p = match p {
                    P::C(p) => { m = eval_domain(&m, n, &s); values = true; P::V(if coset { p.coset_fft(&w) } else { p.fft(&w) }) }
                    P::V(p) => {
                        let si = inv(s);
                        m = interpolate_domain(&m).into_iter().enumerate().map(|(i, x)| mul(x, &powu(&si, i as u64))).collect();
                        values = false;
                        P::C(if coset { p.icoset_fft(&w) } else { p.ifft(&w) })
                    }
                };
            }
            Op::CloneCheck => {
                let (a, b) = match &p { P::C(p) => (p.clone().into_coeffs(), p.clone() == *p), P::V(p) => (p.clone().into_coeffs(), p.clone() == *p) };
                ensure!(a == m && b, "clone differs");
            }
        }
        if !applied { continue; }
        same(&p, &m, values, op)?;
        if m != before { o.nontrivial = true; }
        o.labels.push(format!("{:?}", op).split(|x: char| !x.is_alphanumeric()).next().unwrap().to_string());
    }
    Ok(o)
}

// ---- batch inversion alone, with zeroes at single places
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inv { len: usize, seed: u64, kind: u8, zeroes: Vec<u64>, cpus: usize, field: u8 }

fn inversion<F: PrimeField>(c: &Inv) -> Res {
    let w = worker_with_cpus(c.cpus);
    let n = c.len.next_power_of_two().min(1 << F::S.min(20));
    let mut v: Vec<F> = VecSpec { len: n, kind: c.kind, seed: c.seed }.expand();
    for x in v.iter_mut() { if x.is_zero() { *x = F::one(); } }
    for z in c.zeroes.iter() { v[*z as usize % n] = F::zero(); }
    let mut p = Polynomial::from_values(v.clone()).map_err(|e| format!("{}", e))?;
    let r = guarded(|| Ok(p.batch_inversion(&w).is_ok()))?;
    if c.zeroes.is_empty() {
        ensure!(r, "inversion of non-zero values failed");
        for i in 0..n { ensure!(mul(p.as_ref()[i], &v[i]) == F::one(), "entry {} of {} is not the inverse ({} cpus)", i, n, c.cpus); }
    } else {
        ensure!(!r, "inversion of a zero succeeded");
        ensure!(p.as_ref() == &v[..], "values were changed by the failed inversion");
    }
    Ok(Out::when(n > 1).lif(!r, "refused"))
}

// ---- construction from roots
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Roots { n: usize, kind: u8, seed: u64, cpus: usize, field: u8 }

fn roots<F: PrimeField>(c: &Roots) -> Res {
    let n = c.n.max(1).min((1usize << F::S.min(9)) - 1);
    let r: Vec<F> = VecSpec { len: n, kind: c.kind, seed: c.seed }.expand();
    let w = worker_with_cpus(c.cpus);
    let p = guarded(|| Polynomial::<F, Coefficients>::from_roots(r.clone(), &w).map_err(|e| format!("{}", e)))?;
    let linear = |v: &[F]| v.iter().fold(vec![F::one()], |acc, x| poly_mul(&acc, &[neg(*x), F::one()]));
    let size = (n + 1).next_power_of_two();
    let mut want = linear(&r);
    want.resize(size, F::zero());
    meta(p.size(), p.exp, &p.omega, &p.omegainv, &p.geninv, &p.minv)?;
    ensure!(p.size() == size, "size {} for {} roots", p.size(), n);
    let chunk = if n < c.cpus { 1 } else { n / c.cpus };
    let factors: Vec<usize> = r.chunks(chunk).map(|x| size / (x.len() + 1).next_power_of_two()).collect();
    let region = c.cpus > 1 && factors.iter().any(|f| f / c.cpus > 1);
    if p.as_ref() != &want[..] {
        let d = format!("from_roots of {} roots on {} cpus: not the product of linear factors", n, c.cpus);
        if region {
            let mut v = vec![F::one(); size];
            for (x, f) in r.chunks(chunk).zip(factors.iter()) {
                let mut k = linear(x);
                k.resize(size / f, F::zero());
                let l = if f / c.cpus > 1 { known_wrong(&k, *f, c.cpus, &F::one()) } else { eval_domain(&k, size, &F::one()) };
                for (a, b) in v.iter_mut().zip(l.iter()) { a.mul_assign(b); }
            }
            if interpolate_domain(&v) == p.as_ref() { return Ok(Out { nontrivial: n > 1, labels: vec!["known wrong".into()], known: Some(("KF1".into(), d)) }); }
        }
        return Err(d);
    }
    for x in r.iter() { ensure!(p.evaluate_at(&w, *x).is_zero(), "does not vanish at a root"); }
    Ok(Out::when(n > 1).lif(c.cpus > 1, "several cpus").lif(c.cpus > n, "more cpus than roots"))
}

// ---- degree one over a domain, constructors
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lin { a: u64, b: u64, size: usize, coset: bool, cpus: usize, field: u8 }

fn linear<F: PrimeField>(c: &Lin) -> Res {
    let w = worker_with_cpus(c.cpus);
    let (a, b): (F, F) = (el(c.a), el(c.b));
    let max = 1usize << F::S.min(12);
    let size = c.size.min(max).max(1);
    let p = Polynomial::<F, Coefficients>::from_coeffs(vec![b, a]).map_err(|e| format!("{}", e))?;
    let v = guarded(|| if c.coset { p.coset_evaluate_at_domain_for_degree_one(&w, size as u64) } else { p.evaluate_at_domain_for_degree_one(&w, size as u64) }.map_err(|e| format!("{}", e)))?;
    let n = size.next_power_of_two();
    ensure!(v.size() == n, "size {} for a domain of {}", v.size(), size);
    meta(n, v.exp, &v.omega, &v.omegainv, &v.geninv, &v.minv)?;
    let mut x = if c.coset { F::multiplicative_generator() } else { F::one() };
    let g = gen_of::<F>(n);
    for i in 0..n { ensure!(v.as_ref()[i] == add(mul(a, &x), &b), "value at {} of {} ({} cpus)", i, n, c.cpus); x.mul_assign(&g); }
    // constructors of a given size
    let z = Polynomial::<F, Coefficients>::new_for_size(size).map_err(|e| format!("{}", e))?;
    let y = Polynomial::<F, Values>::new_for_size(size).map_err(|e| format!("{}", e))?;
    ensure!(z.size() == n && y.size() == n && z.as_ref().iter().chain(y.as_ref()).all(|x| x.is_zero()), "new_for_size({})", size);
    meta(n, z.exp, &z.omega, &z.omegainv, &z.geninv, &z.minv)?;
    meta(n, y.exp, &y.omega, &y.omegainv, &y.geninv, &y.minv)?;
    if F::S < 20 { ensure!(Polynomial::<F, Values>::from_values(vec![F::zero(); (1 << F::S) + 1]).is_err(), "more values than there can be in a domain"); }
    Ok(Out::when(n > 1 && !a.is_zero()).lif(c.coset, "coset"))
}

fn op() -> BoxedStrategy<Op> {
    let s = any::<u64>;
    let k = || 0u8..8;
    prop_oneof![
        3 => (s(), k(), s()).prop_map(|(other, kind, seed)| Op::Add { other, kind, seed }),
        3 => (s(), k(), s(), eseed()).prop_map(|(other, kind, seed, by)| Op::AddScaled { other, kind, seed, by }),
        3 => (s(), k(), s()).prop_map(|(other, kind, seed)| Op::Sub { other, kind, seed }),
        3 => (k(), s()).prop_map(|(kind, seed)| Op::Mul { kind, seed }),
        2 => eseed().prop_map(Op::Scale), 2 => Just(Op::Negate), 2 => eseed_nz().prop_map(Op::Distribute),
        2 => s().prop_map(Op::PadFactor), 2 => s().prop_map(Op::PadTo), 2 => s().prop_map(Op::Trim), 4 => eseed().prop_map(Op::Evaluate),
        3 => s().prop_map(Op::Pow), 1 => Just(Op::Square), 2 => eseed().prop_map(Op::AddConst), 3 => Just(Op::BatchInv),
        1 => (s(), eseed()).prop_map(|(at, v)| Op::Poke { at, v }), 2 => Just(Op::Fft), 2 => Just(Op::CosetFft), 1 => Just(Op::CloneCheck),
    ].boxed()
}

fn main() {
    let c = Ctx::new("C10", "operations changed the polynomial; for inversion, linear polynomials and roots: more than one entry");
    let cpus = || prop_oneof![2 => Just(1usize), 3 => 2usize..=9];
    c.sub("histories of operations", c.n(7000, 800000), move || (1usize..130, vecspec_len(Just(0usize).boxed()), any::<bool>(), vec(op(), 1..16), cpus(), any::<u8>())
        .prop_map(|(len, v, values, ops, cpus, field)| Case { len, kind: v.kind, seed: v.seed, values, ops, cpus, field }).boxed(), |x| by_field!(x.field, history, x; Gold, F252, F257, F255, F17, Baby, F128));
    c.sub("long histories", c.n(150, 16000), move || (513usize..6000, vecspec_len(Just(0usize).boxed()), any::<bool>(), vec(op(), 1..8), cpus(), any::<u8>())
        .prop_map(|(len, v, values, ops, cpus, field)| Case { len, kind: v.kind, seed: v.seed, values, ops, cpus, field }).boxed(), |x| by_field!(x.field, history, x; Gold, F252, F255, F17, F128));
    c.sub("batch inversion", c.n(10000, 800000), move || (prop_oneof![40 => 1usize..200, 1 => 200usize..6000], any::<u64>(), 0u8..8, prop_oneof![2 => Just(vec![]), 1 => vec(any::<u64>(), 1..3)], 1usize..=17, any::<u8>())
        .prop_map(|(len, seed, kind, zeroes, cpus, field)| Inv { len, seed, kind, zeroes, cpus, field }).boxed(), |x| by_field!(x.field, inversion, x; Gold, F252, F257, F255));
    c.sub("roots", c.n(4000, 400000), move || (prop_oneof![4 => 1usize..24, 1 => 24usize..140], vecspec_len(Just(0usize).boxed()), 1usize..=9, any::<u8>())
        .prop_map(|(n, v, cpus, field)| Roots { n, kind: v.kind, seed: v.seed, cpus, field }).boxed(), |x| by_field!(x.field, roots, x; Gold, F252, F257, F255));
    c.sub("large batch inversion", c.n(30, 1500), move || (6000usize..300000, any::<u64>(), 0u8..8, prop_oneof![2 => Just(vec![]), 1 => vec(any::<u64>(), 1..3)], 1usize..=17, any::<u8>())
        .prop_map(|(len, seed, kind, zeroes, cpus, field)| Inv { len, seed, kind, zeroes, cpus, field }).boxed(), |x| by_field!(x.field, inversion, x; Gold, F252));
    c.sub("huge polynomials", c.n(16, 1200), move || (6000usize..140000, vecspec_len(Just(0usize).boxed()), any::<bool>(), vec(op(), 1..6), cpus(), any::<u8>())
        .prop_map(|(len, v, values, ops, cpus, field)| Case { len, kind: v.kind, seed: v.seed, values, ops, cpus, field }).boxed(), |x| by_field!(x.field, history, x; Gold, F252));
    c.one("known finding KF1", || roots::<Gold>(&Roots { n: 5, kind: 0, seed: 3, cpus: 2, field: 0 }));
    c.sub("degree one over domains", c.n(7500, 600000), move || (eseed(), eseed(), prop_oneof![3 => 1usize..70, 1 => 1usize..3000], any::<bool>(), 1usize..=17, any::<u8>())
        .prop_map(|(a, b, size, coset, cpus, field)| Lin { a, b, size, coset, cpus, field }).boxed(), |x| by_field!(x.field, linear, x; Gold, F252, F257, F255));
    c.finish();
}
