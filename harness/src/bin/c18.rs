use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::arp::*;
use hv::air::*;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Uni { reg: usize },
    Copy { u: u64 },
    Step { u: u64, steps: usize },
    Pow { u: u64, power: u64, replace: bool },
    UniScalar { u: u64, by: u64, r: bool },
    Poly { u: u64, coeff: u64 },
    PolyDefault,
    PolyUni { p: u64, u: u64 },
    PolyPoly { p: u64, q: u64 },
    PolyScalar { p: u64, by: u64, r: bool },
    AddUni { u: u64 }, SubUni { u: u64 }, AddPoly { p: u64 }, SubPoly { p: u64 }, AddConst { e: u64 }, SubConst { e: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ops: Vec<Op>, traces: u64, field: u8 }

/// the expression: coefficient and powers of cells
#[derive(Clone)]
struct E<F: PrimeField> { c: F, f: Vec<(usize, usize, u64)> }

impl<F: PrimeField> E<F> {
    fn degree(&self) -> u64 { self.f.iter().map(|x| x.2).sum() }
    fn eval(&self, t: &[Vec<F>], row: usize) -> F { let mut v = self.c; for (r, s, p) in self.f.iter() { v.mul_assign(&powu(&t[*r][row + s], *p)); } v }
}

const REGS: usize = 4;
const STEPS: usize = 5;
const LIMIT: u64 = 60;

fn run<F: PrimeField>(c: &Case) -> Res {
    let mut us: Vec<(UnivariateTerm<F>, E<F>)> = vec![];
    let mut ps: Vec<(PolyvariateTerm<F>, E<F>)> = vec![];
    let mut k = Constraint::<F>::default();
    let mut e: Vec<E<F>> = vec![];
    let mut konst = F::zero();
    ensure!(k.degree == 0 && k.terms.is_empty() && k.constant_term.is_zero(), "empty constraint");
    ensure!(dense_of(&k) == (0, 1), "default range");
    let (mut adds, mut products) = (0, 0);
    guarded(|| {
        for o in c.ops.iter() {
            macro_rules! pick { ($v:ident, $i:expr) => { if $v.is_empty() { continue } else { *$i as usize % $v.len() } } }
            match o {
                Op::Uni { reg } => us.push((UnivariateTerm::from(Register::Register(reg % REGS)), E { c: F::one(), f: vec![(reg % REGS, 0, 1)] })),
                Op::Copy { u } => { let i = pick!(us, u); let x = us[i].clone(); us.push(x); }
                Op::Step { u, steps } => { let i = pick!(us, u); us[i].0.set_step_difference(steps % STEPS); us[i].1.f[0].1 = steps % STEPS; }
                Op::Pow { u, power, replace } => {
                    let i = pick!(us, u);
                    let p = 1 + power % 5;
                    if us[i].1.f[0].2 * p > 16 { continue; }
                    let n = us[i].0.pow(p);
                    let mut x = us[i].1.clone();
                    x.c = powu(&x.c, p);
                    x.f[0].2 *= p;
                    if *replace { us[i] = (n, x) } else { us.push((n, x)) }
                }
                Op::UniScalar { u, by, r } => { let i = pick!(us, u); let s = el::<F>(*by); if *r { us[i].0 *= &s } else { us[i].0 *= s }; us[i].1.c.mul_assign(&s); }
                Op::Poly { u, coeff } => { let i = pick!(us, u); let s = el::<F>(*coeff); let mut x = us[i].1.clone(); x.c.mul_assign(&s); ps.push((PolyvariateTerm::from((s, us[i].0)), x)); }
                Op::PolyDefault => ps.push((PolyvariateTerm::default(), E { c: F::one(), f: vec![] })),
                Op::PolyUni { p, u } => { let (i, j) = (pick!(ps, p), pick!(us, u)); if ps[i].1.degree() + us[j].1.degree() > LIMIT { continue; } ps[i].0 *= us[j].0; let x = us[j].1.clone(); ps[i].1.c.mul_assign(&x.c); ps[i].1.f.extend(x.f); products += 1; }
                Op::PolyPoly { p, q } => { let (i, j) = (pick!(ps, p), pick!(ps, q)); if ps[i].1.degree() + ps[j].1.degree() > LIMIT { continue; } let y = ps[j].clone(); ps[i].0 *= y.0; ps[i].1.c.mul_assign(&y.1.c); ps[i].1.f.extend(y.1.f); products += 1; }
                Op::PolyScalar { p, by, r } => { let i = pick!(ps, p); let s = el::<F>(*by); if *r { ps[i].0 *= &s } else { ps[i].0 *= s }; ps[i].1.c.mul_assign(&s); }
                Op::AddUni { u } => { let i = pick!(us, u); k += us[i].0; e.push(us[i].1.clone()); adds += 1; }
                Op::SubUni { u } => { let i = pick!(us, u); k -= us[i].0; let mut x = us[i].1.clone(); x.c.negate(); e.push(x); adds += 1; }
                Op::AddPoly { p } => { let i = pick!(ps, p); k += ps[i].0.clone(); e.push(ps[i].1.clone()); adds += 1; }
                Op::SubPoly { p } => { let i = pick!(ps, p); k -= ps[i].0.clone(); let mut x = ps[i].1.clone(); x.c.negate(); e.push(x); adds += 1; }
                Op::AddConst { e } => { let s = el::<F>(*e); k += &s; konst.add_assign(&s); }
                Op::SubConst { e } => { let s = el::<F>(*e); k -= &s; konst.sub_assign(&s); }
            }
        }
        Ok(())
    })?;
    // degrees
    for (u, x) in us.iter() { ensure!(u.power == x.degree(), "power {} of a term of degree {}", u.power, x.degree()); }
    for (p, x) in ps.iter() { ensure!(p.total_degree == x.degree(), "degree {} of a product of degree {}", p.total_degree, x.degree()); }
    let d = e.iter().map(|x| x.degree()).max().unwrap_or(0);
    ensure!(k.degree == d, "degree {} of a constraint with terms of degree up to {}", k.degree, d);
    ensure!(dense_of(&k) == (0, 1), "the range has changed");
    // value on traces, by fields and by the checker
    let worker = hodor::verif_hooks::worker_with_cpus(1);
    for q in 0..3u64 {
        let t: Vec<Vec<F>> = (0..REGS).map(|r| (0..STEPS).map(|s| { let h = mix(c.traces ^ mix(q * 1000 + (r * 50 + s) as u64)); if q == 2 { el(h % 7) } else { el(h | 8) } }).collect()).collect();
        let mut want = konst;
        for x in e.iter() { want.add_assign(&x.eval(&t, 0)); }
        ensure!(eval_constraint(&k, &t, 0) == Some(want), "value of the constraint differs from that of the expression");
        let mut z = k.clone();
        z -= &want;
        z.density = ConstraintDensity::Dense(DenseConstraint::new(0, STEPS - 1));
        for off in 0..2u64 {
            if off == 1 { z += &el_nonzero::<F>(c.traces); }
            let p = InstanceProperties { num_rows: STEPS, num_registers: REGS, constraints: vec![z.clone()], boundary_constraints: vec![] };
            let r = guarded(|| Ok(ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &t, &worker).is_ok()))?;
            ensure!(r == (off == 0), "the checker {} a trace with the constraint {} zero", if r { "takes" } else { "refuses" }, if off == 0 { "being" } else { "not being" });
        }
    }
    Ok(Out::when(adds >= 2 && products >= 1).lif(d > 4, "degree above four").lif(e.len() > 3, "more than three terms"))
}

fn main() {
    let mut c = Ctx::new("C18", "at least two terms were added and at least one product formed");
    c.assume("powers do not overflow 64 bits (refused by the library)");
    c.sub("operations", c.n(600000, 32000000), || {
        let s = any::<u64>;
        let op = prop_oneof![
            4 => any::<usize>().prop_map(|reg| Op::Uni { reg }), 1 => s().prop_map(|u| Op::Copy { u }), 3 => (s(), any::<usize>()).prop_map(|(u, steps)| Op::Step { u, steps }),
            3 => (s(), s(), any::<bool>()).prop_map(|(u, power, replace)| Op::Pow { u, power, replace }), 2 => (s(), eseed(), any::<bool>()).prop_map(|(u, by, r)| Op::UniScalar { u, by, r }),
            3 => (s(), eseed()).prop_map(|(u, coeff)| Op::Poly { u, coeff }), 1 => Just(Op::PolyDefault), 3 => (s(), s()).prop_map(|(p, u)| Op::PolyUni { p, u }), 2 => (s(), s()).prop_map(|(p, q)| Op::PolyPoly { p, q }),
            2 => (s(), eseed(), any::<bool>()).prop_map(|(p, by, r)| Op::PolyScalar { p, by, r }),
            2 => s().prop_map(|u| Op::AddUni { u }), 2 => s().prop_map(|u| Op::SubUni { u }), 2 => s().prop_map(|p| Op::AddPoly { p }), 2 => s().prop_map(|p| Op::SubPoly { p }),
            1 => eseed().prop_map(|e| Op::AddConst { e }), 1 => eseed().prop_map(|e| Op::SubConst { e }),
        ].boxed();
        (prop_oneof![1 => vec(op.clone(), 1..12), 3 => vec(op, 12..50)], s(), any::<u8>()).prop_map(|(ops, traces, field)| Case { ops, traces, field }).boxed()
    }, |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, F128));
    c.finish();
}
