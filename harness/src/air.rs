//! Random instances with a planted satisfying trace, and the reference meaning of constraints.
use crate::el::*;
use crate::refmath::*;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::InstanceProperties;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Factor { pub reg: usize, pub step: usize, pub power: u64, pub coeff: u64 }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Term { pub coeff: u64, pub uni: bool, pub factors: Vec<Factor> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Role {
    /// cells are arbitrary and unconstrained (except by the boundary)
    Free,
    /// c * (R^(a+1) - R^1) = 0 with cells 0 or 1
    Bool { coeff: u64, power: u64, step: usize, start: usize, span: usize },
    /// lead_coeff * R(t + lead) + terms + constant = 0
    Rec { lead: usize, lead_coeff: u64, lead_poly: bool, terms: Vec<Term>, constant: u64, start: usize, span: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InstSpec {
    pub rows: usize,
    pub max_degree: u64,
    pub regs: Vec<Role>,
    pub boundary: Vec<(usize, usize)>,
    pub seed: u64,
    pub small: bool,
    pub sub_lead: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct InstCfg { pub max_rows: usize, pub max_regs: usize, pub max_degree: u64, pub max_boundary: usize }

fn factor() -> BoxedStrategy<Factor> {
    (prop_oneof![12 => 0usize..6, 1 => 6usize..40], prop_oneof![12 => 0usize..5, 1 => 5usize..70], prop_oneof![12 => Just(1u64), 6 => Just(2u64), 4 => Just(3u64), 2 => 4u64..9, 1 => 9u64..33], prop_oneof![3 => Just(1u64), 1 => eseed_nz()])
        .prop_map(|(reg, step, power, coeff)| Factor { reg, step, power, coeff }).boxed()
}

fn term() -> BoxedStrategy<Term> {
    (eseed_nz(), any::<bool>(), vec(factor(), 1..4)).prop_map(|(coeff, uni, factors)| Term { coeff, uni, factors }).boxed()
}

fn start_s() -> BoxedStrategy<usize> { prop_oneof![9 => Just(0usize), 3 => 0usize..40, 1 => 0usize..1 << 20].boxed() }
fn span_s() -> BoxedStrategy<usize> { prop_oneof![9 => Just(0usize), 3 => 0usize..6, 3 => 0usize..40, 1 => 0usize..1 << 20].boxed() }
fn cell_s() -> BoxedStrategy<(usize, usize)> { (prop_oneof![8 => 0usize..6, 1 => 6usize..40], prop_oneof![8 => 0usize..64, 1 => 0usize..1 << 20]).boxed() }

fn role() -> BoxedStrategy<Role> {
    prop_oneof![
        1 => Just(Role::Free),
        1 => (eseed_nz(), 1u64..4, 0usize..3, start_s(), span_s()).prop_map(|(coeff, power, step, start, span)| Role::Bool { coeff, power, step, start, span }),
        4 => (prop_oneof![3 => Just(0usize), 12 => Just(1usize), 6 => 2usize..5, 1 => 5usize..40], eseed_nz(), any::<bool>(), prop_oneof![12 => vec(term(), 0..4), 1 => vec(term(), 4..12)], eseed(), start_s(), span_s())
            .prop_map(|(lead, lead_coeff, lead_poly, terms, constant, start, span)| Role::Rec { lead, lead_coeff, lead_poly, terms, constant, start, span }),
    ].boxed()
}

pub fn rows_s(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        2 => 2usize..=max,
        2 => (1u32..=(usize::BITS - max.leading_zeros() - 1)).prop_map(|k| 1usize << k),
        1 => (2u32..=(usize::BITS - max.leading_zeros() - 1)).prop_map(|k| (1usize << k) - 1),
        1 => (1u32..=(usize::BITS - (max - 1).leading_zeros() - 1)).prop_map(move |k| ((1usize << k) + 1).min(max)),
    ].boxed()
}

pub fn inst(c: InstCfg) -> BoxedStrategy<InstSpec> {
    (rows_s(c.max_rows), 1u64..=c.max_degree, vec(role(), 1..=c.max_regs), vec(cell_s(), 0..=c.max_boundary), any::<u64>(), prop::bool::weighted(0.25), any::<bool>())
        .prop_map(|(rows, max_degree, regs, boundary, seed, small, sub_lead)| InstSpec { rows, max_degree, regs, boundary, seed, small, sub_lead }).boxed()
}

#[derive(Clone)]
pub struct Inst<F: PrimeField> {
    pub props: InstanceProperties<F>,
    pub trace: Vec<Vec<F>>,
}

fn uni<F: PrimeField>(coeff: F, reg: usize, step: usize, power: u64) -> UnivariateTerm<F> {
    UnivariateTerm { coeff, register: Register::Register(reg), steps_difference: StepDifference::Steps(step), power }
}

impl InstSpec {
    pub fn nregs(&self) -> usize { self.regs.len() }

    pub fn build<F: PrimeField>(&self) -> Inst<F> { self.build_with(None).0 }

    /// trace that violates exactly one constraint at exactly one row (given here), everything after it follows the rules again
    pub fn build_glitch<F: PrimeField>(&self, pick: u64, delta: u64) -> (Inst<F>, Option<(usize, usize)>) { self.build_with(Some((pick, delta))) }

    fn build_with<F: PrimeField>(&self, glitch: Option<(u64, u64)>) -> (Inst<F>, Option<(usize, usize)>) {
        let n = self.rows.max(2);
        let r = self.regs.len();
        let mut roles = self.regs.clone();
        if !roles.iter().any(|x| matches!(x, Role::Rec { .. })) {
            roles[0] = Role::Rec { lead: 1, lead_coeff: 2, lead_poly: false, terms: vec![Term { coeff: 1, uni: true, factors: vec![Factor { reg: 0, step: 0, power: self.max_degree, coeff: 1 }] }], constant: 0, start: 0, span: 0 };
        }
        let free = |k: usize| !matches!(roles[k], Role::Rec { .. });
        let cell = |k: usize, i: usize| -> F {
            let s = mix(self.seed ^ mix((k as u64) << 32 | i as u64));
            match roles[k] {
                Role::Bool { .. } => if s & 1 == 1 { F::one() } else { F::zero() },
                _ => if self.small { el(s % 7) } else { el(s | 8) },
            }
        };
        let mut constraints = vec![];
        // (register, lead, first base row, end base row, coefficient)
        let mut rec: Vec<(usize, usize, usize, usize, F, usize)> = vec![];
        for (j, role) in roles.iter().enumerate() {
            match role {
                Role::Free => {}
                Role::Bool { coeff, power, step, start, span } => {
                    let step = step % n;
                    let mut sp = step.max(1);
                    sp += span % (n - sp + 1);
                    let st = start % (n - sp + 1);
                    let mut c = Constraint::<F>::default();
                    let k: F = el_nonzero(*coeff);
                    let p = (power + 1).min(self.max_degree.max(2));
                    c += uni(k, j, step, p);
                    c -= uni(k, j, step, 1);
                    c.density = ConstraintDensity::Dense(DenseConstraint::new(st, sp));
                    constraints.push(c);
                }
                Role::Rec { lead, lead_coeff, lead_poly, terms, constant, start, span } => {
                    let s = lead % n;
                    let mut c = Constraint::<F>::default();
                    let k: F = el_nonzero(*lead_coeff);
                    let kk = if self.sub_lead { neg(k) } else { k };
                    if *lead_poly {
                        let t = PolyvariateTerm::<F>::from((kk, uni(F::one(), j, s, 1)));
                        if self.sub_lead { c -= t; } else { c += t; }
                    } else {
                        let t = uni(kk, j, s, 1);
                        if self.sub_lead { c -= t; } else { c += t; }
                    }
                    let mut maxstep = s;
                    for t in terms.iter() {
                        let mut total = 0u64;
                        let mut fs = vec![];
                        for f in t.factors.iter() {
                            let k = f.reg % r;
                            let d = if free(k) { f.step % n } else if k < j { f.step % (s + 1) } else if s > 0 { f.step % s } else { continue };
                            if d >= n { continue; }
                            let p = f.power.min(self.max_degree - total);
                            if p == 0 { continue; }
                            total += p;
                            fs.push((k, d, p, el_nonzero::<F>(f.coeff)));
                            if t.uni { break; }
                        }
                        if fs.is_empty() { continue; }
                        for f in fs.iter() { maxstep = maxstep.max(f.1); }
                        let coeff: F = el_nonzero(t.coeff);
                        if t.uni {
                            let f = &fs[0];
                            c += uni(coeff, f.0, f.1, f.2);
                        } else {
                            let terms: Vec<_> = fs.iter().map(|f| uni(f.3, f.0, f.1, f.2)).collect();
                            c += PolyvariateTerm { coeff, terms, total_degree: total };
                        }
                    }
                    c += &el::<F>(*constant);
                    let mut sp = maxstep.max(1);
                    sp += span % (n - sp + 1);
                    let st = start % (n - sp + 1);
                    c.density = ConstraintDensity::Dense(DenseConstraint::new(st, sp));
                    rec.push((j, s, st, n - sp, k, constraints.len()));
                    constraints.push(c);
                }
            }
        }
        let mut places: Vec<(usize, usize)> = vec![]; // (index in rec, base row)
        for (q, x) in rec.iter().enumerate() { for b in x.2..x.3 { if b + x.1 < n { places.push((q, b)); } } }
        // a cell is set by one row of its constraint only, so a wrong value there violates that row alone
        let place = match glitch { Some((p, _)) if !places.is_empty() => {
            // first and last rows of a range are picked often
            let q = rec[places[p as usize % places.len()].0].clone();
            let q_i = places[p as usize % places.len()].0;
            Some(match (p >> 40) % 4 { 0 => (q_i, q.2), 1 => (q_i, (q.3 - 1).min(n - 1 - q.1)), _ => places[p as usize % places.len()] })
        } _ => None };
        // fill the trace row by row
        let mut trace: Vec<Vec<F>> = (0..r).map(|k| (0..n).map(|i| cell(k, i)).collect()).collect();
        for i in 0..n {
            for (q, (j, s, st, end, k, ci)) in rec.iter().enumerate() {
                if i < *s { continue; }
                let base = i - s;
                if base < *st || base >= *end { continue; }
                trace[*j][i] = F::zero();
                let rest = eval_constraint(&constraints[*ci], &trace, base).expect("inside");
                trace[*j][i] = neg(mul(rest, &inv(*k)));
                if place == Some((q, base)) { trace[*j][i].add_assign(&el_nonzero(glitch.unwrap().1)); }
            }
        }
        let boundary_constraints = self.boundary.iter().map(|(k, row)| {
            let (k, row) = (k % r, row % n);
            BoundaryConstraint { register: Register::Register(k), at_row: row, value: Some(trace[k][row]) }
        }).collect();
        let at = place.map(|(q, b)| (rec[q].5, b));
        (Inst { props: InstanceProperties { num_rows: n, num_registers: r, constraints, boundary_constraints }, trace }, at)
    }
}

fn reg_of(r: &Register) -> usize { match r { Register::Register(i) => *i, _ => panic!("register kind") } }

pub fn eval_uni<F: PrimeField>(t: &UnivariateTerm<F>, get: &dyn Fn(usize, StepDifference<F>) -> Option<F>) -> Option<F> {
    let v = get(reg_of(&t.register), t.steps_difference)?;
    Some(mul(powu(&v, t.power), &t.coeff))
}

pub fn eval_with<F: PrimeField>(c: &Constraint<F>, get: &dyn Fn(usize, StepDifference<F>) -> Option<F>) -> Option<F> {
    let mut acc = c.constant_term;
    for t in c.terms.iter() {
        let v = match t {
            ConstraintTerm::Univariate(u) => eval_uni(u, get)?,
            ConstraintTerm::Polyvariate(p) => {
                let mut v = p.coeff;
                for u in p.terms.iter() { v.mul_assign(&eval_uni(u, get)?); }
                v
            }
        };
        acc.add_assign(&v);
    }
    Some(acc)
}

pub fn eval_constraint<F: PrimeField>(c: &Constraint<F>, trace: &[Vec<F>], row: usize) -> Option<F> {
    eval_with(c, &|reg, s| match s { StepDifference::Steps(d) => trace[reg].get(row + d).cloned(), _ => panic!("mask") })
}

pub fn dense_of<F: PrimeField>(c: &Constraint<F>) -> (usize, usize) {
    match &c.density { ConstraintDensity::Dense(d) => (d.start_at, d.span), _ => panic!("density") }
}

/// meaning of an instance: the first violated condition, if any
pub fn violated<F: PrimeField>(p: &InstanceProperties<F>, trace: &[Vec<F>]) -> Option<String> {
    for (i, c) in p.constraints.iter().enumerate() {
        let (start, span) = dense_of(c);
        let n = trace[0].len();
        for row in start..(n.saturating_sub(span)) {
            match eval_constraint(c, trace, row) {
                None => return Some(format!("constraint {} reads outside of the trace at row {}", i, row)),
                Some(v) => if !v.is_zero() { return Some(format!("constraint {} at row {}", i, row)); }
            }
        }
    }
    for (i, b) in p.boundary_constraints.iter().enumerate() {
        if let Some(v) = b.value {
            if trace[reg_of(&b.register)][b.at_row] != v { return Some(format!("boundary constraint {}", i)); }
        }
    }
    None
}

pub fn max_power<F: PrimeField>(p: &InstanceProperties<F>) -> u64 { p.constraints.iter().map(|c| c.degree).max().unwrap_or(0) }

/// The recorded finding KF1: multi-coset extension is wrong for these (factor, cpus)
pub fn kf1_region(factor: usize, cpus: usize) -> bool { cpus > 1 && factor / cpus > 1 }

/// CPU counts for which no extension used by a proof is in the KF1 region
pub fn safe_cpus(factors: &[usize], want: usize) -> usize {
    let max = crate::runner::max_cpus();
    let mut k = want.clamp(1, max);
    while k < max && factors.iter().any(|f| kf1_region(*f, k)) { k += 1; }
    if factors.iter().any(|f| kf1_region(*f, k)) { 1 } else { k }
}
