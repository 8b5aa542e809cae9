//! The whole protocol: plain proofs, their mutations, and a reference prover (honest or cheating) written from the
//! description of the protocol without using the library's prover.
use crate::air::*;
use crate::blake::hodor_hash;
use crate::el::*;
use crate::fri_ref::*;
use crate::refmath::*;
use ff::{Field, PrimeField, PrimeFieldRepr};
use hodor::air::*;
use hodor::arp::*;
use hodor::prover::Prover;
use hodor::transcript::*;
use hodor::verifier::*;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

pub type Tr<F> = Blake2sTranscript<F>;
pub type Proof<F> = InstanceProof<F, Tr<F>, Iop<F>, FriProto<F>, FriP<F>, Fri<F>, PerRegisterARP>;
pub type LibProver<F> = Prover<F, Tr<F>, Iop<F>, FriProto<F>, FriP<F>, Fri<F>, PerRegisterARP>;
pub type LibVerifier<F> = Verifier<F, Tr<F>, Iop<F>, FriProto<F>, FriP<F>, Fri<F>, PerRegisterARP>;

#[derive(Clone, PartialEq, Debug)]
pub struct PProof<F: PrimeField> {
    pub f_at_z_m: Vec<F>,
    pub f_roots: Vec<Hash>,
    pub g_root: Hash,
    pub f_queries: Vec<PQuery<F>>,
    pub g_query: PQuery<F>,
    pub h1_roots: Vec<Hash>,
    pub h2_roots: Vec<Hash>,
    pub fri1: PFri<F>,
    pub fri2: PFri<F>,
}

impl<F: PrimeField> PProof<F> {
    pub fn from_lib(p: &Proof<F>) -> Self {
        PProof {
            f_at_z_m: p.f_at_z_m.clone(), f_roots: p.f_iop_roots.clone(), g_root: p.g_iop_root,
            f_queries: p.f_queries.iter().map(PQuery::from_lib).collect(), g_query: PQuery::from_lib(&p.g_query),
            h1_roots: p.h1_iop_roots.clone(), h2_roots: p.h2_iop_roots.clone(),
            fri1: PFri::from_lib(&p.fri_proof_h1), fri2: PFri::from_lib(&p.fri_proof_h2),
        }
    }
    pub fn to_lib(&self) -> Proof<F> {
        InstanceProof {
            f_at_z_m: self.f_at_z_m.clone(), f_iop_roots: self.f_roots.clone(), g_iop_root: self.g_root,
            f_queries: self.f_queries.iter().map(|q| q.to_lib()).collect(), g_query: self.g_query.to_lib(),
            h1_iop_roots: self.h1_roots.clone(), h2_iop_roots: self.h2_roots.clone(),
            fri_proof_h1: self.fri1.to_lib(), fri_proof_h2: self.fri2.to_lib(),
            _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData,
        }
    }
}

pub fn lib_prove<F: PrimeField>(props: &InstanceProperties<F>, trace: &[Vec<F>], lde: usize, out: usize) -> Result<PProof<F>, String> {
    let p = LibProver::<F>::new(props.clone(), lde, out).map_err(|e| format!("prover: {}", e))?;
    let pr = p.prove(trace.to_vec()).map_err(|e| format!("prove: {}", e))?;
    Ok(PProof::from_lib(&pr))
}

/// Ok(accepted?) or the error the verifier reported; a panic is a separate error text
pub fn lib_verify<F: PrimeField>(props: &InstanceProperties<F>, lde: usize, p: &PProof<F>) -> Result<bool, String> {
    crate::runner::guarded(|| {
        let v = LibVerifier::<F>::new(props.clone(), lde).map_err(|e| format!("verifier: {}", e))?;
        v.verify(&p.to_lib()).map_err(|e| format!("verify: {}", e))
    })
}

pub fn accepted(r: &Result<bool, String>) -> bool { matches!(r, Ok(true)) }
pub fn panicked<T>(r: &Result<T, String>) -> bool { matches!(r, Err(m) if m.starts_with("panic")) }

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PMut {
    FAtZ(Op), FRoots(Op), GRoot(u64), FQueries(Op), FQuery { sel: u64, m: QMut }, GQuery(QMut), H1Roots(Op), H2Roots(Op),
    Fri { second: bool, m: FriMut },
    /// mutate the list of roots consistently in both places
    BothRoots { second: bool, op: Op },
    SwapFri, SwapFG,
}

pub fn apply_proof<F: PrimeField>(p: &mut PProof<F>, m: &PMut) {
    match m {
        PMut::FAtZ(op) => apply_list(&mut p.f_at_z_m, op, &alter_el, &|h| el(h)),
        PMut::FRoots(op) => apply_list(&mut p.f_roots, op, &alter_hash, &fresh_hash),
        PMut::GRoot(h) => alter_hash(&mut p.g_root, *h),
        PMut::FQueries(op) => apply_list(&mut p.f_queries, op, &|q, h| apply_query(q, &QMut::Value(h)), &|h| PQuery { index: (h % 9) as usize, value: el(h), path: vec![fresh_hash(h)] }),
        PMut::FQuery { sel, m } => if !p.f_queries.is_empty() { let n = p.f_queries.len(); apply_query(&mut p.f_queries[*sel as usize % n], m) },
        PMut::GQuery(m) => apply_query(&mut p.g_query, m),
        PMut::H1Roots(op) => apply_list(&mut p.h1_roots, op, &alter_hash, &fresh_hash),
        PMut::H2Roots(op) => apply_list(&mut p.h2_roots, op, &alter_hash, &fresh_hash),
        PMut::Fri { second, m } => apply_fri(if *second { &mut p.fri2 } else { &mut p.fri1 }, m),
        PMut::BothRoots { second, op } => if *second {
            apply_list(&mut p.fri2.roots, op, &alter_hash, &fresh_hash);
            p.h2_roots = p.fri2.roots.clone();
        } else {
            apply_list(&mut p.fri1.roots, op, &alter_hash, &fresh_hash);
            p.h1_roots = p.fri1.roots.clone();
        },
        PMut::SwapFri => { std::mem::swap(&mut p.fri1, &mut p.fri2); std::mem::swap(&mut p.h1_roots, &mut p.h2_roots); }
        PMut::SwapFG => if !p.f_queries.is_empty() && !p.f_roots.is_empty() { std::mem::swap(&mut p.f_queries[0], &mut p.g_query); std::mem::swap(&mut p.f_roots[0], &mut p.g_root); },
    }
}

pub fn pmut() -> proptest::strategy::BoxedStrategy<PMut> {
    use crate::fri_ref::strat::*;
    use proptest::prelude::*;
    prop_oneof![
        3 => op().prop_map(PMut::FAtZ),
        2 => op().prop_map(PMut::FRoots),
        1 => any::<u64>().prop_map(PMut::GRoot),
        2 => op().prop_map(PMut::FQueries),
        4 => (any::<u64>(), qmut()).prop_map(|(sel, m)| PMut::FQuery { sel, m }),
        3 => qmut().prop_map(PMut::GQuery),
        2 => op().prop_map(PMut::H1Roots),
        2 => op().prop_map(PMut::H2Roots),
        8 => (any::<bool>(), frimut()).prop_map(|(second, m)| PMut::Fri { second, m }),
        2 => (any::<bool>(), op()).prop_map(|(second, op)| PMut::BothRoots { second, op }),
        1 => Just(PMut::SwapFri),
        1 => Just(PMut::SwapFG),
    ].boxed()
}

// ---------------------------------------------------------------------------------------------------------------------
// Reference transcript and statement encoding

#[derive(Clone)]
pub struct RefTranscript { pub bytes: Vec<u8> }

impl RefTranscript {
    pub fn new() -> Self { RefTranscript { bytes: vec![] } }
    pub fn commit(&mut self, b: &[u8]) { self.bytes.extend_from_slice(b); }
    pub fn num(&mut self, x: u64) { self.commit(&x.to_be_bytes()); }
    pub fn elem<F: PrimeField>(&mut self, f: &F) {
        let repr = f.into_repr();
        for l in repr.as_ref().iter().rev() { self.commit(&l.to_be_bytes()); }
    }
    pub fn challenge_bytes(&mut self) -> Hash { let d = hodor_hash(&self.bytes); self.commit(&d); d }
    pub fn challenge<F: PrimeField>(&mut self) -> F { digest_to_field(&self.challenge_bytes()) }
}

fn reg_code(r: &Register) -> (u64, u64) {
    match r { Register::ProgramCounter(i) => (0, *i as u64), Register::Register(i) => (1, *i as u64), Register::Constant(i) => (2, *i as u64), Register::Aux(i) => (3, *i as u64) }
}

/// terms are committed with masks in place of step differences
pub fn commit_statement<F: PrimeField>(t: &mut RefTranscript, p: &InstanceProperties<F>) {
    let w = gen_of::<F>(p.num_rows.next_power_of_two());
    fn uni<F: PrimeField>(t: &mut RefTranscript, u: &UnivariateTerm<F>, w: &F) {
        t.elem(&u.coeff);
        let (k, i) = reg_code(&u.register);
        t.num(k); t.num(i);
        match u.steps_difference { StepDifference::Steps(s) => { t.num(1); t.elem(&powu(w, s as u64)); } StepDifference::Mask(m) => { t.num(1); t.elem(&m); } }
        t.num(u.power);
    }
    t.num(p.num_rows as u64);
    t.num(p.num_registers as u64);
    t.num(p.constraints.len() as u64);
    for c in p.constraints.iter() {
        t.elem(&c.constant_term);
        t.num(c.degree);
        let (start, span) = dense_of(c);
        t.num(0); t.num(2); t.num(start as u64); t.num(span as u64);
        t.num(c.terms.len() as u64);
        for x in c.terms.iter() {
            match x {
                ConstraintTerm::Univariate(u) => { t.num(0); uni(t, u, &w); }
                ConstraintTerm::Polyvariate(pl) => { t.num(1); t.elem(&pl.coeff); t.num(pl.terms.len() as u64); for u in pl.terms.iter() { uni(t, u, &w); } }
            }
        }
    }
    t.num(p.boundary_constraints.len() as u64);
    for b in p.boundary_constraints.iter() {
        let (k, i) = reg_code(&b.register);
        t.num(k); t.num(i); t.num(b.at_row as u64);
        match b.value { Some(v) => { t.num(1); t.elem(&v); } None => t.num(0) }
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Reference meaning of the algebra

fn reg_of(r: &Register) -> usize { match r { Register::Register(i) => *i, _ => panic!("register kind") } }

/// (register, steps) pairs in the order of out-of-domain values: as they appear in constraints, then boundary constraints
pub fn masks_of<F: PrimeField>(p: &InstanceProperties<F>) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    fn put(v: &mut Vec<(usize, usize)>, x: (usize, usize)) { if !v.contains(&x) { v.push(x); } }
    fn key<F: PrimeField>(u: &UnivariateTerm<F>) -> (usize, usize) { (reg_of(&u.register), match u.steps_difference { StepDifference::Steps(s) => s, _ => panic!("mask") }) }
    for c in p.constraints.iter() {
        for t in c.terms.iter() {
            match t {
                ConstraintTerm::Univariate(u) => put(&mut v, key(u)),
                ConstraintTerm::Polyvariate(pl) => for u in pl.terms.iter() { put(&mut v, key(u)) },
            }
        }
    }
    for b in p.boundary_constraints.iter() { put(&mut v, (reg_of(&b.register), 0)); }
    v
}

/// indices of constraints in the order of their challenges: grouped by (start, span) in order of the first appearance
pub fn challenge_order<F: PrimeField>(p: &InstanceProperties<F>) -> Vec<usize> {
    let mut groups: Vec<((usize, usize), Vec<usize>)> = vec![];
    for (i, c) in p.constraints.iter().enumerate() {
        let d = dense_of(c);
        match groups.iter_mut().find(|g| g.0 == d) { Some(g) => g.1.push(i), None => groups.push((d, vec![i])) }
    }
    groups.into_iter().flat_map(|g| g.1).collect()
}

#[derive(Clone, Debug)]
pub struct GChallenges<F> { /// by constraint index
    pub c: Vec<(F, F)>, pub b: Vec<(F, F)> }

pub fn draw_g_challenges<F: PrimeField>(t: &mut RefTranscript, p: &InstanceProperties<F>) -> GChallenges<F> {
    let mut c = vec![(F::zero(), F::zero()); p.constraints.len()];
    for i in challenge_order(p) { let a = t.challenge(); let b = t.challenge(); c[i] = (a, b); }
    let b = p.boundary_constraints.iter().map(|_| { let a = t.challenge(); let b = t.challenge(); (a, b) }).collect();
    GChallenges { c, b }
}

pub fn column_size<F: PrimeField>(p: &InstanceProperties<F>) -> usize { p.num_rows.next_power_of_two() }
pub fn constraints_size<F: PrimeField>(p: &InstanceProperties<F>) -> usize { column_size(p) * (max_power(p) as usize).next_power_of_two() }

/// Value of the composition at x, given a way to get the value of register `r` at omega^s * x. None if x is in the column domain
pub fn g_at<F: PrimeField>(p: &InstanceProperties<F>, ch: &GChallenges<F>, x: &F, get: &dyn Fn(usize, usize) -> F) -> Option<F> {
    let n = column_size(p);
    let w = gen_of::<F>(n);
    let top = max_power(p);
    let mut acc = F::zero();
    for (i, c) in p.constraints.iter().enumerate() {
        let mut v = eval_with(c, &|r, s| match s { StepDifference::Steps(d) => Some(get(r, d)), _ => None })?;
        let (start, span) = dense_of(c);
        let mut den = F::one();
        let mut root = powu(&w, start as u64);
        for _ in start..p.num_rows - span { den.mul_assign(&sub(*x, &root)); root.mul_assign(&w); }
        v.mul_assign(&den.inverse()?);
        let (a, b) = ch.c[i];
        let adj = top - c.degree;
        let k = if adj == 0 { a } else { add(mul(a, &powu(x, adj)), &b) };
        acc.add_assign(&mul(v, &k));
    }
    for (i, bc) in p.boundary_constraints.iter().enumerate() {
        let mut v = sub(get(reg_of(&bc.register), 0), &bc.value?);
        v.mul_assign(&sub(*x, &powu(&w, bc.at_row as u64)).inverse()?);
        let (a, b) = ch.b[i];
        let adj = top - 1;
        let k = if adj == 0 { a } else { add(mul(a, &powu(x, adj)), &b) };
        acc.add_assign(&mul(v, &k));
    }
    Some(acc)
}

pub fn interp_trace<F: PrimeField>(p: &InstanceProperties<F>, trace: &[Vec<F>]) -> Vec<Vec<F>> {
    let n = column_size(p);
    trace.iter().map(|c| { let mut v = c.clone(); v.resize(n, F::zero()); interpolate_domain(&v) }).collect()
}

/// Composition of the given register polynomials as a polynomial that agrees with it on a coset of the constraints domain
/// (it is the composition itself if constraints hold)
pub fn g_poly<F: PrimeField>(p: &InstanceProperties<F>, ch: &GChallenges<F>, f: &[Vec<F>]) -> Vec<F> {
    let m = constraints_size(p);
    let w = gen_of::<F>(column_size(p));
    let shift = F::multiplicative_generator();
    let wm = gen_of::<F>(m);
    let mut x = shift;
    let vals: Vec<F> = (0..m).map(|_| {
        let v = g_at(p, ch, &x, &|r, s| horner(&f[r], &mul(x, &powu(&w, s as u64)))).expect("outside of the column domain");
        x.mul_assign(&wm);
        v
    }).collect();
    let mut c = interpolate_domain(&vals);
    let si = inv(shift);
    let mut s = F::one();
    for k in c.iter_mut() { k.mul_assign(&s); s.mul_assign(&si); }
    c
}

/// position of the query from the last eight bytes of a digest
pub fn challenge_index(d: &[u8], size: usize, lde: usize) -> usize {
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[d.len() - 8..]);
    let mut i = (u64::from_be_bytes(b) % size as u64) as usize;
    if i % lde == 0 { i = (i + 1) % size; }
    if i % 2 == 0 { i = (i + 1) % size; }
    i
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cheat {
    Honest,
    /// the root of register (or composition) is of another polynomial, the opened value is the right one of the other
    OpenOtherF { reg: u64, seed: u64 },
    OpenOtherG { seed: u64 },
    /// opened position is another one where the committed value is the same
    OpenPosF { reg: u64, by: u64 },
    OpenPosG { by: u64 },
    /// FRI layer opened at another coset (all the values are the same there)
    FriPos { second: bool, layer: u64, by: u64 },
    /// false out-of-domain value, quotient taken with it
    FalseOod { mask: u64, seed: u64, full: bool },
    /// out-of-domain values chosen after all the challenges, so that both quotients are consistent
    OodAfter,
    /// composition is another low degree polynomial
    OtherG { seed: u64, formula: bool },
    /// FRI is run for another low degree polynomial
    OtherH { second: bool, seed: u64, fix: u8 },
    /// values of layer are replaced by those of another low degree polynomial
    FriLayer { second: bool, layer: u64, seed: u64 },
    /// as above, and the value opened at the sibling position of the layer before is chosen so that it folds into the replaced layer
    FriForge { second: bool, layer: u64, seed: u64, own_tree: bool },
    FriFinals { second: bool, seed: u64, small: bool },
    /// degree and blow-up of FRI proof other than prescribed (with the same domain)
    Params { second: bool, shift: u8, out: u8, broken: bool },
    /// as many final coefficients as there are values in the last layer
    LongFinals,
    /// committed roots of quotients are different from roots of the FRI proof, that is made after the position is known
    OtherRoots { second: bool, seed: u64 },
    /// value of a boundary constraint is chosen after the challenges
    BoundaryAfter { b: u64 },
    /// one more register than the statement has (0), one more out-of-domain value (1), a register no constraint mentions is left out (2)
    Extra { what: u8, seed: u64 },
    /// constant term of a constraint is chosen after the challenges
    ConstantAfter { c: u64 },
    /// everything follows the satisfying trace, but the broken one is committed
    ClaimOther,
    /// the message is not put into the prover's transcript (message: see SKIPS), and changed after
    Skip { what: u8 },
    /// prover quotients by divisors missing the broken rows: composition of own choice for the broken trace
    DropRows,
}

pub const SKIPS: u8 = 8;

pub struct RefCfg { pub lde: usize, pub out: usize }

/// How the register polynomials are related to the statement
pub struct RefInput<'a, F: PrimeField> {
    pub props: &'a InstanceProperties<F>,
    /// satisfying trace
    pub good: &'a [Vec<F>],
    /// trace violating the statement
    pub bad: Option<&'a [Vec<F>]>,
}

/// Result: the proof and the statement it is claimed for
pub fn ref_prove<F: PrimeField>(inp: &RefInput<F>, cfg: &RefCfg, cheat: &Cheat) -> Option<(PProof<F>, InstanceProperties<F>)> {
    let mut props = inp.props.clone();
    let (lde, out) = (cfg.lde, cfg.out);
    let n = column_size(&props);
    let m = constraints_size(&props);
    let w = gen_of::<F>(n);
    let masks = masks_of(&props);
    if masks.is_empty() { return None; }
    let rnd_poly = |seed: u64, len: usize| -> Vec<F> { (0..len).map(|i| el::<F>(mix(seed ^ mix(i as u64 + 77)) | 8)).collect() };

    // which trace is committed and from which the claims follow
    let needs_bad = match cheat {
        Cheat::OodAfter | Cheat::OtherG { .. } | Cheat::Params { broken: true, .. } | Cheat::LongFinals | Cheat::OtherRoots { .. } | Cheat::BoundaryAfter { .. } | Cheat::ConstantAfter { .. } | Cheat::ClaimOther | Cheat::DropRows | Cheat::FalseOod { .. } => true,
        _ => false,
    };
    let committed: &[Vec<F>] = if needs_bad { inp.bad? } else { inp.good };
    let claimed: &[Vec<F>] = if *cheat == Cheat::ClaimOther { inp.good } else { committed };
    let f_committed = interp_trace(&props, committed);
    let f = interp_trace(&props, claimed);
    let one = F::one();

    let mut f_ldes: Vec<Vec<F>> = f_committed.iter().map(|c| eval_domain(c, n * lde, &one)).collect();
    let mut f_trees: Vec<RefTree> = f_ldes.iter().map(|v| RefTree::new(v)).collect();
    let mut f_roots: Vec<Hash> = f_trees.iter().map(|t| t.root()).collect();
    if let Cheat::Extra { what, seed } = cheat {
        match what % 3 {
            0 => {
                f_ldes.push(eval_domain(&rnd_poly(*seed, n), n * lde, &one));
                f_trees.push(RefTree::new(f_ldes.last().unwrap()));
                f_roots.push(f_trees.last().unwrap().root());
            }
            1 => {}
            _ => {
                let last = f_ldes.len() - 1;
                if last == 0 || masks.iter().any(|k| k.0 == last) { return None; }
                f_ldes.pop();
                f_trees.pop();
                f_roots.pop();
            }
        }
    }
    let skip = |k: u8| matches!(cheat, Cheat::Skip { what } if *what % SKIPS == k);
    if let Cheat::OpenOtherF { reg, seed } = cheat {
        let r = *reg as usize % f_roots.len();
        // registers no constraint looks at are of no interest to anybody
        if !masks.iter().any(|k| k.0 == r) { return None; }
        f_roots[r] = RefTree::new(&eval_domain(&rnd_poly(*seed, n), n * lde, &one)).root();
    }

    let mut t = RefTranscript::new();
    if !skip(0) { commit_statement(&mut t, &props); }
    for (i, r) in f_roots.iter().enumerate() { if !(skip(1) && i == f_roots.len() - 1) { t.commit(r); } }
    let ch = draw_g_challenges(&mut t, &props);

    // composition
    let g_honest = || g_poly(&props, &ch, &f);
    let mut g: Vec<F> = match cheat {
        Cheat::OtherG { seed, .. } => rnd_poly(*seed, m),
        Cheat::OodAfter | Cheat::BoundaryAfter { .. } | Cheat::ConstantAfter { .. } => rnd_poly(0x1234, m),
        Cheat::DropRows => {
            // only boundary constraints (or nothing) enter the composition
            let mut p2 = props.clone();
            let top = max_power(&props);
            let keep: Vec<usize> = (0..p2.constraints.len()).filter(|i| {
                let (start, span) = dense_of(&p2.constraints[*i]);
                (start..p2.num_rows - span).all(|row| eval_constraint(&p2.constraints[*i], committed, row).map(|v| v.is_zero()).unwrap_or(false))
            }).collect();
            if keep.len() == p2.constraints.len() { return None; }
            let dropped: Vec<usize> = (0..p2.constraints.len()).filter(|i| !keep.contains(i)).collect();
            // a zero constraint of the same degree in place of each dropped one
            for i in dropped { p2.constraints[i].terms.clear(); p2.constraints[i].constant_term = F::zero(); }
            if max_power(&p2) != top { return None; }
            g_poly(&p2, &ch, &f)
        }
        _ => g_honest(),
    };
    g.resize(m, F::zero());
    let mut g_lde = eval_domain(&g, m * lde, &one);
    let mut g_tree = RefTree::new(&g_lde);
    let mut g_root = g_tree.root();
    if let Cheat::OpenOtherG { seed } = cheat { g_root = RefTree::new(&eval_domain(&rnd_poly(*seed, m), m * lde, &one)).root(); }
    if !skip(2) { t.commit(&g_root); }
    let z: F = t.challenge();
    let points: Vec<F> = masks.iter().map(|(_, s)| mul(z, &powu(&w, *s as u64))).collect();
    let mut oods: Vec<F> = masks.iter().zip(points.iter()).map(|((r, _), p)| horner(&f[*r], p)).collect();
    if let Cheat::FalseOod { mask, seed, .. } = cheat {
        let i = *mask as usize % masks.len();
        oods[i].add_assign(&el_nonzero::<F>(mix(*seed)));
    }
    let ood_after = *cheat == Cheat::OodAfter;
    for (i, o) in oods.iter().enumerate() { if !(skip(3) && i == oods.len() - 1) && !ood_after { t.elem(o); } }
    let extra_ood: Option<F> = match cheat { Cheat::Extra { what, seed } if what % 3 == 1 => Some(el::<F>(mix(*seed))), _ => None };
    if let Some(e) = extra_ood { t.elem(&e); }
    let alphas: Vec<F> = masks.iter().map(|_| t.challenge()).collect();
    let lookup = |oods: &[F], r: usize, s: usize| -> F { oods[masks.iter().position(|k| *k == (r, s)).expect("mask")] };
    let g_verifier = |props: &InstanceProperties<F>, oods: &[F]| g_at(props, &ch, &z, &|r, s| lookup(oods, r, s));

    // quotients as values over their domains
    let wf = gen_of::<F>(n * lde);
    let wg = gen_of::<F>(m * lde);
    let h1_values = |oods: &[F]| -> Option<Vec<F>> {
        let mut x = F::one();
        let mut v = Vec::with_capacity(n * lde);
        for i in 0..n * lde {
            let mut acc = F::zero();
            for ((k, p), (o, a)) in masks.iter().zip(points.iter()).zip(oods.iter().zip(alphas.iter())) {
                let num = sub(eval_cached(&f_ldes, &f, *k, i, n * lde, *cheat == Cheat::ClaimOther, &x), o);
                acc.add_assign(&mul(mul(num, a), &sub(x, p).inverse()?));
            }
            v.push(acc);
            x.mul_assign(&wf);
        }
        Some(v)
    };
    let h2_values = |gz: &F| -> Option<Vec<F>> {
        let mut x = F::one();
        let mut v = Vec::with_capacity(m * lde);
        for i in 0..m * lde {
            v.push(mul(sub(g_lde[i], gz), &sub(x, &z).inverse()?));
            x.mul_assign(&wg);
        }
        Some(v)
    };

    let g_at_z = horner(&g, &z);
    let gv = g_verifier(&props, &oods)?;
    // honest quotient of what was committed (low degree) ...
    let h2_low = eval_domain(&divide_by_linear(&g, &z), m * lde, &one);
    // ... or following the formula of the verifier (low degree only for honest provers)
    let mut h1 = if ood_after {
        let mut acc = vec![F::zero(); n];
        for ((k, p), a) in masks.iter().zip(points.iter()).zip(alphas.iter()) {
            for (i, q) in divide_by_linear(&f[k.0], p).into_iter().enumerate() { acc[i].add_assign(&mul(q, a)); }
        }
        eval_domain(&acc, n * lde, &one)
    } else { h1_values(&oods)? };
    let mut h2 = match cheat {
        Cheat::OtherG { formula: false, .. } | Cheat::OodAfter | Cheat::BoundaryAfter { .. } | Cheat::ConstantAfter { .. } => h2_low,
        _ => h2_values(&gv)?,
    };
    let _ = g_at_z;

    // FRI
    let (mut init1, mut lde1, mut out1) = (n, lde, out);
    let (mut init2, mut lde2, mut out2) = (m, lde, out);
    if let Cheat::Params { second, shift, out: o, broken } = cheat {
        // for a broken trace only the second quotient is not of low degree, and it is a polynomial of degree below the domain size
        let full = log2(lde);
        if full == 0 { return None; }
        let s = if *broken { full } else { 1 + *shift as u32 % full };
        if *second || *broken { init2 <<= s; lde2 >>= s; out2 <<= if lde2 == 1 && out2 == 1 { 1 } else { *o as u32 % (s + 1) }; }
        else { init1 <<= s; lde1 >>= s; out1 <<= if lde1 == 1 && out1 == 1 { 1 } else { *o as u32 % (s + 1) }; }
        if out2 >= init2 || out1 >= init1 || out1 * lde1 < 2 || out2 * lde2 < 2 { return None; }
    }
    if let Cheat::OtherH { second, seed, .. } = cheat {
        if *second { h2 = eval_domain(&rnd_poly(*seed, m), m * lde, &one); } else { h1 = eval_domain(&rnd_poly(*seed, n), n * lde, &one); }
    }
    let mut rep1 = None;
    let mut rep2 = None;
    if let Cheat::FriLayer { second, layer, seed } | Cheat::FriForge { second, layer, seed, .. } = cheat {
        let (init, o) = if *second { (init2, out2) } else { (init1, out1) };
        let steps = log2(init / o) as usize;
        let k = 1 + *layer as usize % steps;
        let deg = init >> k;
        let v = eval_domain(&rnd_poly(*seed, deg), deg * lde, &one);
        if *second { rep2 = Some((k, v)); } else { rep1 = Some((k, v)); }
    }
    let mut fri1 = RefFri::commit(h1, init1, lde1, out1, rep1);
    let mut fri2 = RefFri::commit(h2, init2, lde2, out2, rep2);
    if *cheat == Cheat::LongFinals || matches!(cheat, Cheat::FalseOod { full: true, .. }) {
        for fr in [&mut fri1, &mut fri2] { fr.finals = interpolate_domain(fr.layers.last().unwrap()); }
    }
    if let Cheat::FriFinals { second, seed, small } = cheat {
        let fr = if *second { &mut fri2 } else { &mut fri1 };
        if *small { let k = *seed as usize % fr.finals.len(); fr.finals[k].add_assign(&el_nonzero::<F>(mix(*seed))); } else { fr.finals = rnd_poly(*seed, fr.out); }
    }

    // the rest of the transcript
    let mut h1_roots = fri1.roots();
    let mut h2_roots = fri2.roots();
    let finish = |mut t: RefTranscript, h1_roots: &[Hash], finals1: &[F], h2_roots: &[Hash], finals2: &[F]| -> (usize, usize) {
        if !skip(4) { t.commit(h1_roots.last().unwrap()); }
        for (i, c) in finals1.iter().enumerate() { if !(skip(5) && i == 0) { t.elem(c); } }
        if !skip(6) { t.commit(h2_roots.last().unwrap()); }
        for (i, c) in finals2.iter().enumerate() { if !(skip(7) && i == 0) { t.elem(c); } }
        let i1 = challenge_index(&t.challenge_bytes(), n * lde, lde);
        let i2 = challenge_index(&t.challenge_bytes(), m * lde, lde);
        (i1, i2)
    };
    if let Cheat::OtherRoots { second, seed } = cheat {
        // roots in the transcript have nothing to do with those of the FRI proof, that is for a constant polynomial having the expected value
        // at the one queried position (constants are tried until the position is the one where the value is expected)
        let v = if *second { h2_values(&gv)? } else { h1_values(&oods)? };
        let (init, l, o, roots) = if *second { (init2, lde2, out2, &mut h2_roots) } else { (init1, lde1, out1, &mut h1_roots) };
        for (i, x) in roots.iter_mut().enumerate() { *x = fresh_hash(mix(*seed ^ i as u64)); }
        let mut done = false;
        for k in 0..6 * v.len() {
            let j = k % v.len();
            let last = roots.len() - 1;
            roots[last] = fresh_hash(mix(*seed ^ mix(k as u64)));
            let mut finals = vec![F::zero(); o];
            finals[0] = v[j];
            let (i1, i2) = if *second { finish(t.clone(), &fri1.roots(), &fri1.finals, roots, &finals) } else { finish(t.clone(), roots, &finals, &fri2.roots(), &fri2.finals) };
            if (if *second { i2 } else { i1 }) == j {
                let fr = RefFri::commit(vec![v[j]; v.len()], init, l, o, None);
                if *second { fri2 = fr; } else { fri1 = fr; }
                done = true;
                break;
            }
        }
        if !done { return None; }
    }
    let (i1, i2) = finish(t, &h1_roots, &fri1.finals, &h2_roots, &fri2.finals);

    let mut pf1 = fri1.open(i1);
    let mut pf2 = fri2.open(i2);
    if let Cheat::OtherH { second, fix, .. } = cheat {
        // make opened values consistent, so that only authentication of them fails
        let (pf, i, want) = if *second { (&mut pf2, i2, h2_values(&gv)?[i2]) } else { (&mut pf1, i1, h1_values(&oods)?[i1]) };
        if fix % 3 > 0 {
            let size = pf.init * pf.lde;
            let h = size / 2;
            let x = powu(&gen_of::<F>(size), i as u64);
            let c: F = digest_to_field(&pf.roots[0]);
            // next value at i mod h
            let nh = h / 2;
            let nq = &pf.queries[2 + if (i % h) >= nh { 1 } else { 0 }];
            let target = nq.value;
            // ((v + y) + c (v - y) / x) / 2 = target
            let cx = mul(c, &inv(x));
            let k1 = add(F::one(), &cx);
            let k2 = sub(F::one(), &cx);
            let y = mul(sub(mul(f_u64::<F>(2), &target), &mul(want, &k1)), &k2.inverse()?);
            let (here, other) = if i >= h { (1, 0) } else { (0, 1) };
            pf.queries[here].value = want;
            pf.queries[other].value = y;
            if fix % 3 == 2 {
                // openings of values from a tree of their own, with the old root
                let mut layer: Vec<F> = vec![F::zero(); size];
                layer[i] = want;
                layer[(i + h) % size] = y;
                let tr = RefTree::new(&layer);
                pf.queries[here].path = tr.path(i);
                pf.queries[other].path = tr.path((i + h) % size);
            }
        }
    }
    if let Cheat::FriForge { second, layer, own_tree, .. } = cheat {
        let (fr, pf, i) = if *second { (&fri2, &mut pf2, i2) } else { (&fri1, &mut pf1, i1) };
        let (init, o) = if *second { (init2, out2) } else { (init1, out1) };
        let steps = log2(init / o) as usize;
        let k = *layer as usize % steps; // layer before the replaced one
        let size = fr.layers[k].len();
        let h = size / 2;
        // position within the layer: images of i under the map to the next domain
        let mut idx = i;
        let mut cur = fr.layers[0].len();
        for _ in 0..k { cur /= 2; idx %= cur; }
        let x = powu(&gen_of::<F>(size), idx as u64);
        let cx = mul(digest_to_field::<F>(&pf.roots[k]), &inv(x));
        let target = fr.layers[k + 1][idx % h];
        let (here, other) = if idx >= h { (2 * k + 1, 2 * k) } else { (2 * k, 2 * k + 1) };
        // ((v + y) + c (v - y) / x) / 2 = target
        let v = pf.queries[here].value;
        let y = mul(sub(mul(f_u64::<F>(2), &target), &mul(v, &add(F::one(), &cx))), &sub(F::one(), &cx).inverse()?);
        if y == pf.queries[other].value { return None; }
        pf.queries[other].value = y;
        if *own_tree {
            let mut l = fr.layers[k].clone();
            let j = (idx + h) % size;
            l[j] = y;
            pf.queries[other].path = RefTree::new(&l).path(j);
        }
    }
    if let Cheat::FriPos { second, layer, by } = cheat {
        let (fr, pf) = if *second { (&fri2, &mut pf2) } else { (&fri1, &mut pf1) };
        let k = *layer as usize % fr.layers.len();
        let l = &fr.layers[k];
        let h = l.len() / 2;
        if h < 2 { return None; }
        if !l.iter().all(|x| *x == l[0]) { return None; }
        let lo = (pf.queries[2 * k].index + 1 + *by as usize % (h - 1)) % h;
        pf.queries[2 * k] = fr.trees[k].open(l, lo);
        pf.queries[2 * k + 1] = fr.trees[k].open(l, lo + h);
    }

    let mut f_queries: Vec<PQuery<F>> = f_ldes.iter().zip(f_trees.iter()).map(|(v, tr)| tr.open(v, i1)).collect();
    let mut g_query = g_tree.open(&g_lde, i2);
    if let Cheat::OpenPosF { reg, by } = cheat {
        let r = *reg as usize % f_ldes.len();
        let size = n * lde;
        let j = (i1 + 1 + *by as usize % (size - 1)) % size;
        if f_ldes[r][j] != f_ldes[r][i1] { return None; }
        f_queries[r] = f_trees[r].open(&f_ldes[r], j);
    }
    if let Cheat::OpenPosG { by } = cheat {
        let size = m * lde;
        let j = (i2 + 1 + *by as usize % (size - 1)) % size;
        if g_lde[j] != g_lde[i2] { return None; }
        g_query = g_tree.open(&g_lde, j);
    }
    if ood_after {
        // two equations (value of each quotient at its position), linear in the claims of registers that enter
        // constraints linearly: found numerically over pairs of masks
        let want1 = fri1.layers[0][i1];
        let want2 = fri2.layers[0][i2];
        let x1 = powu(&wf, i1 as u64);
        let x2 = powu(&wg, i2 as u64);
        let eqs = |o: &[F]| -> Option<(F, F)> {
            let mut acc = F::zero();
            for ((k, p), (v, a)) in masks.iter().zip(points.iter()).zip(o.iter().zip(alphas.iter())) {
                acc.add_assign(&mul(mul(sub(f_queries[k.0].value, v), a), &sub(x1, p).inverse()?));
            }
            let gz = g_verifier(&props, o)?;
            let h = mul(sub(g_query.value, &gz), &sub(x2, &z).inverse()?);
            Some((sub(acc, &want1), sub(h, &want2)))
        };
        let mut found = None;
        'o: for a in 0..masks.len() {
            for b in 0..masks.len() {
                if a == b { continue; }
                let base = eqs(&oods)?;
                let mut oa = oods.clone(); oa[a].add_assign(&one);
                let mut ob = oods.clone(); ob[b].add_assign(&one);
                let (ea, eb) = (eqs(&oa)?, eqs(&ob)?);
                let (a1, a2) = (sub(ea.0, &base.0), sub(ea.1, &base.1));
                let (b1, b2) = (sub(eb.0, &base.0), sub(eb.1, &base.1));
                let det = sub(mul(a1, &b2), &mul(a2, &b1));
                let di = match det.inverse() { Some(d) => d, None => continue };
                // a1 s + b1 t = -base.0 ; a2 s + b2 t = -base.1
                let (c1, c2) = (neg(base.0), neg(base.1));
                let s = mul(sub(mul(c1, &b2), &mul(c2, &b1)), &di);
                let u = mul(sub(mul(a1, &c2), &mul(a2, &c1)), &di);
                let mut o = oods.clone();
                o[a].add_assign(&s);
                o[b].add_assign(&u);
                if let Some((r1, r2)) = eqs(&o) { if r1.is_zero() && r2.is_zero() { found = Some(o); break 'o; } }
            }
        }
        oods = found?;
    }
    if let Cheat::BoundaryAfter { b } = cheat {
        // the composition is linear in the boundary value: the one that makes it equal to g(z)
        if props.boundary_constraints.is_empty() { return None; }
        let k = *b as usize % props.boundary_constraints.len();
        let v0 = props.boundary_constraints[k].value?;
        let mut p1 = props.clone();
        p1.boundary_constraints[k].value = Some(add(v0, &one));
        let slope = sub(g_verifier(&p1, &oods)?, &gv);
        let d = mul(sub(g_at_z, &gv), &slope.inverse()?);
        props.boundary_constraints[k].value = Some(add(v0, &d));
        if g_at(&props, &ch, &z, &|r, s| lookup(&oods, r, s))? != g_at_z { return None; }
    }
    if let Cheat::ConstantAfter { c } = cheat {
        let k = *c as usize % props.constraints.len();
        let v0 = props.constraints[k].constant_term;
        let mut p1 = props.clone();
        p1.constraints[k].constant_term = add(v0, &one);
        let slope = sub(g_verifier(&p1, &oods)?, &gv);
        let d = mul(sub(g_at_z, &gv), &slope.inverse()?);
        props.constraints[k].constant_term = add(v0, &d);
        if g_at(&props, &ch, &z, &|r, s| lookup(&oods, r, s))? != g_at_z { return None; }
    }
    if let Cheat::Skip { .. } = cheat {
        // domains may be so small that the position of queries comes out the same by chance: then nothing depends on the message
        let (j1, j2) = positions(&props, lde, &f_roots, &g_root, &oods, (*h1_roots.last().unwrap(), &fri1.finals), (*h2_roots.last().unwrap(), &fri2.finals));
        if (j1, j2) == (i1, i2) { return None; }
    }
    let _ = (&mut f_ldes, &mut f_trees, &mut g_lde, &mut g_tree, &mut fri1, &mut fri2);
    if let Some(e) = extra_ood { oods.push(e); }
    Some((PProof { f_at_z_m: oods, f_roots, g_root, f_queries, g_query, h1_roots, h2_roots, fri1: pf1, fri2: pf2 }, props))
}

/// positions of both queries as determined by the messages
pub fn positions<F: PrimeField>(props: &InstanceProperties<F>, lde: usize, f_roots: &[Hash], g_root: &Hash, oods: &[F], h1: (Hash, &[F]), h2: (Hash, &[F])) -> (usize, usize) {
    let mut t = RefTranscript::new();
    commit_statement(&mut t, props);
    for r in f_roots.iter() { t.commit(r); }
    draw_g_challenges::<F>(&mut t, props);
    t.commit(g_root);
    let _: F = t.challenge();
    for o in oods.iter() { t.elem(o); }
    for _ in masks_of(props).iter() { let _: F = t.challenge(); }
    for (root, finals) in [h1, h2] {
        t.commit(&root);
        for c in finals.iter() { t.elem(c); }
    }
    let i1 = challenge_index(&t.challenge_bytes(), column_size(props) * lde, lde);
    let i2 = challenge_index(&t.challenge_bytes(), constraints_size(props) * lde, lde);
    (i1, i2)
}

impl<F: PrimeField> PProof<F> {
    /// positions that a verifier of this statement must ask for
    pub fn positions(&self, props: &InstanceProperties<F>, lde: usize) -> (usize, usize) {
        let last = |r: &Vec<Hash>| r.last().cloned().unwrap_or([0u8; 32]);
        positions(props, lde, &self.f_roots, &self.g_root, &self.f_at_z_m, (last(&self.h1_roots), &self.fri1.finals), (last(&self.h2_roots), &self.fri2.finals))
    }
}

fn eval_cached<F: PrimeField>(ldes: &[Vec<F>], f: &[Vec<F>], k: (usize, usize), i: usize, _size: usize, other: bool, x: &F) -> F {
    if other { horner(&f[k.0], x) } else { ldes[k.0][i] }
}

// ---------------------------------------------------------------------------------------------------------------------
/// One configuration of the protocol for an instance
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PCfg { pub inst: InstSpec, pub lde_log: u32, pub out_log: u32, pub cpus: usize, pub field: u8 }

impl PCfg {
    pub fn lde_out<F: PrimeField>(&self, p: &InstanceProperties<F>) -> (usize, usize) {
        let n = column_size(p);
        let out = 1usize << (self.out_log % log2(n));
        let mut lde = 1usize << self.lde_log;
        if lde * out < 2 { lde = 2; }
        (lde, out)
    }
    /// number of CPUs outside of the region of KF1
    pub fn cpus<F: PrimeField>(&self, p: &InstanceProperties<F>) -> usize {
        let (lde, _) = self.lde_out(p);
        safe_cpus(&[lde, (max_power(p) as usize).next_power_of_two()], self.cpus)
    }
}

pub fn pcfg(c: InstCfg, max_lde_log: u32, fields: u8) -> proptest::strategy::BoxedStrategy<PCfg> {
    use proptest::prelude::*;
    (inst(c), 0..=max_lde_log, prop_oneof![2 => Just(0u32), 1 => 0u32..6], prop_oneof![3 => Just(1usize), 2 => 2usize..=8], 0..fields)
        .prop_map(|(inst, lde_log, out_log, cpus, field)| PCfg { inst, lde_log, out_log, cpus, field }).boxed()
}

/// cells of a trace to be changed
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Break { pub reg: usize, pub row: usize, pub how: u64 }

pub fn breaks() -> proptest::strategy::BoxedStrategy<Vec<Break>> {
    use proptest::prelude::*;
    proptest::collection::vec((prop_oneof![8 => 0usize..8, 1 => 8usize..40], prop_oneof![8 => 0usize..64, 1 => 0usize..1 << 20], any::<u64>()).prop_map(|(reg, row, how)| Break { reg, row, how }), 1..4).boxed()
}

pub fn break_trace<F: PrimeField>(t: &[Vec<F>], b: &[Break]) -> Vec<Vec<F>> {
    let mut t = t.to_vec();
    for x in b {
        let r = x.reg % t.len();
        let i = x.row % t[r].len();
        let before = t[r][i];
        alter_el(&mut t[r][i], x.how);
        if t[r][i] == before { t[r][i].add_assign(&F::one()); }
    }
    t
}
