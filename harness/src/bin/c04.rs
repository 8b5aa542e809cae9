use ff::PrimeField;
use hv::air::*;
use hv::fri_ref::*;
use hv::proto::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// a verification takes milliseconds
const TIMEOUT: u64 = 30;

fn probe<F: PrimeField>(props: &hodor::arp::InstanceProperties<F>, lde: usize, q: &PProof<F>) -> Result<Result<bool, String>, String> {
    let (p2, q2) = (props.clone(), q.clone());
    let r = match with_timeout(TIMEOUT, move || lib_verify(&p2, lde, &q2)) { Some(r) => r, None => return Err("verification does not terminate in time".into()) };
    if panicked(&r) { return Err(format!("verifier panics: {:?}", r)); }
    Ok(r)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near { p: PCfg, muts: Vec<Vec<PMut>> }

fn near<F: PrimeField>(c: &Near) -> Res {
    let i = c.p.inst.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    with_cpus(1, || {
        let p = guarded(|| lib_prove(&i.props, &i.trace, lde, out))?;
        let mut o = Out::trivial();
        for ms in c.muts.iter() {
            let mut q = p.clone();
            for m in ms { apply_proof(&mut q, m); }
            if q == p { continue; }
            let r = probe(&i.props, lde, &q).map_err(|e| format!("{} after {:?}", e, ms))?;
            ensure!(!accepted(&r), "positive answer for a malformed proof: {:?}", ms);
            o.nontrivial = true;
            o.labels.push(if r.is_ok() { "negative answer" } else { "error" }.into());
        }
        Ok(o)
    })
}

/// Proofs out of nothing
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far { inst: InstSpec, lde_log: u32, oods: u64, f_roots: u64, f_queries: Vec<(u64, u64, u64)>, g_query: (u64, u64, u64), h_roots: (u64, u64), fri: Vec<FarFri>, right: u64, seed: u64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarFri { queries: Vec<(u64, u64, u64)>, roots: u64, finals: u64, init: u64, out: u64, lde: u64 }

fn size_of(code: u64) -> usize { let mut x = 1usize; alter_usize(&mut x, code); x }

fn far<F: PrimeField>(c: &Far) -> Res {
    let i = c.inst.build::<F>();
    let lde = 1usize << c.lde_log;
    let n = column_size(&i.props);
    let m = constraints_size(&i.props);
    let cnt = |x: u64| (x % 12) as usize;
    let right = |k: u32| (c.right >> k) & 1 == 1;
    let els = |s: u64, k: usize| -> Vec<F> { (0..k).map(|j| el(mix(c.seed ^ s ^ j as u64))).collect() };
    let hs = |s: u64, k: usize| -> Vec<Hash> { (0..k).map(|j| fresh_hash(mix(c.seed ^ s ^ j as u64))).collect() };
    let q = |x: &(u64, u64, u64)| PQuery::<F> { index: size_of(x.0), value: el(x.1), path: hs(x.2, cnt(x.2)) };
    let masks = masks_of(&i.props).len();
    let fri = |k: usize, deg: usize, sh: u32| -> PFri<F> {
        let f = &c.fri[k];
        let init = if right(sh) { deg } else { size_of(f.init) };
        let l = if right(sh + 1) { lde } else { size_of(f.lde) };
        let out = if right(sh + 2) { 1usize << (f.out % 4) } else { size_of(f.out) };
        let steps = if init.is_power_of_two() && out.is_power_of_two() && out < init { (init / out).trailing_zeros() as usize } else { cnt(f.roots) };
        let roots = if right(sh + 3) { steps + 1 } else { cnt(f.roots) };
        let mut queries: Vec<PQuery<F>> = f.queries.iter().map(q).collect();
        if right(sh + 4) && !queries.is_empty() { let base = queries.clone(); queries = (0..2 * roots).map(|j| base[j % base.len()].clone()).collect(); }
        let finals = if right(sh + 5) && out < 4096 { out } else { cnt(f.finals) };
        PFri { queries, roots: hs(7 + k as u64, roots), finals: els(9, finals), init, out, lde: l }
    };
    let fri1 = fri(0, n, 8);
    let fri2 = fri(1, m, 16);
    let p = PProof {
        f_at_z_m: els(1, if right(0) { masks } else { cnt(c.oods) }),
        f_roots: hs(2, if right(1) { i.props.num_registers } else { cnt(c.f_roots) }),
        g_root: fresh_hash(c.seed),
        f_queries: { let mut v: Vec<_> = c.f_queries.iter().map(q).collect(); if right(2) && !v.is_empty() { let b = v.clone(); v = (0..i.props.num_registers).map(|j| b[j % b.len()].clone()).collect(); } v },
        g_query: q(&c.g_query),
        h1_roots: if right(3) { fri1.roots.clone() } else { hs(3, cnt(c.h_roots.0)) },
        h2_roots: if right(4) { fri2.roots.clone() } else { hs(4, cnt(c.h_roots.1)) },
        fri1, fri2,
    };
    let r = probe(&i.props, lde, &p)?;
    ensure!(!accepted(&r), "positive answer for a proof out of nothing");
    // and each of the two FRI proofs on its own
    let mut o = Out::nt().l(match &r { Ok(_) => "negative answer".to_string(), Err(m) => m.split(|c: char| c.is_numeric()).next().unwrap().chars().take(60).collect() });
    for f in [&p.fri1, &p.fri2] {
        for idx in [c.seed as usize % (n * lde), 1, 0, size_of(c.oods), size_of(c.f_roots)] {
            let f2 = f.clone();
            let e: F = el(c.seed);
            let r = with_timeout(TIMEOUT, move || guarded(|| Fri::<F>::verify_proof_queries(&f2.to_lib(), idx, 2, e).map_err(|e| format!("{}", e))));
            match r {
                None => return Err("FRI verification does not terminate in time".into()),
                Some(r) => { ensure!(!panicked(&r), "FRI verifier panics for index {}: {:?}", idx, r); ensure!(!accepted(&r), "FRI proof out of nothing is accepted"); if r.is_ok() { o.labels.push("FRI: negative answer".into()); } }
            }
        }
    }
    Ok(o)
}

fn main() {
    let c = Ctx::new("C04", "the proof given to the verifier differs from a valid one");
    let cfg = InstCfg { max_rows: 20, max_regs: 3, max_degree: 4, max_boundary: 3 };
    c.sub("near valid", c.n(2400, 300000), move || (pcfg(cfg, 3, 2), vec(vec(pmut(), 1..7), 1..24)).prop_map(|(p, muts)| Near { p, muts }).boxed(),
        |x| match x.p.field { 0 => near::<Gold>(x), _ => near::<F252>(x) });
    let wide = InstCfg { max_rows: 70, max_regs: 9, max_degree: 9, max_boundary: 8 };
    c.sub("near valid, larger", c.n(180, 40000), move || (pcfg(wide, 4, 2), vec(vec(pmut(), 1..7), 1..40)).prop_map(|(p, muts)| Near { p, muts }).boxed(),
        |x| match x.p.field { 0 => near::<Gold>(x), _ => near::<F252>(x) });
    let s = any::<u64>;
    let code = || prop_oneof![any::<u64>(), (0u64..64, 0u64..16).prop_map(|(k, h)| k * 16 + h)];
    let q = move || (code(), s(), s());
    let ff = move || (vec(q(), 0..6), s(), s(), code(), code(), code()).prop_map(|(queries, roots, finals, init, out, lde)| FarFri { queries, roots, finals, init, out, lde });
    c.sub("out of nothing", c.n(60000, 6000000), move || (inst(cfg), 0u32..4, (code(), code()), vec(q(), 0..5), q(), (s(), s()), vec(ff(), 2), prop_oneof![Just(u64::MAX), any::<u64>(), (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a | b)], s())
        .prop_map(|(inst, lde_log, (oods, f_roots), f_queries, g_query, h_roots, fri, right, seed)| Far { inst, lde_log, oods, f_roots, f_queries, g_query, h_roots, fri, right, seed }).boxed(),
        |x| if x.seed % 2 == 0 { far::<Gold>(x) } else { far::<F252>(x) });
    c.finish();
}
