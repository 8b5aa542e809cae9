use ff::PrimeField;
use hodor::ali::per_register::ALIInstance;
use hodor::arp::*;
use hodor::polynomials::*;
use hodor::transcript::*;
use hodor::verif_hooks::worker_with_cpus;
use hv::air::*;
use hv::proto::*;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { inst: InstSpec, history: Vec<u8>, draws: u8, cpus: usize, x: u64, twice: bool, field: u8 }

fn run<F: PrimeField>(c: &Case) -> Res {
    let i = c.inst.build::<F>();
    let p = &i.props;
    let (n, m) = (column_size(p), constraints_size(p));
    // the coset used for division must not meet the column domain
    if log2(m) >= F::S { return Ok(Out::trivial().l("domain too large for the field")); }
    if let Some(w) = violated(p, &i.trace) { return Err(format!("harness: planted trace violates {}", w)); }
    let f = interp_trace(p, &i.trace);
    let mut t = RefTranscript::new();
    let mut lt = Blake2sTranscript::<F>::new();
    t.commit(&c.history);
    lt.commit_bytes(&c.history);
    for _ in 0..c.draws % 4 { t.challenge::<F>(); lt.get_challenge(); }
    let cpus = if kf1_region(m / n, c.cpus) { 1 } else { c.cpus };
    let (g, after) = guarded(|| {
        let w = worker_with_cpus(cpus);
        let e = |e: hodor::SynthesisError| format!("{}", e);
        let arp = ARPInstance::<F, PerRegisterARP>::from_instance(p.clone(), &w).map_err(e)?;
        let ali = ALIInstance::from_arp(arp, &w).map_err(e)?;
        let polys = f.iter().map(|c| Polynomial::from_coeffs(c.clone()).map_err(e)).collect::<Result<Vec<_>, _>>()?;
        if c.twice { let mut other = Blake2sTranscript::<F>::new(); ali.calculate_g(&mut other, polys.clone(), &w).map_err(e)?; }
        let g = ali.calculate_g(&mut lt, polys, &w).map_err(e)?;
        Ok((g.into_coeffs(), lt.get_challenge_bytes()))
    })?;
    let ch = draw_g_challenges(&mut t, p);
    ensure!(after == t.challenge_bytes().to_vec(), "other challenges were drawn than a pair for every constraint");
    let want = g_poly(p, &ch, &f);
    ensure!(g.len() == m, "composition has {} coefficients, constraint domain {}", g.len(), m);
    // exact: as many points as coefficients agree, degree is below that number
    if let Some(k) = (0..m).find(|k| g[*k] != want[*k]) { return Err(format!("coefficient {} of the composition is wrong (rows {} domain {} cpus {} constraints {} boundary {})", k, p.num_rows, m, cpus, p.constraints.len(), p.boundary_constraints.len())); }
    // degree: every quotient raised to the common maximum
    let top = max_power(p) as usize;
    let bound = top * (n - 1) + if top > 0 { top } else { 1 };
    ensure!(degree_plus_one(&g) <= bound.min(m), "degree of the composition {} of {}", degree_plus_one(&g), m);
    // a point outside of everything
    let w = gen_of::<F>(n);
    let mut outside = false;
    for k in 0..3u64 {
        let x: F = el(mix(c.x ^ k) | 8);
        if let Some(v) = g_at(p, &ch, &x, &|r, s| horner(&f[r], &mul(x, &powu(&w, s as u64)))) {
            outside = true;
            ensure!(horner(&g, &x) == v, "value of the composition at a point outside of the domain is not what the constraints give there");
        }
    }
    let degs: std::collections::BTreeSet<u64> = p.constraints.iter().map(|c| c.degree).collect();
    let dens: std::collections::BTreeSet<(usize, usize)> = p.constraints.iter().map(|c| dense_of(c)).collect();
    Ok(Out::when(g.iter().any(|x| !x.is_zero()) && outside).lif(degs.len() > 1, "several degrees").lif(dens.len() > 1, "several densities").lif(p.num_rows != n, "rows not a power of two").lif(cpus > 1, "several cpus")
        .lif(!p.boundary_constraints.is_empty(), "boundary constraints").lif(!top.is_power_of_two(), "degree not a power of two"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VCase { p: PCfg, seed: u64 }

/// the verifier takes the value of the reference composition for its own
fn verifier<F: PrimeField>(c: &VCase) -> Res {
    let i = c.p.inst.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    let honest = match ref_prove(&RefInput { props: &i.props, good: &i.trace, bad: None }, &RefCfg { lde, out }, &Cheat::Honest) { Some((p, _)) => p, None => return Ok(Out::trivial()) };
    let r = with_cpus(1, || lib_verify(&i.props, lde, &honest));
    ensure!(accepted(&r), "a proof made with the reference composition is not accepted: {:?}", r);
    Ok(Out::nt())
}

fn main() {
    let mut c = Ctx::new("C15", "composition is not zero and is compared at points outside of the domains");
    c.assume("worker sizes outside of the recorded finding KF1");
    let cfg = InstCfg { max_rows: 24, max_regs: 5, max_degree: 6, max_boundary: 6 };
    c.sub("composition", c.n(3400, 400000), move || (inst(cfg), vec(any::<u8>(), 0..12), any::<u8>(), prop_oneof![6 => Just(1usize), 2 => 2usize..=9], any::<u64>(), prop::bool::weighted(0.2), any::<u8>())
        .prop_map(|(inst, history, draws, cpus, x, twice, field)| Case { inst, history, draws, cpus, x, twice, field }).boxed(),
        |x| by_field!(x.field, run, x; Gold, F252, F17, Baby, F255, F128, F193));
    let large = InstCfg { max_rows: 300, max_regs: 12, max_degree: 20, max_boundary: 12 };
    c.sub("large compositions", c.n(100, 6000), move || (inst(large), vec(any::<u8>(), 0..4), any::<u8>(), prop_oneof![6 => Just(1usize), 2 => 2usize..=9], any::<u64>(), Just(false), any::<u8>())
        .prop_map(|(inst, history, draws, cpus, x, twice, field)| Case { inst, history, draws, cpus, x, twice, field }).boxed(),
        |x| by_field!(x.field, run, x; Gold, F252, F255, F128, F193));
    let small = InstCfg { max_rows: 12, max_regs: 3, max_degree: 4, max_boundary: 3 };
    c.sub("verifier", c.n(250, 10000), move || (pcfg(small, 2, 2), any::<u64>()).prop_map(|(p, seed)| VCase { p, seed }).boxed(), |x| match x.p.field { 0 => verifier::<Gold>(x), _ => verifier::<F252>(x) });
    c.finish();
}
