use ff::{Field, PrimeField};
use hodor::ali::per_register::ALIInstance;
use hodor::arp::*;
use hodor::fri::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hodor::precomputations::PrecomputedOmegas;
use hodor::transcript::*;
use hodor::utils::poly::*;
use hodor::verif_hooks::*;
use hv::air::*;
use hv::fri_ref::*;
use hv::proto::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Part { elements: usize, cpus: usize }

/// the way the library splits work: chunks of the size it is told
fn partition(c: &Part) -> Res {
    let w = worker_with_cpus(c.cpus);
    ensure!(w.num_cpus() as usize == c.cpus, "number of cpus");
    ensure!(w.log_num_cpus() == 63 - (c.cpus as u64).leading_zeros(), "logarithm {} of {} cpus", w.log_num_cpus(), c.cpus);
    let mut v: Vec<AtomicU32> = (0..c.elements).map(|_| AtomicU32::new(0)).collect();
    let threads = AtomicU32::new(0);
    let size = w.get_chunk_size(c.elements);
    ensure!(size >= 1, "chunk of {} elements", size);
    let (given, r) = guarded(|| Ok(w.scope(c.elements, |scope, chunk| {
        for (i, p) in v.chunks_mut(chunk).enumerate() {
            let threads = &threads;
            scope.spawn(move |_| {
                threads.fetch_add(1, Ordering::SeqCst);
                for (j, x) in p.iter_mut().enumerate() { x.fetch_add((i * chunk + j + 1) as u32, Ordering::SeqCst); }
            });
        }
        (chunk, 42)
    })))?;
    ensure!(r == 42, "result of the closure is lost");
    ensure!(given == size, "chunk given to the closure is {}, reported {}", given, size);
    for (i, x) in v.iter().enumerate() { ensure!(x.load(Ordering::SeqCst) == i as u32 + 1, "element {} of {} was not processed exactly once at its place", i, c.elements); }
    let t = threads.load(Ordering::SeqCst) as usize;
    ensure!(t == w.get_num_spawned_threads(c.elements), "{} threads were necessary for {} elements on {} cpus, reported {}", t, c.elements, c.cpus, w.get_num_spawned_threads(c.elements));
    Ok(Out::when(c.elements > 1 && c.cpus > 1).lif(c.elements < c.cpus, "more cpus than elements").lif(c.elements % c.cpus != 0, "does not divide"))
}

fn sched<R>(seed: u64, f: impl FnOnce() -> R) -> R { if seed == 0 { f() } else { hv::sched::with_schedule(seed, f) } }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proof { p: PCfg, cpus: Vec<usize>, sched: u64 }

/// whole proofs and verdicts
fn proofs<F: PrimeField>(c: &Proof) -> Res {
    let i = c.p.inst.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    let base = with_cpus(1, || guarded(|| lib_prove(&i.props, &i.trace, lde, out)))?;
    let mut o = Out::trivial();
    let again = with_cpus(1, || guarded(|| lib_prove(&i.props, &i.trace, lde, out)))?;
    ensure!(base == again, "the same proof made twice differs");
    for k in c.cpus.iter() {
        let k = safe_cpus(&[lde, (max_power(&i.props) as usize).next_power_of_two()], *k);
        if k == 1 { continue; }
        let p = with_cpus(k, || sched(c.sched, || guarded(|| lib_prove(&i.props, &i.trace, lde, out))))?;
        ensure!(p == base, "proof on {} cpus differs from the one on 1 cpu (rows {} blow-up {} output {})", k, i.props.num_rows, lde, out);
        let r = with_cpus(k, || sched(c.sched, || lib_verify(&i.props, lde, &base)));
        ensure!(accepted(&r), "verifier on {} cpus does not accept: {:?}", k, r);
        o.nontrivial = true;
        o = o.l(format!("{} cpus", k));
    }
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts { inst: InstSpec, lde_log: u32, out_log: u32, cpus: usize, satisfying: bool, seed: u64, sched: u64, field: u8 }

/// parts of the protocol for worker sizes other than those of the machine
fn parts<F: PrimeField>(c: &Parts) -> Res {
    let i = c.inst.build::<F>();
    let p = &i.props;
    let (n, m) = (column_size(p), constraints_size(p));
    let lde = 1usize << c.lde_log;
    let out = 1usize << (c.out_log % log2(n));
    if lde * out < 2 { return Ok(Out::trivial()); }
    if kf1_region(lde, c.cpus) || kf1_region(m / n, c.cpus) { return Ok(Out::trivial().l("region of KF1")); }
    let trace: Vec<Vec<F>> = if c.satisfying { i.trace.clone() } else { (0..p.num_registers).map(|r| VecSpec { len: p.num_rows, kind: 0, seed: c.seed ^ r as u64 }.expand()).collect() };
    let all = |cpus: usize| guarded(|| {
        let w = worker_with_cpus(cpus);
        let e = |e: hodor::SynthesisError| format!("{}", e);
        let mut acc: Vec<Vec<F>> = vec![];
        let mut hashes: Vec<Vec<u8>> = vec![];
        let arp = ARPInstance::<F, PerRegisterARP>::from_instance(p.clone(), &w).map_err(e)?;
        let polys = arp.calculate_witness_polys(trace.clone(), &w).map_err(e)?;
        for q in polys.iter() { acc.push(q.as_ref().to_vec()); }
        let ldes = polys.iter().map(|q| q.clone().lde(&w, lde).map_err(e)).collect::<Result<Vec<_>, _>>()?;
        for q in ldes.iter() { acc.push(q.as_ref().to_vec()); }
        let ali = ALIInstance::from_arp(arp, &w).map_err(e)?;
        for d in ali.constraint_divisors.values() { acc.push(d.as_ref().to_vec()); }
        for d in ali.boundary_constraint_divisors.values() { acc.push(d.as_ref().to_vec()); }
        acc.push(ali.precomputations.coset.clone());
        let mut t = Blake2sTranscript::<F>::new();
        let g = ali.calculate_g(&mut t, polys.clone(), &w).map_err(e)?;
        acc.push(g.as_ref().to_vec());
        let gl = g.clone().lde(&w, lde).map_err(e)?;
        acc.push(gl.as_ref().to_vec());
        let (h1, h2, fz, gz) = ali.calculate_deep(&polys, &ldes, &g, &gl, &mut t, &w).map_err(e)?;
        hashes.push(t.get_challenge_bytes());
        for h in [&h1, &h2] {
            for through in [false, true] {
                let proto = if through { Fri::<F>::proof_from_lde_through_coefficients(h.clone(), lde, out, &w).map_err(e)? } else { <Fri<F> as FriIop<F>>::proof_from_lde(h, lde, out, &w).map_err(e)? };
                for r in proto.get_roots() { hashes.push(r.to_vec()); }
                acc.push(proto.get_final_coefficients());
            }
            hashes.push(<Iop<F> as IOP<F>>::create(h.as_ref()).get_root().to_vec());
        }
        acc.push(h1.into_coeffs());
        acc.push(h2.into_coeffs());
        acc.push(fz);
        acc.push(vec![gz]);
        let d = hodor::domains::Domain::<F>::new_for_size(n as u64).map_err(e)?;
        acc.push(PrecomputedOmegas::<F>::new_for_domain(&d, &w).omegas_inv);
        Ok((acc, hashes))
    });
    let a = with_cpus(1, || all(1))?;
    let b = with_cpus(if c.seed % 2 == 0 { 1 } else { c.cpus }, || sched(c.sched, || all(c.cpus)))?;
    ensure!(a.0.len() == b.0.len(), "numbers of results");
    for (k, (x, y)) in a.0.iter().zip(b.0.iter()).enumerate() {
        ensure!(x.len() == y.len(), "result {}: lengths {} and {}", k, x.len(), y.len());
        if let Some(j) = (0..x.len()).find(|j| x[*j] != y[*j]) { return Err(format!("result {} at {} of {} on {} cpus is not that on 1 cpu", k, j, x.len(), c.cpus)); }
    }
    ensure!(a.1 == b.1, "roots or challenges on {} cpus are not those on 1 cpu", c.cpus);
    Ok(Out::when(c.cpus > 1).lif(c.cpus > n, "more cpus than rows").lif(!c.cpus.is_power_of_two(), "cpus not a power of two"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ops { op: u8, a: VecSpec, b: u64, x: u64, cpus: usize, sched: u64, field: u8 }

const OPS: u8 = 20;

/// operations on polynomials
fn ops<F: PrimeField>(c: &Ops) -> Res {
    let mut a: Vec<F> = c.a.expand();
    if c.op % OPS == 6 || c.op % OPS == 7 { for (i, x) in a.iter_mut().enumerate() { if x.is_zero() && c.b % 3 != 0 { *x = f_u64(i as u64 + 1); } } }
    let b: Vec<F> = VecSpec { len: c.a.len, kind: 0, seed: c.b }.expand();
    let x: F = el(c.x);
    let lde = 1usize << (c.b % 5);
    if (12..=15).contains(&(c.op % OPS)) && (a.len() * lde) as u64 > 1u64 << F::S.min(40) { return Ok(Out::trivial().l("no domain of that size")); }
    if c.op % OPS == 18 && a.len() < 2 { return Ok(Out::trivial()); }
    if (12..=15).contains(&(c.op % OPS)) && kf1_region(lde, c.cpus) { return Ok(Out::trivial().l("region of KF1")); }
    let run = |cpus: usize| guarded(|| {
        let w = worker_with_cpus(cpus);
        let e = |e: hodor::SynthesisError| format!("{}", e);
        let pc = || Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(e);
        let pv = || Polynomial::<F, Values>::from_values(a.clone()).map_err(e);
        let ov = || Polynomial::<F, Values>::from_values(b.clone()).map_err(e);
        Ok(match c.op % OPS {
            0 => pc()?.fft(&w).into_coeffs(),
            1 => pv()?.ifft(&w).into_coeffs(),
            2 => pc()?.coset_fft(&w).into_coeffs(),
            3 => pv()?.icoset_fft(&w).into_coeffs(),
            4 => vec![pc()?.evaluate_at(&w, x)],
            5 => { let mut p = pv()?; p.pow(&w, c.b % 40); p.into_coeffs() }
            6 => { let mut p = pv()?; let r = p.batch_inversion(&w).is_ok(); let mut v = p.into_coeffs(); v.push(if r { F::one() } else { F::zero() }); v }
            7 => { let mut p = pv()?; p.mul_assign(&w, &ov()?); p.add_assign(&w, &ov()?); p.sub_assign(&w, &ov()?); p.scale(&w, x); p.into_coeffs() }
            8 => { let mut p = pc()?; p.distribute_powers(&w, x); p.into_coeffs() }
            9 => { let mut p = pv()?; p.add_constant(&w, &x);  p.negate(&w); p.square(&w); p.into_coeffs() }
            10 => { let mut p = pc()?; p.add_assign_scaled(&w, &Polynomial::from_coeffs(b.clone()).map_err(e)?, &x); p.into_coeffs() }
            11 => { let mut p = Polynomial::<F, Coefficients>::new_for_size(2).map_err(e)?; p.as_mut()[0] = x; p.as_mut()[1] = b[0]; p.coset_evaluate_at_domain_for_degree_one(&w, a.len().next_power_of_two() as u64).map_err(e)?.into_coeffs() }
            12 => pc()?.lde(&w, lde).map_err(e)?.into_coeffs(),
            13 => pc()?.coset_lde(&w, lde).map_err(e)?.into_coeffs(),
            14 => pc()?.filtering_lde(&w, lde).map_err(e)?.into_coeffs(),
            15 => pc()?.coset_filtering_lde(&w, lde).map_err(e)?.into_coeffs(),
            // the others make workers of their own, with as many cpus as there are
            16 => with_cpus(cpus, || vec![evaluate_at_consequitive_powers(&a, b[0], x)]),
            17 => with_cpus(cpus, || { let mut v = a.clone(); mul_polynomial_by_scalar(&mut v, x); mul_add_polynomials(&mut v, &b, x); v }),
            18 => { let t = with_cpus(cpus, || <Iop<F> as IOP<F>>::create(&a)); let q = t.query(c.b as usize % a.len(), &a); digest_list(&t.get_root(), &q.path()) }
            _ => Polynomial::<F, Coefficients>::from_roots(a[..a.len().min(c.cpus)].to_vec(), &w).map_err(e)?.into_coeffs(),
        })
    });
    let one = run(1)?;
    let k = sched(c.sched, || run(c.cpus))?;
    ensure!(one == k, "operation {} on {} elements: result on {} cpus is not that on 1 cpu", c.op % OPS, c.a.len, c.cpus);
    ensure!(sched(c.sched / 3, || run(c.cpus))? == k, "operation {}: repeated result differs", c.op % OPS);
    Ok(Out::when(c.cpus > 1 && a.iter().any(|x| !x.is_zero())))
}

fn digest_list<F: PrimeField>(root: &[u8; 32], path: &[[u8; 32]]) -> Vec<F> {
    root.iter().chain(path.iter().flatten()).map(|b| f_u64(*b as u64)).collect()
}

/// threads of some runs are delayed (see sched.rs)
fn schedule() -> BoxedStrategy<u64> { prop_oneof![1 => Just(0u64), 2 => 1u64..] .boxed() }

fn main() {
    let mut c = Ctx::new("C19", "more than one cpu is used (and more than one element)");
    c.assume("interleavings within one computation are those that arise from random delays at the start of threads; work items share no mutable data");
    c.one("every small partition", || {
        for cpus in 1..=12 { for elements in 0..=48 { partition(&Part { elements, cpus })?; } }
        Ok(Out::nt())
    });
    c.sub("partition", c.n(6400, 300000), || (prop_oneof![0usize..64, 0usize..3000], prop_oneof![1usize..10, 1usize..40]).prop_map(|(elements, cpus)| Part { elements, cpus }).boxed(), partition);
    let cfg = InstCfg { max_rows: 24, max_regs: 3, max_degree: 4, max_boundary: 3 };
    c.sub_t("proofs", c.n(96, 8000), 4, move || (pcfg(cfg, 3, 2), proptest::collection::vec(2usize..=8, 1..4), schedule()).prop_map(|(p, cpus, sched)| Proof { p, cpus, sched }).boxed(), |x| match x.p.field { 0 => proofs::<Gold>(x), _ => proofs::<F252>(x) });
    c.sub("parts", c.n(480, 50000), move || (inst(cfg), 0u32..4, 0u32..5, 2usize..=17, any::<bool>(), any::<u64>(), schedule(), any::<u8>()).prop_map(|(inst, lde_log, out_log, cpus, satisfying, seed, sched, field)| Parts { inst, lde_log, out_log, cpus, satisfying, seed, sched, field }).boxed(),
        |x| by_field!(x.field, parts, x; Gold, F252, F255));
    c.sub("operations", c.n(6400, 500000), || (any::<u8>(), vecspec_len(pow2(0, 8)), any::<u64>(), eseed(), prop_oneof![2usize..=9, 2usize..=24], schedule(), any::<u8>()).prop_map(|(op, a, b, x, cpus, sched, field)| Ops { op, a, b, x, cpus, sched, field }).boxed(),
        |x| by_field!(x.field, ops, x; Gold, F252, F257, F255));
    c.one("orders of threads", || {
        // the schedules do change the order in which pieces of work are done
        let mut orders = std::collections::BTreeSet::new();
        for seed in 1..40u64 {
            let order = std::sync::Mutex::new(vec![]);
            sched(seed, || std::thread::scope(|s| { for i in 0..5 { let order = &order; s.spawn(move || order.lock().unwrap().push(i)); } }));
            orders.insert(order.into_inner().unwrap());
        }
        Ok(Out::when(orders.len() > 3).l(format!("{} orders of 5 threads in 39 schedules", orders.len())))
    });
    c.one("known finding KF1", || {
        let a: Vec<Gold> = VecSpec { len: 8, kind: 0, seed: 9 }.expand();
        let f = |k: usize| guarded(|| Polynomial::<Gold, Coefficients>::from_coeffs(a.clone()).and_then(|p| p.lde(&worker_with_cpus(k), 16)).map(|p| p.into_coeffs()).map_err(|e| format!("{}", e)));
        let (one, two) = (f(1)?, f(2)?);
        if one == two { return Ok(Out::nt().l("KF1 does not occur")); }
        let d = "the extension by 16 of 8 coefficients on 2 CPUs differs from that on 1 CPU".to_string();
        if two == known_wrong(&a, 16, 2, &Gold::one()) && one == eval_domain(&a, 128, &Gold::one()) { return Ok(Out { nontrivial: true, labels: vec![], known: Some(("KF1".into(), d)) }); }
        Err(d)
    });
    c.finish();
}
