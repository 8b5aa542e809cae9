use ff::PrimeField;
use hv::air::*;
use hv::proto::*;
use hv::sched::with_schedule;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// prove a trace with the prover of this instance: satisfying, broken, of a wrong shape
    Prove { which: u8, brk: Vec<Break> }, Shape { which: u8, how: u8 },
    /// verify a proof of the pool, as it is or altered, possibly with the verifier of the other instance
    Verify { proof: u8, by: u8 }, Altered { proof: u8, by: u8, muts: Vec<PMut> },
    /// several verifications at the same time
    Together { by: u8, proofs: Vec<u8>, sched: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { a: PCfg, b: PCfg, same: bool, steps: Vec<Step> }

/// whether a verifier may be shared by threads: then it must stand it
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Sync> Probe<T> { const SHARED: bool = true; }
trait NotSync { const SHARED: bool = false; }
impl<T> NotSync for Probe<T> {}
struct Lend<'a, T>(&'a T);
unsafe impl<'a, T> Send for Lend<'a, T> {}
impl<'a, T> Lend<'a, T> { fn get(self) -> &'a T { self.0 } }

/// objects that live through a history against fresh ones for every step
fn run<F: PrimeField>(c: &Case, shared: bool) -> Res {
    let mut cb = c.b.clone();
    // the same statement up to the values, so that only they tell instances apart
    if c.same { cb.inst = c.a.inst.clone(); cb.inst.seed = c.b.inst.seed; cb.lde_log = c.a.lde_log; cb.out_log = c.a.out_log; }
    let insts = [c.a.inst.build::<F>(), cb.inst.build::<F>()];
    let cfg = [c.a.lde_out(&insts[0].props), cb.lde_out(&insts[1].props)];
    with_cpus(1, || {
        let e = |e: hodor::SynthesisError| format!("{}", e);
        let (mut provers, mut verifiers, mut pool) = (vec![], vec![], vec![]);
        for k in 0..2 {
            provers.push(guarded(|| LibProver::<F>::new(insts[k].props.clone(), cfg[k].0, cfg[k].1).map_err(e))?);
            verifiers.push(guarded(|| LibVerifier::<F>::new(insts[k].props.clone(), cfg[k].0).map_err(e))?);
            pool.push((k, guarded(|| lib_prove(&insts[k].props, &insts[k].trace, cfg[k].0, cfg[k].1))?));
        }
        let fresh = |by: usize, p: &PProof<F>| lib_verify(&insts[by].props, cfg[by].0, p);
        let same = |a: &Result<bool, String>, b: &Result<bool, String>| accepted(a) == accepted(b) && panicked(a) == panicked(b) && a.is_ok() == b.is_ok();
        let old = |by: usize, p: &PProof<F>| guarded(|| verifiers[by].verify(&p.to_lib()).map_err(|x| format!("verify: {}", x)));
        let mut o = Out::trivial();
        let (mut rejected, mut again) = (false, false);
        for (k, s) in c.steps.iter().enumerate() {
            match s {
                Step::Prove { which, .. } | Step::Shape { which, .. } => {
                    let w = *which as usize % 2;
                    let t = match s {
                        Step::Prove { brk, .. } => break_trace(&insts[w].trace, brk),
                        Step::Shape { how, .. } => { let mut t = insts[w].trace.clone(); match how % 4 { 0 => { t.pop(); } 1 => t.push(t[0].clone()), 2 => { for col in t.iter_mut() { col.pop(); } } _ => t.clear() } t }
                        _ => unreachable!(),
                    };
                    let f = guarded(|| lib_prove(&insts[w].props, &t, cfg[w].0, cfg[w].1));
                    let g = guarded(|| provers[w].prove(t.clone()).map(|p| PProof::from_lib(&p)).map_err(e));
                    match (f, g) {
                        (Ok(x), Ok(y)) => { ensure!(x == y, "step {}: a prover that was used before makes another proof than a new one", k); pool.push((w, y)); }
                        (Err(_), Err(_)) => o = o.l("prover refused"),
                        (x, y) => return Err(format!("step {}: a prover that was used before {}, a new one {}", k, if y.is_ok() { "makes a proof" } else { "fails" }, if x.is_ok() { "makes one" } else { "fails" })),
                    }
                }
                Step::Verify { proof, by } => {
                    let (p, by) = (&pool[*proof as usize % pool.len()], *by as usize % 2);
                    let (f, g) = (fresh(by, &p.1), old(by, &p.1));
                    ensure!(same(&f, &g), "step {}: verdict of a verifier that was used before is {:?}, of a new one {:?}", k, g, f);
                    if !accepted(&g) { rejected = true; } else if rejected { again = true; }
                }
                Step::Altered { proof, by, muts } => {
                    let (mut p, by) = (pool[*proof as usize % pool.len()].1.clone(), *by as usize % 2);
                    for m in muts.iter() { apply_proof(&mut p, m); }
                    let (f, g) = (fresh(by, &p), old(by, &p));
                    ensure!(same(&f, &g), "step {}: verdict on an altered proof of a verifier that was used before is {:?}, of a new one {:?}", k, g, f);
                    if !accepted(&g) { rejected = true; }
                }
                Step::Together { .. } if !shared => o = o.l("verifiers cannot be shared by threads"),
                Step::Together { by, proofs, sched } => {
                    let by = *by as usize % 2;
                    let sel: Vec<&PProof<F>> = proofs.iter().map(|i| &pool[*i as usize % pool.len()].1).collect();
                    let want: Vec<_> = sel.iter().map(|p| fresh(by, p)).collect();
                    let old = &old;
                    let got: Vec<_> = with_schedule(*sched, || std::thread::scope(|sc| {
                        let h: Vec<_> = sel.iter().map(|p| { let (f, p) = (Lend(old), Lend(*p)); sc.spawn(move || { let (f, p) = (f.get(), p.get()); f(by, p) }) }).collect();
                        h.into_iter().map(|x| x.join().unwrap_or(Err("panic".into()))).collect()
                    }));
                    for (j, (f, g)) in want.iter().zip(got.iter()).enumerate() { ensure!(same(f, g), "step {}: verdict {} of a verifier used by several threads is {:?}, of a new one {:?}", k, j, g, f); }
                    o = o.l("together");
                }
            }
        }
        for (by, p) in pool.iter().take(2) { let g = old(*by, p); ensure!(accepted(&g), "after the history the proof of a true statement is not accepted any more: {:?}", g); }
        o.nontrivial = rejected;
        Ok(o.lif(again, "accepted after a rejection").lif(c.same, "same shape"))
    })
}

fn main() {
    let c = Ctx::new("C27", "at least one verification within the history was negative");
    let cfg = InstCfg { max_rows: 14, max_regs: 3, max_degree: 3, max_boundary: 3 };
    let b = any::<u8>;
    c.sub("histories", c.n(2700, 240000), move || (pcfg(cfg, 3, 2), pcfg(cfg, 3, 2), any::<bool>(), vec(prop_oneof![
        2 => (b(), breaks()).prop_map(|(which, brk)| Step::Prove { which, brk }),
        1 => (b(), b()).prop_map(|(which, how)| Step::Shape { which, how }),
        5 => (b(), b()).prop_map(|(proof, by)| Step::Verify { proof, by }),
        4 => (b(), b(), vec(pmut(), 1..3)).prop_map(|(proof, by, muts)| Step::Altered { proof, by, muts }),
        1 => (b(), vec(b(), 2..5), any::<u64>()).prop_map(|(by, proofs, sched)| Step::Together { by, proofs, sched }),
    ], 1..16)).prop_map(|(a, b, same, steps)| Case { a, b, same, steps }).boxed(), |x| match x.a.field { 0 => run::<Gold>(x, Probe::<LibVerifier<Gold>>::SHARED), _ => run::<F252>(x, Probe::<LibVerifier<F252>>::SHARED) });
    c.finish();
}
