use ff::PrimeField;
use hodor::verif_hooks::Worker;
use hodor::fri::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hv::air::safe_cpus;
use hv::fri_ref::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { init_log: u32, lde_log: u32, out_log: u32, kind: u8, seed: u64, short: usize, idx: Vec<u64>, cpus: usize, field: u8 }

fn compare<F: PrimeField>(what: &str, p: &FriProto<F>, r: &RefFri<F>) -> Result<(), String> {
    ensure!(p.initial_degree_plus_one == r.init && p.output_coeffs_at_degree_plus_one == r.out && p.lde_factor == r.lde, "{}: parameters {} {} {} instead of {} {} {}", what, p.initial_degree_plus_one, p.output_coeffs_at_degree_plus_one, p.lde_factor, r.init, r.out, r.lde);
    ensure!(p.intermediate_values.len() + 1 == r.layers.len(), "{}: {} layers after the first instead of {}", what, p.intermediate_values.len(), r.layers.len() - 1);
    for (k, v) in p.intermediate_values.iter().enumerate() {
        let l = &r.layers[k + 1];
        ensure!(v.size() == l.len(), "{}: layer {} has {} values instead of {}", what, k + 1, v.size(), l.len());
        if let Some(j) = (0..l.len()).find(|j| v.as_ref()[*j] != l[*j]) { return Err(format!("{}: layer {} is not the fold of the previous one at position {}", what, k + 1, j)); }
        ensure!(v.omega == gen_of::<F>(l.len()), "{}: domain of layer {}", what, k + 1);
    }
    ensure!(p.challenges == r.challenges, "{}: challenges are not those of the layer roots", what);
    let roots = r.roots();
    ensure!(p.get_roots() == roots, "{}: roots", what);
    ensure!(p.get_final_root() == *roots.last().unwrap(), "{}: final root", what);
    ensure!(p.final_coefficients == r.finals && p.get_final_coefficients() == r.finals, "{}: final coefficients are not those of the last layer", what);
    Ok(())
}

fn run<F: PrimeField>(c: &Case) -> Res {
    // domain must exist in the field
    let max = F::S;
    let init_log = 1 + c.init_log % (max.min(17) - 1);
    let lde_log = c.lde_log.min(max - init_log).min(5);
    let mut out_log = c.out_log % init_log;
    if lde_log == 0 && out_log == 0 { if init_log == 1 { return Ok(Out::trivial().l("no blow-up and nothing to fold")); } out_log = 1; }
    let (init, lde, out) = (1usize << init_log, 1usize << lde_log, 1usize << out_log);
    let size = init * lde;
    let mut coeffs: Vec<F> = VecSpec { len: init, kind: c.kind, seed: c.seed }.expand();
    for k in init - c.short % init..init { coeffs[k] = F::zero(); }
    let values = eval_domain(&coeffs, size, &F::one());
    let k = safe_cpus(&[lde], c.cpus);
    let nonconst = coeffs.iter().skip(1).any(|x| !x.is_zero());
    with_cpus(k, || {
        let worker = Worker::new();
        let poly = Polynomial::from_values(values.clone()).map_err(|e| format!("{}", e))?;
        let r = RefFri::commit(values.clone(), init, lde, out, None);
        let p1 = guarded(|| <Fri<F> as FriIop<F>>::proof_from_lde(&poly, lde, out, &worker).map_err(|e| format!("{}", e)))?;
        compare("by values", &p1, &r)?;
        let p2 = guarded(|| Fri::<F>::proof_from_lde_through_coefficients(poly.clone(), lde, out, &worker).map_err(|e| format!("{}", e)))?;
        compare("through coefficients", &p2, &r)?;
        let mut idx: Vec<usize> = if size <= 16 { (0..size / 2).map(|i| 2 * i + 1).collect() } else { c.idx.iter().map(|x| (*x as usize % (size / 2)) * 2 + 1).collect() };
        idx.push(size - 1);
        for i in idx {
            let o = guarded(|| Fri::<F>::verify_prototype(&p1, &poly, i).map_err(|e| format!("{}", e)));
            ensure!(o == Ok(true), "prototype is not accepted at {} of {}: {:?}", i, size, o);
            let o = guarded(|| Fri::<F>::verify_prototype(&p2, &poly, i).map_err(|e| format!("{}", e)));
            ensure!(o == Ok(true), "prototype (through coefficients) is not accepted at {} of {}: {:?}", i, size, o);
            let pa = guarded(|| <Fri<F> as FriIop<F>>::proof_from_lde(&poly, lde, out, &worker).map_err(|e| format!("{}", e)))?;
            let pr = guarded(|| <Fri<F> as FriIop<F>>::prototype_into_proof(pa, &poly, i).map_err(|e| format!("{}", e)))?;
            let want = r.open(i);
            let got = PFri::from_lib(&pr);
            ensure!(got == want, "proof for position {} of {} is not made of the openings along the path of the position", i, size);
            ensure!(pr.get_roots() == &want.roots[..] && pr.get_final_coefficients() == &want.finals[..] && pr.get_initial_degree_plus_one() == init && pr.get_lde_factor() == lde, "accessors of the proof");
            let o = guarded(|| <Fri<F> as FriIop<F>>::verify_proof(&pr, i, values[i]).map_err(|e| format!("{}", e)));
            ensure!(o == Ok(true), "proof is not accepted at {} of {} (degree {} blow-up {} output {}): {:?}", i, size, init, lde, out, o);
            let pb = guarded(|| Fri::<F>::proof_from_lde_through_coefficients(poly.clone(), lde, out, &worker).map_err(|e| format!("{}", e)))?;
            let pr2 = guarded(|| pb.produce_proof(&poly, i).map_err(|e| format!("{}", e)))?;
            ensure!(PFri::from_lib(&pr2) == want, "proof through coefficients differs");
        }
        Ok(Out::when(nonconst).lif(out > 1, "several final coefficients").lif(k > 1, "several cpus").lif(lde == 1, "no blow-up").lif(init / out == 2, "one fold").lif(init / out > 16, "five folds and more"))
    })
}

fn main() {
    let c = Ctx::new("C06", "the polynomial is not a constant");
    c.sub("low degree polynomials", c.n(3500, 400000), || {
        let v = vecspec_len(Just(0usize).boxed());
        (prop_oneof![50 => 0u32..6, 10 => 6u32..9, 1 => 9u32..12], prop_oneof![5 => 0u32..4, 1 => 4u32..6], prop_oneof![Just(0u32), 0u32..9], v, prop_oneof![2 => Just(0usize), 1 => any::<usize>()], proptest::collection::vec(any::<u64>(), 1..3), prop_oneof![4 => Just(1usize), 1 => 2usize..=8], any::<u8>())
            .prop_map(|(init_log, lde_log, out_log, v, short, idx, cpus, field)| Case { init_log, lde_log, out_log, kind: v.kind, seed: v.seed, short, idx, cpus, field }).boxed()
    }, |x| by_field!(x.field, run, x; Gold, F252, F255, F257, Baby, F128, F17, F64, F193));
    c.sub_t("high degrees", c.n(12, 800), 4, || {
        let v = vecspec_len(Just(0usize).boxed());
        (12u32..15, 0u32..4, prop_oneof![Just(0u32), 0u32..9], v, Just(0usize), proptest::collection::vec(any::<u64>(), 1..2), prop_oneof![2 => Just(1usize), 1 => 2usize..=8], any::<u8>())
            .prop_map(|(init_log, lde_log, out_log, v, short, idx, cpus, field)| Case { init_log, lde_log, out_log, kind: v.kind, seed: v.seed, short, idx, cpus, field }).boxed()
    }, |x| by_field!(x.field, run, x; Gold, F252));
    c.finish();
}
