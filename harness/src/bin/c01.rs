use hv::air::*;
use hv::proto::*;
use hv::*;
use proptest::prelude::*;
use ff::PrimeField;
use serde::{Deserialize, Serialize};

fn complete<F: PrimeField>(c: &PCfg) -> Res {
    let i = c.inst.build::<F>();
    if let Some(v) = violated(&i.props, &i.trace) { panic!("generator: planted trace is not satisfying: {}", v); }
    let (lde, out) = c.lde_out(&i.props);
    let k = c.cpus(&i.props);
    let n = i.props.num_rows;
    let d = max_power(&i.props);
    with_cpus(k, || {
        let p = guarded(|| lib_prove(&i.props, &i.trace, lde, out)).map_err(|e| format!("honest prover failed: {} (rows {} degree {} lde {} out {} cpus {})", e, n, d, lde, out, k))?;
        let r = lib_verify(&i.props, lde, &p);
        ensure!(accepted(&r), "honest proof is not accepted: {:?} (rows {} degree {} lde {} out {} cpus {})", r, n, d, lde, out, k);
        let cells: Vec<_> = i.trace.iter().flatten().collect();
        Ok(Out::when(cells.iter().any(|x| *x != cells[0]))
            .lif(!n.is_power_of_two(), "rows not a power of two").lif(!d.is_power_of_two(), "degree not a power of two")
            .lif(out > 1, "several final coefficients").lif(k > 1, "several cpus").lif(k != c.cpus.min(max_cpus()), "cpus moved out of KF1")
            .lif(i.props.constraints.iter().any(|c| dense_of(c).0 > 0), "start after the first row")
            .lif(lde == 1, "no blow-up")
            .lif(!i.props.boundary_constraints.is_empty(), "boundary constraints"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ex { kind: u8, a: u64, b: u64, ops: usize, lde_log: u32, out_log: u32, cpus: usize }

fn examples(c: &Ex) -> Res {
    use hodor::arp::IntoARP;
    use hodor::verif_hooks::experiments::*;
    fn run<F: PrimeField>(w: Vec<Vec<F>>, props: hodor::arp::InstanceProperties<F>, c: &Ex) -> Res {
        let n = column_size(&props);
        let out = 1usize << (c.out_log % refmath::log2(n));
        let lde = 1usize << c.lde_log;
        let k = safe_cpus(&[lde, (max_power(&props) as usize).next_power_of_two()], c.cpus);
        with_cpus(k, || {
            let p = guarded(|| lib_prove(&props, &w, lde, out)).map_err(|e| format!("example {:?}: {}", c, e))?;
            let r = lib_verify(&props, lde, &p);
            ensure!(accepted(&r), "example {:?}: {:?}", c, r);
            Ok(Out::nt().l(format!("example {}", c.kind)))
        })
    }
    match c.kind % 3 {
        0 => {
            let v = VDF::<F252> { start_c0: el(c.a), start_c1: el(c.b), num_operations: c.ops };
            let (w, p) = v.into_arp();
            run(w.expect("witness"), p, c)
        }
        1 => {
            let v = CubicVDF::<F255> { start_c0: el(c.a), start_c1: el(c.b), num_operations: c.ops };
            let (w, p) = v.into_arp();
            run(w.expect("witness"), p, c)
        }
        _ => {
            let steps = c.ops;
            // native recurrence: (a, b) -> (b, a + b) from (1, 1)
            let (mut x, mut y) = (1u64, 1u64);
            for _ in 0..steps { let z = x + y; x = y; y = z; }
            let (w, p) = hodor::verif_hooks::fibonacci_instance::<Gold>(Some(y), steps, steps);
            run(w.expect("witness"), p, c)
        }
    }
}

fn main() {
    let c = Ctx::new("C01", "the trace holds at least two different values");
    let quick = InstCfg { max_rows: 32, max_regs: 4, max_degree: 5, max_boundary: 4 };
    c.sub("random instances", c.n(2700, 180000), move || pcfg(quick, 4, 2), |x| match x.field { 0 => complete::<Gold>(x), _ => complete::<F252>(x) });
    let big = InstCfg { max_rows: 300, max_regs: 6, max_degree: 8, max_boundary: 6 };
    c.sub("larger instances", c.n(180, 18000), move || pcfg(big, 5, 2), |x| match x.field { 0 => complete::<Gold>(x), _ => complete::<F252>(x) });
    c.sub("other fields", c.n(1000, 120000), move || pcfg(quick, 4, 6), |x| by_field!(x.field, complete, x; F63, F65, F128, F129, F193, F255));
    let wide = InstCfg { max_rows: 12, max_regs: 14, max_degree: 3, max_boundary: 14 };
    c.sub("many registers", c.n(120, 12000), move || pcfg(wide, 4, 2), |x| match x.field { 0 => complete::<Gold>(x), _ => complete::<F252>(x) });
    let steep = InstCfg { max_rows: 8, max_regs: 3, max_degree: 33, max_boundary: 3 };
    c.sub("high degrees", c.n(120, 12000), move || pcfg(steep, 6, 2), |x| match x.field { 0 => complete::<Gold>(x), _ => complete::<F252>(x) });
    let long = InstCfg { max_rows: 2100, max_regs: 2, max_degree: 3, max_boundary: 3 };
    c.sub("long traces", c.n(36, 3600), move || pcfg(long, 2, 2), |x| match x.field { 0 => complete::<Gold>(x), _ => complete::<F252>(x) });
    c.sub("bundled examples", c.n(180, 9000), || (0u8..3, eseed_nz(), eseed_nz(), 1u32..6, 1u32..5, 0u32..3, 1usize..9)
        .prop_map(|(kind, a, b, ops, lde_log, out_log, cpus)| Ex { kind, a, b, ops: (1usize << ops) - if kind == 2 { 1 } else { 0 }, lde_log, out_log, cpus }).boxed(), examples);
    c.one("known finding KF1", || {
        let spec = InstSpec { rows: 8, max_degree: 1, regs: vec![Role::Rec { lead: 1, lead_coeff: 1, lead_poly: false, terms: vec![Term { coeff: 4, uni: true, factors: vec![Factor { reg: 0, step: 0, power: 1, coeff: 1 }] }], constant: 0, start: 0, span: 0 }], boundary: vec![(0, 0)], seed: 5, small: false, sub_lead: false };
        let i = spec.build::<Gold>();
        if max_cpus() < 2 { return Ok(Out::trivial().l("one CPU only")); }
        with_cpus(2, || {
            let p = lib_prove(&i.props, &i.trace, 16, 1)?;
            if accepted(&lib_verify(&i.props, 16, &p)) { Ok(Out::nt().l("KF1 is gone")) }
            else { Ok(Out { nontrivial: true, labels: vec![], known: Some(("KF1".into(), "honest proof with blow-up 16 on 2 CPUs is rejected".into())) }) }
        })
    });
    c.finish();
}
