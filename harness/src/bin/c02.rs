use hv::air::*;
use hv::proto::*;
#[allow(unused_imports)]
use hv::refmath::*;
use hv::*;
use ff::PrimeField;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How { Cells(Vec<Break>), Random(u64), Boundary(usize, u64), ShiftRows(usize) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { p: PCfg, how: Vec<How> }

fn check<F: PrimeField>(c: &Case) -> Res {
    let i = c.p.inst.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    let k = c.p.cpus(&i.props);
    let mut o = Out::trivial();
    with_cpus(k, || {
        for h in c.how.iter() {
            let mut props = i.props.clone();
            let t = match h {
                How::Cells(b) => break_trace(&i.trace, b),
                How::Random(s) => i.trace.iter().enumerate().map(|(r, col)| (0..col.len()).map(|j| el::<F>(mix(s ^ mix((r * 1000 + j) as u64)) | 8)).collect()).collect(),
                How::Boundary(b, d) => {
                    if props.boundary_constraints.is_empty() { continue; }
                    let n = props.boundary_constraints.len();
                    let x = &mut props.boundary_constraints[b % n];
                    x.value = x.value.map(|v| add(v, &el_nonzero::<F>(*d)));
                    i.trace.clone()
                }
                How::ShiftRows(by) => i.trace.iter().map(|col| { let mut v = col.clone(); let n = v.len(); v.rotate_left(1 + by % (n - 1).max(1)); v }).collect(),
            };
            let why = violated(&props, &t);
            let p = match guarded(|| lib_prove(&props, &t, lde, out)) { Ok(p) => p, Err(e) => {
                ensure!(why.is_some(), "prover failed for a satisfying trace: {}", e);
                o.nontrivial = true;
                o.labels.push("prover refused".into());
                continue;
            } };
            let r = lib_verify(&props, lde, &p);
            match why {
                Some(w) => {
                    ensure!(!accepted(&r), "a proof for a trace violating {} is accepted ({:?}, lde {} out {} cpus {})", w, h, lde, out, k);
                    o.nontrivial = true;
                    o.labels.push(if w.starts_with("boundary") { "boundary violated" } else { "transition violated" }.into());
                }
                None => { ensure!(accepted(&r), "a proof for a trace that still satisfies everything is not accepted: {:?}", r); o.labels.push("still satisfying".into()); }
            }
        }
        Ok(o)
    })
}

fn how() -> BoxedStrategy<How> {
    prop_oneof![6 => breaks().prop_map(How::Cells), 1 => any::<u64>().prop_map(How::Random), 2 => (0usize..6, eseed_nz()).prop_map(|(a, b)| How::Boundary(a, b)), 1 => (0usize..32).prop_map(How::ShiftRows)].boxed()
}

/// every single cell of a small instance, one after another
fn every_cell<F: PrimeField>(p: &PCfg) -> Res {
    let i = p.inst.build::<F>();
    let (lde, out) = p.lde_out(&i.props);
    let mut hits = 0;
    with_cpus(1, || {
        for r in 0..i.props.num_registers {
            for row in 0..i.props.num_rows {
                let t = break_trace(&i.trace, &[Break { reg: r, row, how: 0 }]);
                let why = violated(&i.props, &t);
                let res = guarded(|| lib_prove(&i.props, &t, lde, out)).and_then(|p| lib_verify(&i.props, lde, &p));
                match why {
                    Some(w) => { hits += 1; ensure!(!accepted(&res), "register {} row {} is wrong ({}), but the proof is accepted", r, row, w); }
                    None => ensure!(accepted(&res), "register {} row {} is free, but the proof is not accepted: {:?}", r, row, res),
                }
            }
        }
        Ok(Out::when(hits > 0))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RowCase { p: PCfg, at: Vec<(u64, u64)> }

/// exactly one constraint violated at exactly one row, everything else (boundary included) holds
fn one_row<F: PrimeField>(c: &RowCase) -> Res {
    let (lde, out) = c.p.lde_out(&c.p.inst.build::<F>().props);
    let mut o = Out::trivial();
    for (pick, delta) in c.at.iter() {
        let (i, at) = c.p.inst.build_glitch::<F>(*pick, *delta);
        let (ci, row) = match at { Some(x) => x, None => continue };
        let w = violated(&i.props, &i.trace);
        ensure!(w == Some(format!("constraint {} at row {}", ci, row)), "harness: glitch at constraint {} row {} violates {:?}", ci, row, w);
        let k = c.p.cpus(&i.props);
        let res = with_cpus(k, || guarded(|| lib_prove(&i.props, &i.trace, lde, out)).and_then(|p| lib_verify(&i.props, lde, &p)));
        ensure!(!accepted(&res), "only constraint {} at row {} of {} is violated, but the proof is accepted", ci, row, i.props.num_rows);
        let (start, span) = dense_of(&i.props.constraints[ci]);
        o = Out { nontrivial: true, ..o }.lif(row == start, "first row of the range").lif(row + 1 == i.props.num_rows - span, "last row of the range");
    }
    Ok(o)
}

fn main() {
    let c = Ctx::new("C02", "at least one of the tried traces violates the instance");
    let cfg = InstCfg { max_rows: 24, max_regs: 4, max_degree: 4, max_boundary: 4 };
    c.sub("broken traces", c.n(1000, 80000), move || (pcfg(cfg, 3, 2), proptest::collection::vec(how(), 1..5)).prop_map(|(p, how)| Case { p, how }).boxed(),
        |x| match x.p.field { 0 => check::<Gold>(x), _ => check::<F252>(x) });
    let tiny = InstCfg { max_rows: 12, max_regs: 3, max_degree: 3, max_boundary: 3 };
    c.sub("every cell", c.n(120, 8000), move || pcfg(tiny, 2, 2), |x| match x.field { 0 => every_cell::<Gold>(x), _ => every_cell::<F252>(x) });
    c.sub("one row", c.n(800, 80000), move || (pcfg(cfg, 2, 2), proptest::collection::vec((any::<u64>(), eseed_nz()), 1..4)).prop_map(|(p, at)| RowCase { p, at }).boxed(),
        |x| match x.p.field { 0 => one_row::<Gold>(x), _ => one_row::<F252>(x) });
    let wide = InstCfg { max_rows: 300, max_regs: 10, max_degree: 9, max_boundary: 8 };
    c.sub("one row of a larger instance", c.n(80, 8000), move || (pcfg(wide, 1, 2), proptest::collection::vec((any::<u64>(), eseed_nz()), 1..3)).prop_map(|(p, at)| RowCase { p, at }).boxed(),
        |x| match x.p.field { 0 => one_row::<Gold>(x), _ => one_row::<F252>(x) });
    c.finish();
}
