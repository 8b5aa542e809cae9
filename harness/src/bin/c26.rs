use ff::{Field, PrimeField};
use hv::air::*;
use hv::proto::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { p: PCfg, brk: Vec<Break>, pad: u64 }

/// every opened position of a proof, as points: none of them belongs to the domain of the trace or of the constraints
fn run<F: PrimeField>(c: &Case) -> Res {
    let i = c.p.inst.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    let lde = lde.max(2);
    let k = safe_cpus(&[lde, (max_power(&i.props) as usize).next_power_of_two()], c.p.cpus);
    let (n, m) = (column_size(&i.props), constraints_size(&i.props));
    let mut o = Out::trivial();
    for broken in [false, true] {
        let t = if broken { break_trace(&i.trace, &c.brk) } else { i.trace.clone() };
        let p = match guarded(|| with_cpus(k, || lib_prove(&i.props, &t, lde, out))) { Ok(p) => p, Err(e) => { ensure!(broken, "no proof of a true statement: {}", e); o = o.l("prover refused a broken trace"); continue } };
        let f = interp_trace(&i.props, &t);
        // the point outside of the domain and positions follow from the messages
        let mut tr = RefTranscript::new();
        commit_statement(&mut tr, &i.props);
        for r in p.f_roots.iter() { tr.commit(r); }
        draw_g_challenges::<F>(&mut tr, &i.props);
        tr.commit(&p.g_root);
        let z: F = tr.challenge();
        let one = F::one();
        let outside = |x: &F, size: usize| powu(x, size as u64) != one;
        let masks = masks_of(&i.props);
        ensure!(p.f_at_z_m.len() == masks.len(), "{} values outside of the domain for {} masks", p.f_at_z_m.len(), masks.len());
        let w = gen_of::<F>(n);
        for ((r, s), v) in masks.iter().zip(p.f_at_z_m.iter()) {
            let x = mul(z, &powu(&w, *s as u64));
            ensure!(outside(&x, n) && outside(&x, m), "the point outside of the domain is in the domain");
            ensure!(horner(&f[*r], &x) == *v, "the value of register {} outside of the domain is not at the challenge point", r);
        }
        let (i1, i2) = p.positions(&i.props, lde);
        let (wf, wg) = (gen_of::<F>(n * lde), gen_of::<F>(m * lde));
        ensure!(p.f_queries.len() == i.props.num_registers, "{} openings of registers", p.f_queries.len());
        for (r, q) in p.f_queries.iter().enumerate() {
            ensure!(q.index < n * lde, "register {} is opened at {}, outside of its evaluation domain", r, q.index);
            let x = powu(&wf, q.index as u64);
            ensure!(outside(&x, n), "register {} is opened at position {}, that belongs to the domain of the trace: row {} (rows {}, blow-up {})", r, q.index, q.index / lde, n, lde);
            ensure!(q.index == i1, "register {} is opened at {}, the position by the transcript is {}", r, q.index, i1);
            ensure!(horner(&f[r], &x) == q.value, "the value opened is not that of the register");
        }
        let x = powu(&wg, p.g_query.index as u64);
        ensure!(p.g_query.index < m * lde && outside(&x, m), "composition is opened at position {} of the constraints domain (size {}, blow-up {})", p.g_query.index, m, lde);
        ensure!(p.g_query.index == i2, "composition is opened at {}, the position by the transcript is {}", p.g_query.index, i2);
        for (which, pf, size, w, at) in [("first", &p.fri1, n, wf, i1), ("second", &p.fri2, m, wg, i2)] {
            ensure!(pf.queries.len() >= 2, "no openings of the {} quotient", which);
            let (a, b) = (pf.queries[0].index, pf.queries[1].index);
            let half = size * lde / 2;
            ensure!(b == a + half && (at == a || at == b), "the {} quotient is opened at {} and {} instead of the pair of {}", which, a, b, at);
            for j in [a, b] { ensure!(outside(&powu(&w, j as u64), size), "the {} quotient is opened at position {} of the domain of size {} (blow-up {})", which, j, size, lde); }
        }
        o.nontrivial |= t.iter().any(|col| col.iter().any(|x| *x != col[0]));
        o = o.lif(broken, "broken trace").lif(i1 % lde == 1, "next to a point of the domain").lif(k > 1, "several cpus").lif(lde == 2, "smallest blow-up");
    }
    let _ = c.pad;
    Ok(o)
}

fn main() {
    let c = Ctx::new("C26", "the trace holds at least two different values in some register");
    let small = InstCfg { max_rows: 20, max_regs: 4, max_degree: 5, max_boundary: 3 };
    let s = |cfg: InstCfg, l: u32| move || (pcfg(cfg, l, 2), breaks(), any::<u64>()).prop_map(|(p, brk, pad)| Case { p, brk, pad }).boxed();
    c.sub("small", c.n(1900, 120000), s(small, 4), |x| match x.p.field { 0 => run::<Gold>(x), _ => run::<F252>(x) });
    c.sub("larger", c.n(52, 6000), s(InstCfg { max_rows: 150, max_regs: 3, max_degree: 7, max_boundary: 4 }, 3), |x| match x.p.field { 0 => run::<Gold>(x), _ => run::<F252>(x) });
    c.sub("other fields", c.n(400, 24000), move || (pcfg(small, 3, 3), breaks(), any::<u64>()).prop_map(|(p, brk, pad)| Case { p, brk, pad }).boxed(), |x| by_field!(x.p.field, run, x; F63, F65, F255));
    c.finish();
}
