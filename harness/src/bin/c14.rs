use ff::{Field, PrimeField};
use hodor::arp::*;
use hodor::verif_hooks::worker_with_cpus;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { rows: usize, regs: Vec<(u8, u64)>, cpus: usize, wrong: u64, field: u8 }

fn props<F: PrimeField>(rows: usize, regs: usize) -> InstanceProperties<F> {
    InstanceProperties { num_rows: rows, num_registers: regs, constraints: vec![], boundary_constraints: vec![] }
}

fn polys<F: PrimeField>(p: InstanceProperties<F>, w: Vec<Vec<F>>, cpus: usize) -> Result<Result<Vec<Vec<F>>, String>, String> {
    guarded(|| {
        let worker = worker_with_cpus(cpus);
        let arp = ARPInstance::<F, PerRegisterARP>::from_instance(p.clone(), &worker).map_err(|e| format!("{}", e))?;
        Ok(arp.calculate_witness_polys(w.clone(), &worker).map(|v| v.into_iter().map(|p| p.into_coeffs()).collect()).map_err(|e| format!("{}", e)))
    })
}

fn run<F: PrimeField>(c: &Case) -> Res {
    let rows = c.rows.min(1 << F::S.min(20)).max(1);
    let n = rows.next_power_of_two();
    let w: Vec<Vec<F>> = c.regs.iter().map(|(kind, seed)| VecSpec { len: rows, kind: *kind, seed: *seed }.expand()).collect();
    let got = polys(props(rows, w.len()), w.clone(), c.cpus)??;
    ensure!(got.len() == w.len(), "{} polynomials for {} registers", got.len(), w.len());
    let g = gen_of::<F>(n);
    for (r, p) in got.iter().enumerate() {
        ensure!(p.len() == n, "polynomial of register {} has {} coefficients for {} rows", r, p.len(), rows);
        let mut x = F::one();
        for row in 0..n {
            let v = if n <= 64 { horner(p, &x) } else { break };
            if row < rows { ensure!(v == w[r][row], "register {} row {} of {}: the polynomial has another value there (cpus {})", r, row, rows, c.cpus); }
            else { ensure!(v.is_zero(), "register {} padding row {} of {}: not zero", r, row, n); }
            x.mul_assign(&g);
        }
        if n > 64 {
            let v = rec_fft(p, &g);
            for row in 0..n {
                if row < rows { ensure!(v[row] == w[r][row], "register {} row {} of {}: the polynomial has another value there (cpus {})", r, row, rows, c.cpus); }
                else { ensure!(v[row].is_zero(), "register {} padding row {} of {}: not zero", r, row, n); }
            }
        }
    }
    // another shape than that of the instance is refused
    let k = c.wrong;
    let (pr, pg) = match k % 4 { 0 => (rows + 1 + (k >> 8) as usize % 5, w.len()), 1 => (rows, w.len() + 1), 2 => (if rows > 1 { 1 + (k >> 8) as usize % (rows - 1) } else { 2 }, w.len()), _ => (rows, w.len().saturating_sub(1)) };
    if (pr, pg) != (rows, w.len()) && pr.next_power_of_two().trailing_zeros() <= F::S {
        let e = polys(props(pr, pg), w.clone(), c.cpus)?;
        ensure!(e.is_err(), "a trace of {} rows and {} registers is taken for an instance of {} rows and {} registers", rows, w.len(), pr, pg);
    }
    // columns of different length are not interpolated either
    if w.len() > 1 && k % 3 == 0 {
        let mut t = w.clone();
        let last = t.len() - 1;
        if rows > 1 { t[last].pop(); } else { t[last].push(F::one()); }
        ensure!(polys(props(rows, t.len()), t, c.cpus).map(|r| r.is_err()).unwrap_or(true), "a trace with columns of different lengths is taken");
    }
    let nz = w.iter().flatten().any(|x| !x.is_zero());
    Ok(Out::when(nz && rows > 1).lif(rows != n, "rows are not a power of two").lif(c.cpus > c.regs.len(), "more cpus than registers").lif(c.cpus <= c.regs.len() && c.cpus > 1, "several cpus, as many registers").lif(rows == 1, "one row"))
}

fn main() {
    let c = Ctx::new("C14", "more than one row, not all zero");
    let s = |max: usize| move || (prop_oneof![3 => 1usize..=max, 1 => pow2(0, 63 - (max as u64).leading_zeros()), 1 => pow2(0, 63 - (max as u64).leading_zeros() - 1).prop_map(|x| x + 1)], vec((0u8..VEC_KINDS, any::<u64>()), 1..=9), 1usize..=9, any::<u64>(), any::<u8>())
        .prop_map(|(rows, regs, cpus, wrong, field)| Case { rows, regs, cpus, wrong, field }).boxed();
    c.sub("small", c.n(35000, 3000000), s(40), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, F64, Baby, F128, F193));
    c.sub("medium", c.n(2800, 240000), s(700), |x| by_field!(x.field, run, x; Gold, F252, F255));
    c.sub("long", c.n(210, 24000), s(9000), |x| by_field!(x.field, run, x; Gold, F252, F255));
    c.sub_t("huge", c.n(8, 600), 2, s(140000), |x| by_field!(x.field, run, x; Gold, F252));
    let wide = || (1usize..12, vec((0u8..VEC_KINDS, any::<u64>()), 10..70), 1usize..=9, any::<u64>(), any::<u8>()).prop_map(|(rows, regs, cpus, wrong, field)| Case { rows, regs, cpus, wrong, field }).boxed();
    c.sub("wide", c.n(700, 60000), wide, |x| by_field!(x.field, run, x; Gold, F252, F255));
    c.finish();
}
