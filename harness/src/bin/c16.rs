use ff::{Field, PrimeField};
use hodor::ali::per_register::ALIInstance;
use hodor::arp::*;
use hodor::polynomials::*;
use hodor::transcript::*;
use hodor::verif_hooks::worker_with_cpus;
use hv::air::*;
use hv::proto::*;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { inst: InstSpec, f: Vec<(u8, u64)>, satisfying: bool, g: (u8, u64), history: Vec<u8>, lde_log: u32, cpus: usize, field: u8 }

fn run<F: PrimeField>(c: &Case) -> Res {
    let i = c.inst.build::<F>();
    let p = &i.props;
    let (n, m) = (column_size(p), constraints_size(p));
    let lde = 1usize << c.lde_log;
    if log2(m * lde) > F::S || log2(m) >= F::S { return Ok(Out::trivial().l("domain too large for the field")); }
    let f: Vec<Vec<F>> = if c.satisfying { interp_trace(p, &i.trace) } else { (0..p.num_registers).map(|r| { let (kind, seed) = c.f[r % c.f.len()]; VecSpec { len: n, kind, seed: seed ^ r as u64 }.expand() }).collect() };
    let g: Vec<F> = VecSpec { len: m, kind: c.g.0, seed: c.g.1 }.expand();
    let mut t = RefTranscript::new();
    t.commit(&c.history);
    let z: F = t.challenge();
    let w = gen_of::<F>(n);
    let masks = masks_of(p);
    // z is outside of everything with overwhelming probability for large fields
    let inside = |x: &F, size: usize| powu(x, size as u64) == F::one();
    if inside(&z, m * lde) || masks.iter().any(|(_, s)| inside(&mul(z, &powu(&w, *s as u64)), n * lde)) { return Ok(Out::trivial().l("point inside of the domain")); }
    let (h1, h2, fz, gz, after) = guarded(|| {
        let worker = worker_with_cpus(c.cpus);
        let e = |e: hodor::SynthesisError| format!("{}", e);
        let arp = ARPInstance::<F, PerRegisterARP>::from_instance(p.clone(), &worker).map_err(e)?;
        let ali = ALIInstance::from_arp(arp, &worker).map_err(e)?;
        let fp = f.iter().map(|c| Polynomial::from_coeffs(c.clone()).map_err(e)).collect::<Result<Vec<_>, _>>()?;
        let fl = f.iter().map(|c| Polynomial::from_values(eval_domain(c, n * lde, &F::one())).map_err(e)).collect::<Result<Vec<_>, _>>()?;
        let gp = Polynomial::from_coeffs(g.clone()).map_err(e)?;
        let gl = Polynomial::from_values(eval_domain(&g, m * lde, &F::one())).map_err(e)?;
        let mut lt = Blake2sTranscript::<F>::new();
        lt.commit_bytes(&c.history);
        let (h1, h2, fz, gz) = ali.calculate_deep(&fp, &fl, &gp, &gl, &mut lt, &worker).map_err(e)?;
        Ok((h1.into_coeffs(), h2.into_coeffs(), fz, gz, lt.get_challenge_bytes()))
    })?;
    // out-of-domain values
    ensure!(fz.len() == masks.len(), "{} out-of-domain values for {} masks", fz.len(), masks.len());
    let points: Vec<F> = masks.iter().map(|(_, s)| mul(z, &powu(&w, *s as u64))).collect();
    for (k, (r, s)) in masks.iter().enumerate() {
        ensure!(fz[k] == horner(&f[*r], &points[k]), "out-of-domain value {} is not that of register {} at {} steps", k, r, s);
        t.elem(&fz[k]);
    }
    ensure!(gz == horner(&g, &z), "value of the composition at the point");
    let alphas: Vec<F> = masks.iter().map(|_| t.challenge()).collect();
    ensure!(after == t.challenge_bytes().to_vec(), "transcript afterwards is another: values are committed, then a challenge is drawn for every mask");
    // quotients
    ensure!(h1.len() == n * lde && h2.len() == m * lde, "sizes of quotients {} {}", h1.len(), h2.len());
    let fv: Vec<Vec<F>> = f.iter().map(|c| eval_domain(c, n * lde, &F::one())).collect();
    let wl = gen_of::<F>(n * lde);
    let mut x = F::one();
    for q in 0..n * lde {
        // checked without inversions: multiply out
        let mut want = F::zero();
        for (k, (r, _)) in masks.iter().enumerate() {
            want.add_assign(&mul(mul(sub(fv[*r][q], &fz[k]), &alphas[k]), &inv(sub(x, &points[k]))));
        }
        ensure!(h1[q] == want, "first quotient at {} of {} is wrong (masks {} cpus {})", q, n * lde, masks.len(), c.cpus);
        x.mul_assign(&wl);
    }
    let gv = eval_domain(&g, m * lde, &F::one());
    let wg = gen_of::<F>(m * lde);
    let mut x = F::one();
    for q in 0..m * lde {
        ensure!(mul(h2[q], &sub(x, &z)) == sub(gv[q], &gz), "second quotient at {} of {} is wrong (cpus {})", q, m * lde, c.cpus);
        x.mul_assign(&wg);
    }
    // degrees
    ensure!(degree_plus_one(&interpolate_domain(&h1)) < n.max(2), "degree of the first quotient {} for {} rows", degree_plus_one(&interpolate_domain(&h1)), n);
    ensure!(degree_plus_one(&interpolate_domain(&h2)) < m.max(2), "degree of the second quotient");
    let many = masks.len() > 1;
    Ok(Out::when(h1.iter().any(|x| !x.is_zero()) && h2.iter().any(|x| !x.is_zero())).lif(many, "several masks").lif(lde == 1, "no blow-up").lif(c.cpus > 1, "several cpus").lif(c.satisfying, "satisfying").lif(masks.iter().any(|(_, s)| masks.iter().filter(|(_, q)| q == s).count() > 1), "masks with the same step"))
}

fn main() {
    let c = Ctx::new("C16", "both quotients are not zero");
    let cfg = InstCfg { max_rows: 20, max_regs: 5, max_degree: 4, max_boundary: 5 };
    c.sub("quotients", c.n(9100, 800000), move || (inst(cfg), vec((0u8..VEC_KINDS, any::<u64>()), 1..4), prop::bool::weighted(0.3), (0u8..VEC_KINDS, any::<u64>()), vec(any::<u8>(), 0..12), 0u32..4, prop_oneof![3 => Just(1usize), 2 => 2usize..=9], any::<u8>())
        .prop_map(|(inst, f, satisfying, g, history, lde_log, cpus, field)| Case { inst, f, satisfying, g, history, lde_log, cpus, field }).boxed(),
        |x| by_field!(x.field, run, x; Gold, F252, F17, Baby, F255, F128, F193));
    let large = InstCfg { max_rows: 200, max_regs: 12, max_degree: 12, max_boundary: 12 };
    c.sub("larger quotients", c.n(150, 12000), move || (inst(large), vec((0u8..VEC_KINDS, any::<u64>()), 1..4), Just(false), (0u8..VEC_KINDS, any::<u64>()), vec(any::<u8>(), 0..12), 0u32..3, prop_oneof![3 => Just(1usize), 2 => 2usize..=9], any::<u8>())
        .prop_map(|(inst, f, satisfying, g, history, lde_log, cpus, field)| Case { inst, f, satisfying, g, history, lde_log, cpus, field }).boxed(),
        |x| by_field!(x.field, run, x; Gold, F252, F255, F128, F193));
    c.finish();
}
