use ff::{Field, PrimeField};
use hodor::polynomials::*;
use hodor::verif_hooks::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { algo: u8, log_n: u32, len_short: usize, zeroes: usize, log_f: u32, kind: u8, seed: u64, cpus: usize, log_cpus: u32, root: u64, field: u8 }

const NAMES: [&str; 14] = ["lde", "lde_using_multiple_cosets", "lde_using_multiple_cosets_naive", "filtering_lde", "coset_lde", "coset_lde_using_multiple_cosets", "coset_lde_using_multiple_cosets_naive", "coset_filtering_lde", "pad_by_factor and fft", "pad_to_size and fft", "pad_by_factor and coset_fft", "best_lde", "serial_lde", "parallel_lde"];

fn run<F: PrimeField>(c: &Case) -> Res {
    let algo = c.algo as usize % NAMES.len();
    let log_n = c.log_n.min(F::S);
    let log_f = c.log_f.min(F::S - log_n);
    let (n, factor) = (1usize << log_n, 1usize << log_f);
    let size = n * factor;
    let worker = worker_with_cpus(c.cpus);
    // given length may be shorter than the power of two
    let len = n - if n > 2 { c.len_short % (n / 2) } else { 0 };
    let mut a: Vec<F> = VecSpec { len, kind: c.kind, seed: c.seed }.expand();
    for k in len - (c.zeroes % (len + 1)).min(len)..len { a[k] = F::zero(); }
    let mg = F::multiplicative_generator();
    let shift = if [4, 5, 6, 7, 10].contains(&algo) { mg } else { F::one() };
    let own = gen_of::<F>(size);
    let omega = if algo >= 11 { powu(&own, c.root | 1) } else { own };
    let mut full = a.clone();
    full.resize(n, F::zero());
    let want = {
        let mut p = F::one();
        let mut v: Vec<F> = full.iter().map(|x| { let y = mul(*x, &p); p.mul_assign(&shift); y }).collect();
        v.resize(size, F::zero());
        if size <= 64 && c.seed % 2 == 0 { naive_dft(&full, &omega, size, &shift) } else { rec_fft(&v, &omega) }
    };
    let got = guarded(|| {
        let e = |e: hodor::SynthesisError| format!("{}", e);
        let poly = Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(e)?;
        let mut slice = full.clone();
        slice.resize(size, F::zero());
        let log_size = log_n + log_f;
        let r = match algo {
            0 => poly.lde(&worker, factor),
            1 => poly.lde_using_multiple_cosets(&worker, factor),
            2 => poly.lde_using_multiple_cosets_naive(&worker, factor),
            3 => poly.filtering_lde(&worker, factor),
            4 => poly.coset_lde(&worker, factor),
            5 => poly.coset_lde_using_multiple_cosets(&worker, factor),
            6 => poly.coset_lde_using_multiple_cosets_naive(&worker, factor),
            7 => poly.coset_filtering_lde(&worker, factor),
            8 => { let mut p = poly; p.pad_by_factor(factor).map_err(e)?; Ok(p.fft(&worker)) }
            9 => { let mut p = poly; p.pad_to_size(size).map_err(e)?; Ok(p.fft(&worker)) }
            10 => { let mut p = poly; p.pad_by_factor(factor).map_err(e)?; Ok(p.coset_fft(&worker)) }
            11 => { best_lde(&mut slice, &worker, &omega, log_size, factor); Polynomial::from_values(slice) }
            12 => { serial_lde(&mut slice, &omega, log_size, factor); Polynomial::from_values(slice) }
            _ => { parallel_lde(&mut slice, &worker, &omega, log_size, c.log_cpus.min(log_size), factor); Polynomial::from_values(slice) }
        }.map_err(e)?;
        if r.omega != own || r.exp != log_size || r.omegainv != inv(own) || r.minv != inv(f_u64::<F>(size as u64)) || r.geninv != inv(mg) { return Err(format!("{}: domain data of the result", NAMES[algo])); }
        Ok(r.into_coeffs())
    })?;
    ensure!(got.len() == want.len(), "{}: {} values instead of {}", NAMES[algo], got.len(), want.len());
    let region = [0, 1, 4, 5].contains(&algo) && c.cpus > 1 && factor / c.cpus > 1;
    let nt = full.iter().filter(|x| !x.is_zero()).count() > 1 && factor > 1;
    if let Some(i) = (0..size).find(|i| got[*i] != want[*i]) {
        let d = format!("{}: wrong value at {} of {} (coefficients {} factor {} cpus {} log_cpus {})", NAMES[algo], i, size, n, factor, c.cpus, c.log_cpus);
        if region && got == known_wrong(&full, factor, c.cpus, &shift) { return Ok(Out { nontrivial: nt, labels: vec![format!("{} known wrong", NAMES[algo])], known: Some(("KF1".into(), d)) }); }
        return Err(d);
    }
    Ok(Out::when(nt).l(NAMES[algo]).lif(region, "right inside of the region of KF1").lif(factor == 1, "factor 1").lif(n == 1, "constant").lif(factor > n, "factor larger than the number of coefficients"))
}

fn strategy(n: std::ops::Range<u32>, f: std::ops::Range<u32>) -> BoxedStrategy<Case> {
    let v = vecspec_len(Just(0usize).boxed());
    (0u8..NAMES.len() as u8, n, (prop_oneof![1 => Just(0usize), 1 => any::<usize>()], prop_oneof![2 => Just(0usize), 1 => any::<usize>()]), f, v, 1usize..=17, 0u32..6, any::<u64>(), any::<u8>())
        .prop_map(|(algo, log_n, (len_short, zeroes), log_f, v, cpus, log_cpus, root, field)| Case { algo, log_n, len_short, zeroes, log_f, kind: v.kind, seed: v.seed, cpus, log_cpus, root, field }).boxed()
}

fn main() {
    let c = Ctx::new("C09", "at least two coefficients are non-zero and the factor is at least two");
    c.sub("small", c.n(48000, 6000000), || strategy(0..5, 0..5), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby, F64, F128, F193));
    c.sub("medium", c.n(3600, 300000), || strategy(4..9, 0..6), |x| by_field!(x.field, run, x; Gold, F252, F257, F255));
    c.sub("large", c.n(120, 12000), || strategy(9..13, 0..4), |x| by_field!(x.field, run, x; Gold, F252));
    c.sub_t("huge", c.n(14, 1000), 2, || strategy(13..16, 1..5), |x| by_field!(x.field, run, x; Gold, F252));
    c.one("known finding KF1", || {
        // 8 coefficients, factor 16, 2 workers
        run::<Gold>(&Case { algo: 1, log_n: 3, len_short: 0, zeroes: 0, log_f: 4, kind: 0, seed: 9, cpus: 2, log_cpus: 0, root: 0, field: 0 })
    });
    c.finish();
}
