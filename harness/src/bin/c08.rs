use ff::{Field, PrimeField};
use hodor::polynomials::*;
use hodor::verif_hooks::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { algo: u8, log_n: u32, kind: u8, seed: u64, cpus: usize, log_cpus: u32, hint: Option<usize>, nonzero: usize, exact: bool, root: u64, gen: u64, field: u8, naive: bool }

const ALGOS: u8 = 18;

fn run<F: PrimeField>(c: &Case) -> Res {
    let mut log_n = c.log_n.min(F::S);
    let mut log_cpus = c.log_cpus;
    let algo = c.algo % ALGOS;
    if (3..=5).contains(&algo) { log_n &= !1; log_cpus &= !1; }
    if log_cpus > log_n { log_cpus = log_n; }
    let n = 1usize << log_n;
    let worker = worker_with_cpus(c.cpus);
    let mut a: Vec<F> = VecSpec { len: n, kind: c.kind, seed: c.seed }.expand();
    // any primitive root of this order
    let g = powu(&gen_of::<F>(n), c.root | 1);
    let nz = if (6..=8).contains(&algo) {
        let nz = c.nonzero % (n + 1);
        for x in a[nz..].iter_mut() { *x = F::zero(); }
        if c.exact { nz } else { nz + (c.seed as usize % (n - nz + 1)) }
    } else { n };
    let dft = |v: &[F], w: &F| -> Vec<F> { if c.naive && n <= 64 { naive_dft(v, w, n, &F::one()) } else { rec_fft(v, w) } };
    let input = a.clone();
    let poly = |v: &Vec<F>| Polynomial::<F, Coefficients>::from_coeffs(v.clone()).map_err(|e| format!("{}", e));
    let vals = |v: &Vec<F>| Polynomial::<F, Values>::from_values(v.clone()).map_err(|e| format!("{}", e));
    let shift: F = el_nonzero(c.gen);
    let shifted = |s: &F| -> Vec<F> { let mut p = F::one(); input.iter().map(|x| { let r = mul(*x, &p); p.mul_assign(s); r }).collect() };
    let own = gen_of::<F>(n);
    let minv = inv(f_u64::<F>(n as u64));
    let idft = |v: &[F]| -> Vec<F> { dft(v, &inv(own)).into_iter().map(|x| mul(x, &minv)).collect() };
    let unshift = |v: Vec<F>, s: &F| -> Vec<F> { let si = inv(*s); let mut p = F::one(); v.into_iter().map(|x| { let r = mul(x, &p); p.mul_assign(&si); r }).collect() };
    let mg = F::multiplicative_generator();
    let name;
    let (got, want) = guarded(|| Ok(match algo {
        0 => { let h = c.hint.map(|h| 1 + h % c.cpus); best_fft(&mut a, &worker, &g, log_n, h); (a.clone(), dft(&input, &g)) }
        1 => { serial_fft(&mut a, &g, log_n); (a.clone(), dft(&input, &g)) }
        2 => { parallel_fft(&mut a, &worker, &g, log_n, log_cpus); (a.clone(), dft(&input, &g)) }
        3 => { radix_4_best_fft(&mut a, &worker, &g, log_n); (a.clone(), dft(&input, &g)) }
        4 => { radix_4_serial_fft(&mut a, &g, log_n); (a.clone(), dft(&input, &g)) }
        5 => { radix_4_parallel_fft(&mut a, &worker, &g, log_n, log_cpus); (a.clone(), dft(&input, &g)) }
        6 => { dit_best_fft(&mut a, &worker, &g, log_n, nz); (a.clone(), dft(&input, &g)) }
        7 => { dit_serial_fft(&mut a, &g, log_n, nz); (a.clone(), dft(&input, &g)) }
        8 => { dit_parallel_fft(&mut a, &worker, &g, log_n, log_cpus, nz); (a.clone(), dft(&input, &g)) }
        9 => (poly(&input)?.fft(&worker).into_coeffs(), dft(&input, &own)),
        10 => (poly(&input)?.coset_fft(&worker).into_coeffs(), dft(&shifted(&mg), &own)),
        11 => (poly(&input)?.coset_fft_for_generator(&worker, shift).into_coeffs(), dft(&shifted(&shift), &own)),
        12 => (vals(&input)?.ifft(&worker).into_coeffs(), idft(&input)),
        13 => (vals(&input)?.icoset_fft(&worker).into_coeffs(), unshift(idft(&input), &mg)),
        14 => (vals(&input)?.icoset_fft_for_generator(&worker, inv(shift)).into_coeffs(), unshift(idft(&input), &shift)),
        15 => { distribute_powers(&mut a, &worker, shift); (a.clone(), shifted(&shift)) }
        16 => { // there and back through the polynomial level
            let k = c.root % 3;
            let p = poly(&input)?;
            let q = match k { 0 => p.fft(&worker).ifft(&worker), 1 => p.coset_fft(&worker).icoset_fft(&worker), _ => p.coset_fft_for_generator(&worker, shift).icoset_fft_for_generator(&worker, inv(shift)) };
            (q.into_coeffs(), input.clone())
        }
        _ => { // and the other way around, and domain data stays that of the size
            let p = vals(&input)?;
            let k = c.root % 3;
            let q = match k { 0 => p.ifft(&worker).fft(&worker), 1 => p.icoset_fft(&worker).coset_fft(&worker), _ => p.icoset_fft_for_generator(&worker, inv(shift)).coset_fft_for_generator(&worker, shift) };
            if q.omega != own || q.exp != log_n || q.omegainv != inv(own) || q.minv != minv || q.geninv != inv(mg) { return Err("domain data of the polynomial".into()); }
            (q.into_coeffs(), input.clone())
        }
    }))?;
    name = ["best", "serial", "parallel", "radix-4 best", "radix-4 serial", "radix-4 parallel", "dit best", "dit serial", "dit parallel", "fft", "coset_fft", "coset_fft_for_generator", "ifft", "icoset_fft", "icoset_fft_for_generator", "distribute_powers", "fft and back", "ifft and back"][algo as usize];
    ensure!(got.len() == want.len(), "{}: length {} instead of {}", name, got.len(), want.len());
    if let Some(i) = (0..n).find(|i| got[*i] != want[*i]) { return Err(format!("{}: wrong value at {} of {} (cpus {} log_cpus {} nonzero {})", name, i, n, c.cpus, log_cpus, nz)); }
    Ok(Out::when(input.iter().filter(|x| !x.is_zero()).count() > 1).l(name).lif(c.cpus > 1 && !c.cpus.is_power_of_two(), "cpus not a power of two").lif(n == 1, "one value"))
}

fn strategy(logs: std::ops::Range<u32>) -> BoxedStrategy<Case> {
    let v = vecspec_len(Just(0usize).boxed());
    ((0u8..ALGOS, logs, v, 1usize..=9, 0u32..5), (proptest::option::of(any::<usize>()), any::<usize>(), any::<bool>(), any::<u64>(), eseed_nz(), any::<u8>(), any::<bool>()))
        .prop_map(|((algo, log_n, v, cpus, log_cpus), (hint, nonzero, exact, root, gen, field, naive))| Case { algo, log_n, kind: v.kind, seed: v.seed, cpus, log_cpus, hint, nonzero, exact, root, gen, field, naive }).boxed()
}

fn main() {
    let c = Ctx::new("C08", "at least two coefficients are non-zero");
    c.sub("small", c.n(72000, 12000000), || strategy(0..7), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby, F64, F128, F193, F31));
    c.sub("medium", c.n(7500, 1200000), || strategy(6..13), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby));
    // linearity and shift on larger sizes come for free from the reference; a few really large ones
    c.sub_t("large", c.n(48, 1600), 4, || strategy(14..18), |x| by_field!(x.field, run, x; Gold, F252));
    c.sub_t("huge", c.n(12, 300), 2, || strategy(18..21), |x| by_field!(x.field, run, x; Gold, F252));
    c.finish();
}
