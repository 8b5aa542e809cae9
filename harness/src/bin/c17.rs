use ff::PrimeField;
use hodor::domains::Domain;
use hodor::iop::trivial_coset_combiner::TrivialCombiner;
use hodor::iop::CosetCombiner;
use hodor::precomputations::PrecomputedOmegas;
use hodor::verif_hooks::worker_with_cpus;
use hv::proto::*;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size { base: u32, off: i64, any: u64, mode: u8, field: u8 }

/// by definition: an element of order exactly 2^k that is the power of those of larger orders
fn check_domain<F: PrimeField>(size: u64) -> Result<bool, String> {
    let got = guarded(|| Ok(Domain::<F>::new_for_size(size).map_err(|e| format!("{}", e))))?;
    // smallest power of two that is not smaller
    let mut want: u128 = 1;
    let mut log = 0u64;
    while want < size as u128 { want *= 2; log += 1; }
    if log > F::S as u64 || log > 63 {
        ensure!(got.is_err(), "domain for {} elements (two-adicity {}) is not refused: {:?}", size, F::S, got);
        return Ok(false);
    }
    let d = got.map_err(|e| format!("domain for {} elements (two-adicity {}) is refused: {}", size, F::S, e))?;
    ensure!(d.size as u128 == want, "domain for {} elements has {} elements", size, d.size);
    ensure!(d.power_of_two == log, "logarithm {} of the size {}", d.power_of_two, want);
    let g = d.generator;
    let mut x = g;
    let mut minus = F::one();
    minus.negate();
    if log == 0 { ensure!(g == F::one(), "generator of one element"); }
    else {
        for _ in 0..log - 1 { x.square(); }
        ensure!(x == minus, "generator for {} elements has not the order {}", size, want);
    }
    ensure!(g == gen_of::<F>(1usize << log), "generator for {} elements is another than the one derived from the root of unity", size);
    // consistent with the next one
    if log < F::S as u64 && log < 63 {
        let n = guarded(|| Domain::<F>::new_for_size(1u64 << (log + 1)).map_err(|e| format!("{}", e)))?;
        ensure!(mul(n.generator, &n.generator) == g, "generators for {} and {} elements are not consistent", want, 2 * want);
        ensure!(n.size as u128 == 2 * want, "size of the next domain");
    }
    Ok(true)
}

fn size<F: PrimeField>(c: &Size) -> Res {
    let s = match c.mode % 4 {
        0 => ((1u128 << (c.base % 65)) as i128 + c.off as i128).clamp(1, u64::MAX as i128) as u64,
        1 => ((1u128 << F::S.min(64)) as i128 + c.off as i128).clamp(1, u64::MAX as i128) as u64,
        2 => c.any.max(1),
        _ => (c.any >> (c.base % 64)).max(1),
    };
    let ok = check_domain::<F>(s)?;
    Ok(Out::nt().l(if ok { "size exists" } else { "size refused" }).lif(!s.is_power_of_two(), "not a power of two"))
}

fn all_sizes<F: PrimeField>(name: &str) -> Result<(), String> {
    for b in 0..64u32 {
        let p = 1u64 << b;
        for s in [p, p.wrapping_sub(1).max(1), p + 1, p + p / 2] { check_domain::<F>(s).map_err(|e| format!("{}: {}", name, e))?; }
    }
    check_domain::<F>(u64::MAX).map(|_| ()).map_err(|e| format!("{}: {}", name, e))?;
    check_domain::<F>((1 << 63) + 1).map(|_| ()).map_err(|e| format!("{}: {}", name, e))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Idx { log: u32, i: u64, field: u8 }

fn maps<F: PrimeField>(log: u32, i: usize) -> Result<(), String> {
    let n = 1usize << log;
    let (a, b) = guarded(|| Ok((Domain::<F>::coset_for_natural_index_and_size(i, n), Domain::<F>::index_and_size_for_next_domain(i, n))))?;
    let pair = if i < n / 2 { i + n / 2 } else { i - n / 2 };
    ensure!(a == vec![i.min(pair), i.max(pair)], "coset of {} of {}: {:?}", i, n, a);
    ensure!(b == (i.min(pair), n / 2), "next position of {} of {}: {:?}", i, n, b);
    let c = guarded(|| Ok((<TrivialCombiner<F> as CosetCombiner<F>>::get_coset_for_natural_index(i, n), <TrivialCombiner<F> as CosetCombiner<F>>::get_coset_for_tree_index(i, n))))?;
    ensure!(c.0 == a && c.1 == a, "coset of {} of {} by the combiner: {:?}", i, n, c);
    if log <= F::S {
        // meaning in the field
        let w = gen_of::<F>(n);
        let x = powu(&w, i as u64);
        let y = powu(&w, if a[0] == i { a[1] } else { a[0] } as u64);
        ensure!(add(x, &y) == F::zero(), "coset of {} of {} is not x and -x", i, n);
        let w2 = if n / 2 >= 1 { gen_of::<F>(b.1) } else { F::one() };
        ensure!(powu(&w2, b.0 as u64) == mul(x, &x), "next position of {} of {} is not that of the square", i, n);
        ensure!(powu(&w2, b.0 as u64) == mul(y, &y), "next position of {} of {} is not that of the square", i, n);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tab { log: u32, cpus: usize, off: u64, field: u8 }

fn tables<F: PrimeField>(c: &Tab) -> Res {
    let log = c.log.min(F::S);
    let n = 1usize << log;
    let d = guarded(|| Domain::<F>::new_for_size(n as u64 - c.off % (n as u64 / 2).max(1)).map_err(|e| format!("{}", e)))?;
    let t = guarded(|| Ok(PrecomputedOmegas::<F>::new_for_domain(&d, &worker_with_cpus(c.cpus))))?;
    ensure!(t.omegas.len() == n && t.coset.len() == n && t.omegas_inv.len() == n / 2, "sizes of tables {} {} {}", t.omegas.len(), t.coset.len(), t.omegas_inv.len());
    let w = gen_of::<F>(n);
    let mg = F::multiplicative_generator();
    let mut x = F::one();
    for i in 0..n {
        ensure!(t.omegas[i] == x, "power {} of {} (cpus {})", i, n, c.cpus);
        ensure!(t.coset[i] == mul(x, &mg), "shifted power {} of {} (cpus {})", i, n, c.cpus);
        if i < n / 2 { ensure!(mul(t.omegas_inv[i], &x) == F::one(), "inverse power {} of {} (cpus {})", i, n, c.cpus); }
        x.mul_assign(&w);
    }
    Ok(Out::when(n > 2).lif(c.cpus > 1, "several cpus").lif(c.cpus > n, "more cpus than elements"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pos { bytes: Vec<u8>, tail: u64, log: u32, lde_log: u32 }

fn position(c: &Pos) -> Res {
    let size = 1usize << c.log;
    let lde = 1usize << (c.lde_log % c.log.max(1)).min(c.log);
    let mut b = c.bytes.clone();
    b.extend_from_slice(&c.tail.to_be_bytes());
    let f = |b: &[u8]| guarded(|| Ok(LibVerifier::<Gold>::bytes_to_challenge_index(b, size, lde)));
    let i = f(&b)?;
    ensure!(i < size, "position {} of {}", i, size);
    ensure!(i % 2 == 1, "position {} of {} is even", i, size);
    ensure!(lde == 1 || lde == size || i % lde != 0, "position {} of {} is within the trace domain (blow-up {})", i, size, lde);
    ensure!(i == challenge_index(&b, size, lde), "position {} of {} for {:016x}, blow-up {}", i, size, c.tail, lde);
    // only the last eight bytes matter
    let t = c.tail.to_be_bytes();
    ensure!(f(&t)? == i, "bytes before the last eight change the position");
    let mut o = vec![0xa5; 1 + c.bytes.len()];
    o.extend_from_slice(&t);
    ensure!(f(&o)? == i, "bytes before the last eight change the position");
    let r = guarded(|| Ok(LibVerifier::<F252>::bytes_to_challenge_index(&b, size, lde)))?;
    ensure!(r == i, "position depends on the field");
    Ok(Out::nt().lif(c.tail as usize % size == size - 1 || c.tail as usize % size == 0, "at the end of the domain"))
}

fn main() {
    let c = Ctx::new("C17", "any size, any index of a domain of at least two, tables of more than two elements, any bytes");
    c.one("sizes around every power of two", || {
        all_sizes::<F257>("257")?; all_sizes::<F17>("65537")?; all_sizes::<F31>("31 bits")?; all_sizes::<Baby>("babybear")?; all_sizes::<F63>("63 bits")?; all_sizes::<F64>("64 bits")?; all_sizes::<Gold>("goldilocks")?;
        all_sizes::<F65>("65 bits")?; all_sizes::<F128>("128 bits")?; all_sizes::<F129>("129 bits")?; all_sizes::<F192>("192 bits")?; all_sizes::<F193>("193 bits")?; all_sizes::<F252>("252 bits")?; all_sizes::<F255>("255 bits")?;
        Ok(Out::nt())
    });
    c.one("every index of small domains", || {
        for log in 1..=8 { for i in 0..1usize << log { maps::<F257>(log, i)?; maps::<F252>(log, i)?; maps::<Gold>(log, i)?; } }
        Ok(Out::nt())
    });
    c.one("every position of small domains", || {
        for log in 1..=8u32 { for lde in 0..=log.min(7) { for t in 0..(1u64 << log) * 2 + 3 { position(&Pos { bytes: vec![], tail: t, log, lde_log: lde })?; position(&Pos { bytes: vec![], tail: u64::MAX - t, log, lde_log: lde })?; } } }
        Ok(Out::nt())
    });
    c.sub("sizes", c.n(450000, 16000000), || (any::<u32>(), -3i64..=3, any::<u64>(), any::<u8>(), any::<u8>()).prop_map(|(base, off, any, mode, field)| Size { base, off, any, mode, field }).boxed(),
        |x| by_field!(x.field, size, x; Gold, F252, F257, F255, F17, Baby, F63, F64, F65, F128, F129, F192, F193, F31));
    fn maps_case<F: PrimeField>(c: &Idx) -> Res { maps::<F>(c.log, (c.i as usize) % (1usize << c.log))?; Ok(Out::nt()) }
    c.sub("index maps", c.n(450000, 16000000), || (1u32..63, any::<u64>(), any::<u8>()).prop_map(|(log, i, field)| Idx { log, i, field }).boxed(),
        |x| by_field!(x.field, maps_case, x; Gold, F252, F257, F255, F17, Baby, F64, F128, F193));
    c.sub("tables", c.n(24000, 800000), || (prop_oneof![4 => 0u32..6, 1 => 6u32..11], 1usize..=20, any::<u64>(), any::<u8>()).prop_map(|(log, cpus, off, field)| Tab { log, cpus, off, field }).boxed(),
        |x| by_field!(x.field, tables, x; Gold, F252, F257, F255, F17, Baby, F64, F128, F193));
    c.sub("large tables", c.n(60, 3000), || (11u32..19, 1usize..=20, any::<u64>(), any::<u8>()).prop_map(|(log, cpus, off, field)| Tab { log, cpus, off, field }).boxed(),
        |x| by_field!(x.field, tables, x; Gold, F252, F257, F255, F17, Baby, F64, F128, F193));
    c.sub("positions", c.n(900000, 40000000), || (vec(any::<u8>(), 0..40), prop_oneof![3 => any::<u64>(), 1 => 0u64..70, 1 => (0u64..70).prop_map(|x| u64::MAX - x), 1 => (0u32..64, 0u64..5).prop_map(|(s, d)| (1u64 << s).wrapping_sub(d))], 1u32..33, any::<u32>())
        .prop_map(|(bytes, tail, log, lde_log)| Pos { bytes, tail, log, lde_log }).boxed(), position);
    c.finish();
}
