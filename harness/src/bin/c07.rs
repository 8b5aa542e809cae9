use ff::{Field, PrimeField};
use hodor::fri::*;
use hv::fri_ref::*;
use hv::refmath::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What the prover does wrong (everything else follows the protocol)
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Forge {
    Honest,
    /// values over the whole domain that are no polynomial of low degree
    HighDegree { seed: u64, kind: u8, by_lib: bool },
    /// degree just at the bound
    JustAbove { seed: u64, by_lib: bool },
    /// few positions of an evaluation of a polynomial of low degree are changed
    FewPositions { at: Vec<u64>, seed: u64 },
    /// a layer is of another polynomial of low degree
    Layer { k: u64, seed: u64 },
    /// only the queried coset of a layer is changed
    LayerAtQuery { k: u64, seed: u64, both: bool },
    /// fold uses another challenge
    Challenge { k: u64, how: u8 },
    /// folds with the plus and minus (or even and odd) parts exchanged
    FoldKind { k: u64, how: u8 },
    /// final polynomial differs, but agrees at one of two opened points
    FinalsHalf { minus: bool, seed: u64 },
    /// final polynomial is another one
    Finals { seed: u64 },
    /// the expected value is another one
    Expected { how: u64 },
    /// opened for one position, verified at another
    Position { to: u64 },
    /// a layer opened at another coset (with right paths)
    Coset { k: u64, by: u64 },
    /// values are the ones that would make the fold consistent, authentication of them fails
    FixedUp { k: u64, own_tree: bool },
    /// parameters with the same domain (or another)
    Params { m: u64 },
    /// layers exchanged
    SwapLayers { a: u64, b: u64 },
    /// paths of both openings in a pair exchanged
    SwapPair { k: u64, what: u8 },
    /// folded down to a single value
    OneValue,
    /// round left out / added
    Rounds { less: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { init_log: u32, lde_log: u32, out_log: u32, kind: u8, seed: u64, index: u64, forge: Forge, muts: Vec<FriMut>, field: u8 }

/// RefFri::commit with own ways of folding
fn commit_with<F: PrimeField>(values: Vec<F>, init: usize, lde: usize, out: usize, at: usize, f: &dyn Fn(&[F], &F) -> Vec<F>) -> RefFri<F> {
    let steps = log2(init / out) as usize;
    let mut layers = vec![values];
    let mut trees = vec![RefTree::new(&layers[0])];
    let mut challenges = vec![];
    for i in 0..steps {
        let c = digest_to_field::<F>(&trees[i].root());
        challenges.push(c);
        let next = if i == at { f(&layers[i], &c) } else { fold(&layers[i], &c) };
        trees.push(RefTree::new(&next));
        layers.push(next);
    }
    let mut finals = interpolate_domain(layers.last().unwrap());
    finals.truncate(out);
    RefFri { layers, trees, challenges, finals, init, out, lde }
}

fn run<F: PrimeField>(c: &Case) -> Res {
    let init_log = 1 + c.init_log % 6;
    let mut lde_log = c.lde_log % 5;
    let mut out_log = c.out_log % init_log;
    if lde_log == 0 && out_log == 0 { if init_log > 1 { out_log = 1 } else { lde_log = 1 } }
    let (init, lde, out) = (1usize << init_log, 1usize << lde_log, 1usize << out_log);
    let size = init * lde;
    let steps = (init_log - out_log) as usize;
    let coeffs: Vec<F> = VecSpec { len: init, kind: c.kind, seed: c.seed }.expand();
    let values = eval_domain(&coeffs, size, &F::one());
    let index = (c.index as usize % (size / 2)) * 2 + 1;
    let honest = || RefFri::commit(values.clone(), init, lde, out, None);
    let by_lib = |v: &Vec<F>| -> Result<PFri<F>, String> {
        with_cpus(1, || {
            let worker = hodor::verif_hooks::Worker::new();
            let poly = hodor::polynomials::Polynomial::from_values(v.clone()).map_err(|e| format!("{}", e))?;
            let p = guarded(|| Fri::<F>::proof_from_lde_by_values(&poly, lde, out, &worker).map_err(|e| format!("{}", e)))?;
            Ok(PFri::from_lib(&guarded(|| p.produce_proof(&poly, index).map_err(|e| format!("{}", e)))?))
        })
    };
    let mut expected = values[index];
    let mut at = index;
    // whether it is certain (up to a negligible chance) that the proof has to be rejected
    let mut must_reject = false;
    let big = F::NUM_BITS >= 63;
    let mut p: PFri<F> = match &c.forge {
        Forge::Honest => honest().open(index),
        Forge::HighDegree { seed, kind, by_lib: bl } => {
            let v: Vec<F> = VecSpec { len: size, kind: *kind, seed: *seed }.expand();
            expected = v[index];
            must_reject = big && *kind == 0 && lde > 1;
            if *bl { by_lib(&v)? } else { RefFri::commit(v, init, lde, out, None).open(index) }
        }
        Forge::JustAbove { seed, by_lib: bl } => {
            if lde == 1 { return Ok(Out::trivial()); }
            let mut k = coeffs.clone();
            k.push(el_nonzero(*seed));
            let v = eval_domain(&k, size, &F::one());
            expected = v[index];
            must_reject = big;
            if *bl { by_lib(&v)? } else { RefFri::commit(v, init, lde, out, None).open(index) }
        }
        Forge::FewPositions { at, seed } => {
            let mut v = values.clone();
            for (j, a) in at.iter().enumerate() { v[*a as usize % size].add_assign(&el_nonzero::<F>(mix(*seed ^ j as u64))); }
            expected = v[index];
            RefFri::commit(v, init, lde, out, None).open(index)
        }
        Forge::Layer { k, seed } => {
            let k = 1 + *k as usize % steps;
            let d = init >> k;
            let v = eval_domain(&VecSpec { len: d, kind: 0, seed: *seed }.expand::<F>(), d * lde, &F::one());
            must_reject = big;
            RefFri::commit(values.clone(), init, lde, out, Some((k, v))).open(index)
        }
        Forge::LayerAtQuery { k, seed, both } => {
            let k = 1 + *k as usize % steps;
            let h = honest();
            let mut v = h.layers[k].clone();
            let n = v.len();
            let i = index % n;
            v[i].add_assign(&el_nonzero::<F>(*seed));
            if *both { let j = (i + n / 2) % n; v[j].add_assign(&el_nonzero::<F>(mix(*seed))); }
            must_reject = true;
            RefFri::commit(values.clone(), init, lde, out, Some((k, v))).open(index)
        }
        Forge::Challenge { k, how } => {
            let how = *how;
            let mut same = false;
            let r = commit_with(values.clone(), init, lde, out, *k as usize % steps, &|v, c| {
                let other = match how % 5 { 0 => F::zero(), 1 => F::one(), 2 => neg(*c), 3 => add(*c, &F::one()), _ => mul(*c, c) };
                fold(v, &other)
            });
            let h = honest();
            if r.layers == h.layers { same = true; }
            must_reject = big && !same && c.kind == 0;
            r.open(index)
        }
        Forge::FoldKind { k, how } => {
            let how = *how;
            let r = commit_with(values.clone(), init, lde, out, *k as usize % steps, &|v, c| {
                let n = v.len();
                let w = inv(gen_of::<F>(n));
                let half = inv(f_u64::<F>(2));
                let mut xi = F::one();
                (0..n / 2).map(|i| {
                    let (a, b) = if how % 6 == 0 { (v[i + n / 2], v[i]) } else { (v[i], v[i + n / 2]) };
                    let e = add(a, &b);
                    let mut o = sub(a, &b);
                    if how % 6 != 1 { o.mul_assign(&xi); }
                    if how % 6 == 2 { o = mul(sub(a, &b), &inv(xi)); }
                    let mut r = match how % 6 { 3 => add(mul(e, c), &o), _ => add(e, &mul(o, c)) };
                    if how % 6 != 4 { r.mul_assign(&half); }
                    if how % 6 == 5 { r = a; }
                    xi.mul_assign(&w);
                    r
                }).collect()
            });
            r.open(index)
        }
        Forge::FinalsHalf { minus, seed } => {
            let h = honest();
            let mut p = h.open(index);
            if out < 2 { return Ok(Out::trivial().l("one final coefficient")); }
            let n = out * lde;
            let mut x = powu(&gen_of::<F>(n), (index % n) as u64);
            if *minus { x.negate(); }
            // finals + s * (X - x)
            let s: F = el_nonzero(*seed);
            p.finals[0].sub_assign(&mul(s, &x));
            p.finals[1].add_assign(&s);
            must_reject = true;
            p
        }
        Forge::Finals { seed } => { let mut p = honest().open(index); for (i, f) in p.finals.iter_mut().enumerate() { *f = el(mix(*seed ^ i as u64)); } must_reject = big; p }
        Forge::Expected { how } => { alter_el(&mut expected, *how); must_reject = expected != values[index]; honest().open(index) }
        Forge::Position { to } => { at = *to as usize % (size + 3); must_reject = at % (size / 2) != index % (size / 2) || at >= size; honest().open(index) }
        Forge::Coset { k, by } => {
            let h = honest();
            let k = *k as usize % h.layers.len();
            let mut p = h.open(index);
            let n = h.layers[k].len();
            if n < 4 { return Ok(Out::trivial()); }
            let lo = (p.queries[2 * k].index + 1 + *by as usize % (n / 2 - 1)) % (n / 2);
            p.queries[2 * k] = h.trees[k].open(&h.layers[k], lo);
            p.queries[2 * k + 1] = h.trees[k].open(&h.layers[k], lo + n / 2);
            must_reject = true;
            p
        }
        Forge::FixedUp { k, own_tree } => {
            // other pair at layer k with the same fold and the same value on the way
            let h = honest();
            let k = *k as usize % steps;
            let mut p = h.open(index);
            let n = h.layers[k].len();
            let i = index % n;
            let (here, other) = if i >= n / 2 { (1, 0) } else { (0, 1) };
            let d: F = el_nonzero(c.seed);
            // (v + y) + c (v - y) s / x: only one solution for y, so both values move for k == 0
            let lo = p.queries[2 * k].index;
            let x = powu(&gen_of::<F>(n), lo as u64);
            let ch = mul(h.challenges[k], &inv(x));
            let (k0, k1) = (add(F::one(), &ch), sub(F::one(), &ch));
            // k0 * a + k1 * b = const
            let k1i = match k1.inverse() { Some(x) => x, None => return Ok(Out::trivial()) };
            p.queries[2 * k].value.add_assign(&d);
            p.queries[2 * k + 1].value.sub_assign(&mul(mul(d, &k0), &k1i));
            if k == 0 { expected = p.queries[here].value; }
            if *own_tree {
                let mut l = h.layers[k].clone();
                l[lo] = p.queries[2 * k].value;
                l[lo + n / 2] = p.queries[2 * k + 1].value;
                let t = RefTree::new(&l);
                p.queries[2 * k].path = t.path(lo);
                p.queries[2 * k + 1].path = t.path(lo + n / 2);
            }
            let _ = other;
            must_reject = true;
            p
        }
        Forge::Params { m } => {
            let mut p = honest().open(index);
            let s = 1 + (m / 64) as u32 % 3;
            match m % 8 {
                0 => { p.init <<= s; p.lde >>= s; }
                1 => { p.init >>= s; p.lde <<= s; }
                2 => { p.init <<= s; p.out <<= s; p.lde >>= s; p.finals.resize(p.out, F::zero()); }
                3 => { p.init <<= s; p.out <<= s; }
                4 => p.out <<= s,
                5 => p.out >>= s,
                6 => p.lde <<= s,
                _ => { p.init >>= s; p.out >>= s; p.lde <<= s; p.finals.truncate(p.out); }
            }
            p
        }
        Forge::SwapLayers { a, b } => {
            let mut p = honest().open(index);
            let n = p.roots.len();
            let i = *a as usize % n;
            let j = (i + 1 + *b as usize % (n - 1)) % n;
            p.roots.swap(i, j);
            p.queries.swap(2 * i, 2 * j);
            p.queries.swap(2 * i + 1, 2 * j + 1);
            must_reject = true;
            p
        }
        Forge::SwapPair { k, what } => {
            let mut p = honest().open(index);
            let k = 2 * (*k as usize % p.roots.len());
            match what % 3 {
                0 => p.queries.swap(k, k + 1),
                1 => { let t = p.queries[k].path.clone(); p.queries[k].path = p.queries[k + 1].path.clone(); p.queries[k + 1].path = t; }
                _ => { let t = p.queries[k].value; p.queries[k].value = p.queries[k + 1].value; p.queries[k + 1].value = t; }
            }
            p
        }
        Forge::OneValue => {
            let v = eval_domain(&coeffs, init, &F::one());
            at = index % init | 1;
            expected = v[at];
            must_reject = true;
            RefFri::commit(v, init, 1, 1, None).open(at)
        }
        Forge::Rounds { less } => {
            let mut p = honest().open(index);
            if *less {
                p.roots.pop(); p.queries.pop(); p.queries.pop();
            } else {
                let r = *p.roots.last().unwrap();
                p.roots.push(r);
                let q = p.queries[p.queries.len() - 2..].to_vec();
                p.queries.extend(q);
            }
            must_reject = true;
            p
        }
    };
    for m in c.muts.iter() { apply_fri(&mut p, m); }
    let reference = ref_fri_verify(&p, at, &expected);
    let got = guarded(|| <Fri<F> as FriIop<F>>::verify_proof(&p.to_lib(), at, expected).map_err(|e| format!("{}", e)));
    let name = format!("{:?}", c.forge).split(|x: char| !x.is_alphanumeric()).next().unwrap().to_string();
    ensure!(!matches!(&got, Err(m) if m.starts_with("panic")), "verifier panics: {:?} ({})", got, name);
    let got = got.unwrap_or(false);
    let label = format!("{} {}", name, if got { "accepted" } else { "rejected" });
    ensure!(got == reference, "verdict is {} while the protocol says {} for {:?} mutated by {:?} at position {} of {} (degree {} blow-up {} output {})", got, reference, c.forge, c.muts, at, size, init, lde, out);
    ensure!(!(got && must_reject && c.muts.is_empty()), "accepted: {:?} (degree {} blow-up {} output {})", c.forge, init, lde, out);
    if let (Forge::Honest, true) = (&c.forge, c.muts.is_empty()) { ensure!(got, "honest proof is rejected"); }
    let dishonest = !matches!(c.forge, Forge::Honest) || !c.muts.is_empty();
    Ok(Out::when(dishonest && !got).l(label))
}

fn forge() -> BoxedStrategy<Forge> {
    let s = any::<u64>;
    let b = any::<bool>;
    prop_oneof![
        3 => Just(Forge::Honest),
        2 => (s(), 0u8..8, prop_oneof![8 => Just(false), 1 => Just(true)]).prop_map(|(seed, kind, by_lib)| Forge::HighDegree { seed, kind, by_lib }),
        2 => (s(), prop_oneof![8 => Just(false), 1 => Just(true)]).prop_map(|(seed, by_lib)| Forge::JustAbove { seed, by_lib }),
        2 => (vec(s(), 1..4), s()).prop_map(|(at, seed)| Forge::FewPositions { at, seed }),
        2 => (s(), s()).prop_map(|(k, seed)| Forge::Layer { k, seed }),
        2 => (s(), s(), b()).prop_map(|(k, seed, both)| Forge::LayerAtQuery { k, seed, both }),
        2 => (s(), any::<u8>()).prop_map(|(k, how)| Forge::Challenge { k, how }),
        2 => (s(), any::<u8>()).prop_map(|(k, how)| Forge::FoldKind { k, how }),
        2 => (b(), s()).prop_map(|(minus, seed)| Forge::FinalsHalf { minus, seed }),
        1 => s().prop_map(|seed| Forge::Finals { seed }),
        1 => s().prop_map(|how| Forge::Expected { how }),
        1 => s().prop_map(|to| Forge::Position { to }),
        2 => (s(), s()).prop_map(|(k, by)| Forge::Coset { k, by }),
        2 => (s(), b()).prop_map(|(k, own_tree)| Forge::FixedUp { k, own_tree }),
        2 => s().prop_map(|m| Forge::Params { m }),
        1 => (s(), s()).prop_map(|(a, b)| Forge::SwapLayers { a, b }),
        1 => (s(), any::<u8>()).prop_map(|(k, what)| Forge::SwapPair { k, what }),
        1 => Just(Forge::OneValue),
        1 => b().prop_map(|less| Forge::Rounds { less }),
    ].boxed()
}

fn strategy(muts: std::ops::Range<usize>, honest: bool, kind: Option<u8>) -> BoxedStrategy<Case> {
    let v = vecspec_len(Just(0usize).boxed());
    (0u32..6, 0u32..5, prop_oneof![Just(0u32), 0u32..6], v, any::<u64>(), if honest { Just(Forge::Honest).boxed() } else { forge() }, vec(strat::frimut(), muts), any::<u8>())
        .prop_map(move |(init_log, lde_log, out_log, v, index, forge, muts, field)| Case { init_log, lde_log, out_log, kind: kind.unwrap_or(v.kind), seed: v.seed, index, forge, muts, field }).boxed()
}

fn main() {
    let c = Ctx::new("C07", "the proof differs from an honest one and is rejected (labels count verdicts by kind of forgery)");
    c.sub("forged provers", c.n(40000, 8000000), || strategy(0..1, false, None), |x| by_field!(x.field, run, x; Gold, F252, F128, F255));
    c.sub("mutated proofs", c.n(40000, 8000000), || strategy(1..4, true, None), |x| by_field!(x.field, run, x; Gold, F252, F128, F255));
    c.sub("mutated forgeries", c.n(20000, 4000000), || strategy(1..3, false, None), |x| by_field!(x.field, run, x; Gold, F252, Baby, F17));
    // all the values are the same (constant): positions and shapes are all that can be wrong
    c.sub("constants", c.n(20000, 4000000), || strategy(0..3, false, Some(2)), |x| by_field!(x.field, run, &Case { seed: x.seed / 64 * 64 * 128, ..x.clone() }; Gold, F252, Baby));
    c.finish();
}
