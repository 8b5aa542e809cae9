use ff::{Field, PrimeField};
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::trivial_coset_combiner::TrivialCombiner;
use hodor::iop::*;
use hv::blake::hodor_hash;
use hv::fri_ref::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Tree<F> = Blake2sIopTree<F>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { log_n: u32, kind: u8, seed: u64, cpus: usize, cpus2: usize, at: u64, muts: Vec<QMut>, to: Move, field: u8 }

/// where else the opening is tried
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Move {
    /// every other position of the tree
    Everywhere,
    /// far outside, index congruent to the position
    Beyond { k: u64 },
    /// any other index
    Index { i: u64 },
    /// root of another vector
    OtherRoot { at: u64, how: u64 },
    /// root with a bit changed
    RootBit { bit: u64 },
    /// an inner node as root with a short path
    InnerRoot { level: u64 },
    /// path of the position with a value of another position
    PathOf { other: u64 },
    /// the sum of a path: an inner node presented as a leaf of a smaller tree cannot be opened
    Short { by: u64 },
    Long { seed: u64, zero: bool },
}

fn run<F: PrimeField>(c: &Case) -> Res {
    let n = 1usize << c.log_n;
    let v: Vec<F> = VecSpec { len: n, kind: c.kind, seed: c.seed }.expand();
    let rt = RefTree::new(&v);
    let (tree, iop) = with_cpus(c.cpus, || guarded(|| Ok((Tree::<F>::create(&v), TrivialBlake2sIOP::<F>::create(&v)))))?;
    let root = rt.root();
    ensure!(tree.get_root() == root && iop.get_root() == root, "root of {} leaves on {} cpus is not that of the tree", n, c.cpus);
    ensure!(tree.size() == n as u64, "size {} of a tree of {} leaves", tree.size(), n);
    let again = with_cpus(c.cpus2, || guarded(|| Ok(TrivialBlake2sIOP::<F>::create(&v))))?;
    ensure!(again == iop && again.get_root() == root, "another root on {} cpus than on {}", c.cpus2, c.cpus);
    // every position opens
    let verify = |q: &PQuery<F>, r: &Hash| -> Result<bool, String> { guarded(|| Ok(TrivialBlake2sIOP::verify_query(&q.to_lib(), r))) };
    let verify_t = |q: &PQuery<F>, r: &Hash| -> Result<bool, String> { guarded(|| Ok(Tree::<F>::verify(r, &q.value, &q.path, q.index))) };
    let positions: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..24u64).map(|k| mix(c.at ^ k) as usize % n).chain(vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1]).collect() };
    for i in positions.iter() {
        let i = *i;
        let q = guarded(|| Ok(iop.query(i, &v)))?;
        ensure!(q.value() == v[i], "value opened at {} is another", i);
        ensure!(q.natural_index() == i && q.tree_index() == i, "index of the opening at {}", i);
        ensure!(q.path() == &rt.path(i)[..], "path of position {} in {} leaves", i, n);
        ensure!(guarded(|| Ok(tree.get_path(i, &v)))? == rt.path(i), "path of position {} in {} leaves (tree)", i, n);
        let p = PQuery::from_lib(&q);
        ensure!(verify(&p, &root)? && verify_t(&p, &root)?, "opening at {} of {} leaves is not accepted", i, n);
        ensure!(TrivialBlake2sIOP::<F>::get_for_natural_index(&v, i) == &v[i] && TrivialBlake2sIOP::<F>::get_for_tree_index(&v, i) == &v[i], "leaf {}", i);
        ensure!(<TrivialCombiner<F> as CosetCombiner<F>>::tree_index_into_natural_index(<TrivialCombiner<F> as CosetCombiner<F>>::natural_index_into_tree_index(i)) == i, "index map {}", i);
    }
    // leaf and node hashing
    let at = c.at as usize % n;
    ensure!(<Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_leaf(&v[at]) == hodor_hash(&leaf_bytes(&v[at])), "hash of a leaf");
    ensure!(<Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(&v[at]) == leaf_bytes(&v[at]), "encoding of a leaf");
    let mut both = rt.path(at)[0].to_vec(); both.extend_from_slice(&root);
    for level in 0..3 { ensure!(<Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(&[rt.path(at)[0], root], level) == hodor_hash(&both), "hash of a node at level {}", level); }
    // a different vector never has this root
    let mut w = v.clone();
    w[at].add_assign(&el_nonzero(c.at >> 8));
    let other = guarded(|| Ok(Tree::<F>::create(&w)))?;
    ensure!(other.get_root() != root && other.get_root() == RefTree::new(&w).root(), "the root does not depend on leaf {}", at);

    let honest = rt.open(&v, at);
    let mut out = Out::when(n > 2);
    let mut reject = |q: &PQuery<F>, r: &Hash, what: &str| -> Result<(), String> {
        let a = verify(q, r)?;
        let b = verify_t(q, r)?;
        // equal leaves may make it the right opening of another position
        if r == &root && q.index < n && q == &rt.open(&v, q.index) { ensure!(a && b, "not accepted: opening at {} of {} leaves", q.index, n); return Ok(()); }
        if ref_merkle_verify(r, q, None) { return Err(format!("harness: {} is a right opening", what)); }
        ensure!(!a && !b, "accepted: {} (leaf {} of {})", what, at, n);
        Ok(())
    };
    // mutations
    let mut q = honest.clone();
    for m in c.muts.iter() { apply_query(&mut q, m); }
    if q != honest { reject(&q, &root, "altered opening")?; out = out.l("altered"); } else { out = out.l("alteration without effect"); }
    // elsewhere
    let mut q = honest.clone();
    match c.to {
        Move::Everywhere => { for i in 0..n.min(256) { if i != at { q.index = i; reject(&q, &root, &format!("opening of another position as that of {}", i))?; } } out = out.l("every other position"); }
        Move::Beyond { k } => {
            let k = 1 + k % 1000;
            for e in 0..60u32 { let d = (k as usize).checked_mul(n).and_then(|x| x.checked_shl(e)); if let Some(i) = d.and_then(|d| at.checked_add(d)) { if i != at { q.index = i; reject(&q, &root, &format!("position {}", i))?; } } }
            for sh in c.log_n..64 { q.index = at | (1usize << sh); if q.index != at { reject(&q, &root, "position beyond the tree")?; } }
            out = out.l("beyond the tree");
        }
        Move::Index { i } => { q.index = i as usize; if q.index != at { reject(&q, &root, "another index")?; } out = out.l("another index"); }
        Move::OtherRoot { at: a2, how } => {
            let mut w = v.clone();
            let a2 = a2 as usize % n;
            w[a2].add_assign(&el_nonzero(how));
            let r = RefTree::new(&w).root();
            reject(&q, &r, "root of a different vector")?;
            // and the other way
            reject(&RefTree::new(&w).open(&w, at), &root, "opening of a different vector")?;
            out = out.l("another vector");
        }
        Move::RootBit { bit } => { let mut r = root; r[(bit / 8 % 32) as usize] ^= 1 << (bit % 8); reject(&q, &r, "root with another bit")?; out = out.l("bit of the root"); }
        Move::InnerRoot { level } => {
            let l = level as usize % c.log_n as usize;
            // root of another subtree than that of the position
            let i = at >> l;
            let r = rt.levels[l][i ^ 1];
            if r != rt.levels[l][i] { q.path.truncate(l); q.index = at & ((1 << l) - 1); reject(&q, &r, "node of the tree as root")?; out = out.l("inner node"); }
        }
        Move::PathOf { other } => {
            let o = other as usize % n;
            let p = rt.path(o);
            if p != q.path { q.path = p; reject(&q, &root, "path of another position")?; out = out.l("path of another position"); }
        }
        Move::Short { by } => { let k = q.path.len() - 1 - (by as usize % q.path.len()); q.path.truncate(k); for i in 0..=at.min(64) { q.index = i; reject(&q, &root, "short path")?; } q.index = at; reject(&q, &root, "short path")?; out = out.l("short path"); }
        Move::Long { seed, zero } => { q.path.push(if zero { [0; 32] } else { fresh_hash(seed) }); reject(&q, &root, "long path")?; q.index += n; reject(&q, &root, "long path at a further position")?; out = out.l("long path"); }
    }
    Ok(out.lif(c.cpus.min(max_cpus()) > 1, "several cpus").lif(n == 2, "two leaves"))
}

fn strategy(logs: std::ops::RangeInclusive<u32>, max_cpus: usize) -> BoxedStrategy<Case> {
    let s = any::<u64>;
    let mv = prop_oneof![
        1 => Just(Move::Everywhere), 2 => s().prop_map(|k| Move::Beyond { k }), 1 => s().prop_map(|i| Move::Index { i }),
        1 => (s(), s()).prop_map(|(at, how)| Move::OtherRoot { at, how }), 1 => s().prop_map(|bit| Move::RootBit { bit }), 1 => s().prop_map(|level| Move::InnerRoot { level }),
        1 => s().prop_map(|other| Move::PathOf { other }), 1 => s().prop_map(|by| Move::Short { by }), 1 => (s(), any::<bool>()).prop_map(|(seed, zero)| Move::Long { seed, zero }),
    ];
    (logs, vecspec_len(Just(0usize).boxed()), prop_oneof![3 => Just(1usize), 2 => 1..=max_cpus], prop_oneof![3 => Just(1usize), 2 => 1..=max_cpus], s(), vec(strat::qmut(), 1..3), mv, any::<u8>())
        .prop_map(|(log_n, v, cpus, cpus2, at, muts, to, field)| Case { log_n, kind: v.kind, seed: v.seed, cpus, cpus2, at, muts, to, field }).boxed()
}

fn main() {
    let mut c = Ctx::new("C11", "more than two leaves");
    c.assume("Blake2s is collision resistant; the harness's own Blake2s is checked against test vectors at start");
    c.sub("small", c.n(22000, 3000000), || strategy(1..=6, 4), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby, F63, F64, F65, F128, F129, F192, F193, F31));
    c.sub("medium", c.n(2100, 300000), || strategy(7..=11, 8), |x| by_field!(x.field, run, x; Gold, F252, F255, F64, F193));
    c.sub("large", c.n(30, 5000), || strategy(12..=14, 8), |x| by_field!(x.field, run, x; Gold, F252));
    c.sub_t("huge", c.n(6, 400), 2, || strategy(15..=18, 8), |x| by_field!(x.field, run, x; Gold, F252));
    c.finish();
}
