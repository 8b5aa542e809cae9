//! Reference Merkle tree, FRI prover and FRI verifier, and plain (mutable) forms of proofs. Written from the description
//! of the protocol, sequential, with the harness's own Blake2s.
use crate::blake::hodor_hash;
use crate::el::*;
use crate::refmath::*;
use ff::{Field, PrimeField, PrimeFieldRepr};
use hodor::fri::*;
use hodor::iop::blake2s_trivial_iop::{TrivialBlake2sIOP, TrivialBlake2sIopQuery};
use hodor::iop::*;
use serde::{Deserialize, Serialize};

pub type Hash = [u8; 32];
pub type Iop<F> = TrivialBlake2sIOP<F>;
pub type Query<F> = TrivialBlake2sIopQuery<F>;
pub type Fri<F> = NaiveFriIop<F, Iop<F>>;
pub type FriP<F> = FRIProof<F, Iop<F>>;
pub type FriProto<F> = FRIProofPrototype<F, Iop<F>>;

/// internal (Montgomery) representation, little endian, padded to 32 bytes
pub fn leaf_bytes<F: PrimeField>(f: &F) -> Hash {
    let mut out = [0u8; 32];
    let repr = f.into_raw_repr();
    for (i, l) in repr.as_ref().iter().enumerate() {
        out[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
    }
    out
}

/// leading bytes of the digest as a big-endian number, low CAPACITY bits of it
pub fn digest_to_field<F: PrimeField>(d: &Hash) -> F {
    let limbs = F::Repr::default().as_ref().len();
    let bytes = &d[..8 * limbs];
    let mut acc = F::zero();
    let bits = 8 * bytes.len() as u32;
    for i in 0..bits {
        acc.double();
        let from_low = bits - 1 - i;
        if from_low < F::CAPACITY && (bytes[(i / 8) as usize] >> (7 - i % 8)) & 1 == 1 {
            acc.add_assign(&F::one());
        }
    }
    acc
}

fn node(a: &Hash, b: &Hash) -> Hash {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    hodor_hash(&v)
}

#[derive(Clone)]
pub struct RefTree { pub levels: Vec<Vec<Hash>> }

impl RefTree {
    pub fn new<F: PrimeField>(v: &[F]) -> RefTree {
        assert!(v.len().is_power_of_two());
        let mut levels = vec![v.iter().map(|x| hodor_hash(&leaf_bytes(x))).collect::<Vec<_>>()];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last().unwrap();
            let n = l.chunks(2).map(|c| node(&c[0], &c[1])).collect();
            levels.push(n);
        }
        RefTree { levels }
    }
    pub fn root(&self) -> Hash { self.levels.last().unwrap()[0] }
    pub fn path(&self, i: usize) -> Vec<Hash> {
        let mut i = i;
        let mut p = vec![];
        for l in &self.levels[..self.levels.len() - 1] { p.push(l[i ^ 1]); i >>= 1; }
        p
    }
    pub fn open<F: PrimeField>(&self, v: &[F], i: usize) -> PQuery<F> { PQuery { index: i, value: v[i], path: self.path(i) } }
}

pub fn ref_merkle_verify<F: PrimeField>(root: &Hash, q: &PQuery<F>, tree_size: Option<usize>) -> bool {
    let mut h = hodor_hash(&leaf_bytes(&q.value));
    let mut i = q.index;
    for s in q.path.iter() {
        h = if i % 2 == 0 { node(&h, s) } else { node(s, &h) };
        i /= 2;
    }
    let ok = i == 0 && &h == root;
    match tree_size { Some(s) => ok && s == 1usize << q.path.len(), None => ok }
}

#[derive(Clone, PartialEq, Debug)]
pub struct PQuery<F: PrimeField> { pub index: usize, pub value: F, pub path: Vec<Hash> }

impl<F: PrimeField> PQuery<F> {
    pub fn from_lib(q: &Query<F>) -> Self { PQuery { index: q.natural_index(), value: q.value(), path: q.path().to_vec() } }
    pub fn to_lib(&self) -> Query<F> { hodor::verif_hooks::query_from_parts(self.index, self.value, self.path.clone()) }
}

#[derive(Clone, PartialEq, Debug)]
pub struct PFri<F: PrimeField> {
    pub queries: Vec<PQuery<F>>, pub roots: Vec<Hash>, pub finals: Vec<F>, pub init: usize, pub out: usize, pub lde: usize,
}

impl<F: PrimeField> PFri<F> {
    pub fn from_lib(p: &FriP<F>) -> Self {
        PFri { queries: p.queries.iter().map(PQuery::from_lib).collect(), roots: p.roots.clone(), finals: p.final_coefficients.clone(),
            init: p.initial_degree_plus_one, out: p.output_coeffs_at_degree_plus_one, lde: p.lde_factor }
    }
    pub fn to_lib(&self) -> FriP<F> {
        FRIProof { queries: self.queries.iter().map(|q| q.to_lib()).collect(), roots: self.roots.clone(), final_coefficients: self.finals.clone(),
            initial_degree_plus_one: self.init, output_coeffs_at_degree_plus_one: self.out, lde_factor: self.lde }
    }
}

/// f(x) -> ((f(x) + f(-x)) + c (f(x) - f(-x)) / x) / 2 over the squared domain
pub fn fold<F: PrimeField>(v: &[F], c: &F) -> Vec<F> {
    let n = v.len();
    let w = inv(gen_of::<F>(n));
    let half = inv(f_u64::<F>(2));
    let mut xinv = F::one();
    (0..n / 2).map(|i| {
        let e = add(v[i], &v[i + n / 2]);
        let o = mul(sub(v[i], &v[i + n / 2]), &xinv);
        xinv.mul_assign(&w);
        mul(add(e, &mul(o, c)), &half)
    }).collect()
}

#[derive(Clone)]
pub struct RefFri<F: PrimeField> { pub layers: Vec<Vec<F>>, pub trees: Vec<RefTree>, pub challenges: Vec<F>, pub finals: Vec<F>, pub init: usize, pub out: usize, pub lde: usize }

impl<F: PrimeField> RefFri<F> {
    /// `replace`: at this layer (>= 1) other values are committed instead of the fold
    pub fn commit(values: Vec<F>, init: usize, lde: usize, out: usize, replace: Option<(usize, Vec<F>)>) -> RefFri<F> {
        assert_eq!(values.len(), init * lde);
        let steps = log2(init / out) as usize;
        let mut layers = vec![values];
        let mut trees = vec![RefTree::new(&layers[0])];
        let mut challenges = vec![];
        for i in 0..steps {
            let c = digest_to_field::<F>(&trees[i].root());
            challenges.push(c);
            let mut next = fold(&layers[i], &c);
            if let Some((k, v)) = &replace { if *k == i + 1 { next = v.clone(); } }
            trees.push(RefTree::new(&next));
            layers.push(next);
        }
        let mut finals = interpolate_domain(layers.last().unwrap());
        finals.truncate(out);
        RefFri { layers, trees, challenges, finals, init, out, lde }
    }
    pub fn roots(&self) -> Vec<Hash> { self.trees.iter().map(|t| t.root()).collect() }
    pub fn open(&self, index: usize) -> PFri<F> {
        let mut queries = vec![];
        let mut i = index;
        for (l, t) in self.layers.iter().zip(self.trees.iter()) {
            let h = l.len() / 2;
            if h == 0 {
                // not a valid proof: there is no pair in such a layer
                queries.push(t.open(l, 0));
                queries.push(t.open(l, 0));
                break;
            }
            i %= l.len();
            let lo = i % h;
            queries.push(t.open(l, lo));
            queries.push(t.open(l, lo + h));
            i = lo;
        }
        PFri { queries, roots: self.roots(), finals: self.finals.clone(), init: self.init, out: self.out, lde: self.lde }
    }
}

/// Own FRI verifier: exactly the conditions of the protocol
pub fn ref_fri_verify<F: PrimeField>(p: &PFri<F>, index: usize, expected: &F) -> bool {
    if !p.init.is_power_of_two() || !p.out.is_power_of_two() || !p.lde.is_power_of_two() || p.out >= p.init { return false; }
    if p.out == 1 && p.lde == 1 { return false; }
    let size = match p.init.checked_mul(p.lde) { Some(s) => s, None => return false };
    if size.trailing_zeros() > F::S { return false; }
    let steps = log2(p.init / p.out) as usize;
    if p.finals.len() != p.out || p.roots.len() != steps + 1 || p.queries.len() != 2 * (steps + 1) { return false; }
    if index >= size || index % 2 == 0 { return false; }
    let (mut n, mut i, mut want) = (size, index, *expected);
    for r in 0..=steps {
        let (a, b) = (&p.queries[2 * r], &p.queries[2 * r + 1]);
        let h = n / 2;
        if a.index != i % h || b.index != i % h + h { return false; }
        // the path may be of the right length only: the number of levels follows from the (binding) root of an honest tree,
        // the verifier can not know it, so it is not a condition here
        if !ref_merkle_verify(&p.roots[r], a, None) || !ref_merkle_verify(&p.roots[r], b, None) { return false; }
        let here = if i >= h { b.value } else { a.value };
        if here != want { return false; }
        let w = gen_of::<F>(n);
        let x = powu(&w, a.index as u64);
        if r == steps {
            return horner(&p.finals, &x) == a.value && horner(&p.finals, &neg(x)) == b.value;
        }
        let c = digest_to_field::<F>(&p.roots[r]);
        let e = add(a.value, &b.value);
        let o = mul(mul(sub(a.value, &b.value), &inv(x)), &c);
        want = mul(add(e, &o), &inv(f_u64::<F>(2)));
        i %= h;
        n = h;
    }
    false
}

// ---------------------------------------------------------------------------------------------------------------------
// Mutations of plain proofs

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// alter one entry
    Alter { sel: u64, how: u64 },
    Drop { sel: u64 },
    Dup { sel: u64 },
    Swap { a: u64, b: u64 },
    Append { how: u64 },
    Truncate { to: u64 },
    Rotate { by: u64 },
    Clear,
    /// repeat the list that many times (bounded)
    Repeat { times: u64 },
}

pub fn apply_list<X: Clone>(v: &mut Vec<X>, op: &Op, alter: &dyn Fn(&mut X, u64), fresh: &dyn Fn(u64) -> X) {
    let n = v.len();
    match op {
        Op::Alter { sel, how } => if n > 0 { alter(&mut v[*sel as usize % n], *how) },
        Op::Drop { sel } => if n > 0 { v.remove(*sel as usize % n); },
        Op::Dup { sel } => if n > 0 { let i = *sel as usize % n; let x = v[i].clone(); v.insert(i, x); },
        Op::Swap { a, b } => if n > 1 {
            let i = *a as usize % n;
            let j = (i + 1 + *b as usize % (n - 1)) % n;
            v.swap(i, j);
        },
        Op::Append { how } => v.push(fresh(*how)),
        Op::Truncate { to } => if n > 0 { v.truncate(*to as usize % n) },
        Op::Rotate { by } => if n > 1 { v.rotate_left(1 + *by as usize % (n - 1)) },
        Op::Clear => v.clear(),
        Op::Repeat { times } => { let w = v.clone(); for _ in 0..1 + times % 3 { v.extend(w.iter().cloned()); } }
    }
}

pub fn alter_hash(h: &mut Hash, how: u64) {
    match how % 4 {
        0 => { let b = (how / 4) as usize % 256; h[b / 8] ^= 1 << (b % 8); }
        1 => *h = [0; 32],
        2 => h.reverse(),
        _ => { for i in 0..4 { h[8 * i..8 * i + 8].copy_from_slice(&mix(how ^ i as u64).to_le_bytes()); } }
    }
}
pub fn fresh_hash(how: u64) -> Hash { let mut h = [0; 32]; alter_hash(&mut h, how | 3); h }

pub fn alter_el<F: PrimeField>(x: &mut F, how: u64) {
    match how % 6 {
        0 => x.add_assign(&F::one()),
        1 => x.negate(),
        2 => x.add_assign(&el_nonzero::<F>(mix(how))),
        3 => *x = F::zero(),
        4 => x.double(),
        _ => *x = el(how / 6),
    }
}

pub fn alter_usize(x: &mut usize, how: u64) {
    let k = how / 16;
    *x = match how % 16 {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => x.wrapping_mul(2),
        3 => *x / 2,
        4 => *x ^ (1usize << (k % 64)),
        5 => 0,
        6 => 1,
        7 => usize::MAX,
        8 => 1usize << (k % 64),
        9 => (1usize << (k % 64)).wrapping_sub(1),
        10 => x.wrapping_add(1usize << (k % 64)),
        11 => x.wrapping_mul(1 << (k % 64)),
        12 => (mix(k) % 64) as usize,
        13 => mix(k) as usize,
        14 => (mix(k) % 64) as usize * 2 + 1,
        _ => x.wrapping_neg(),
    };
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum QMut { Index(u64), Value(u64), Path(Op) }

pub fn apply_query<F: PrimeField>(q: &mut PQuery<F>, m: &QMut) {
    match m {
        QMut::Index(h) => alter_usize(&mut q.index, *h),
        QMut::Value(h) => alter_el(&mut q.value, *h),
        QMut::Path(op) => apply_list(&mut q.path, op, &alter_hash, &fresh_hash),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FriMut { Query { sel: u64, m: QMut }, Queries(Op), Roots(Op), Finals(Op), Init(u64), Out(u64), Lde(u64), FinalsZeroes(u64), InitLde(u64), InitOut(u64) }

pub fn apply_fri<F: PrimeField>(p: &mut PFri<F>, m: &FriMut) {
    match m {
        FriMut::Query { sel, m } => if !p.queries.is_empty() { let n = p.queries.len(); apply_query(&mut p.queries[*sel as usize % n], m) },
        FriMut::Queries(op) => apply_list(&mut p.queries, op, &|q, h| apply_query(q, &QMut::Value(h)), &|h| PQuery { index: (h % 7) as usize, value: el(h), path: vec![fresh_hash(h)] }),
        FriMut::Roots(op) => apply_list(&mut p.roots, op, &alter_hash, &fresh_hash),
        FriMut::Finals(op) => apply_list(&mut p.finals, op, &alter_el, &|h| el(h)),
        FriMut::Init(h) => alter_usize(&mut p.init, *h),
        FriMut::Out(h) => alter_usize(&mut p.out, *h),
        FriMut::Lde(h) => alter_usize(&mut p.lde, *h),
        FriMut::FinalsZeroes(k) => for _ in 0..=(k % 5) { p.finals.push(F::zero()) },
        FriMut::InitLde(k) => { let s = k % 6; if k & 64 == 0 { p.init = p.init.wrapping_shl(1 + s as u32); p.lde >>= 1 + s; } else { p.lde = p.lde.wrapping_shl(1 + s as u32); p.init >>= 1 + s; } }
        FriMut::InitOut(k) => { let s = 1 + k % 6; if k & 64 == 0 { p.init = p.init.wrapping_shl(s as u32); p.out = p.out.wrapping_shl(s as u32); } else { p.init >>= s; p.out >>= s; } }
    }
}

pub mod strat {
    use super::*;
    use proptest::prelude::*;
    pub fn op() -> BoxedStrategy<Op> {
        let s = any::<u64>;
        prop_oneof![
            8 => (s(), s()).prop_map(|(sel, how)| Op::Alter { sel, how }),
            2 => s().prop_map(|sel| Op::Drop { sel }),
            2 => s().prop_map(|sel| Op::Dup { sel }),
            2 => (s(), s()).prop_map(|(a, b)| Op::Swap { a, b }),
            2 => s().prop_map(|how| Op::Append { how }),
            1 => s().prop_map(|to| Op::Truncate { to }),
            1 => s().prop_map(|by| Op::Rotate { by }),
            1 => Just(Op::Clear),
            1 => s().prop_map(|times| Op::Repeat { times }),
        ].boxed()
    }
    pub fn qmut() -> BoxedStrategy<QMut> {
        prop_oneof![1 => any::<u64>().prop_map(QMut::Index), 1 => any::<u64>().prop_map(QMut::Value), 2 => op().prop_map(QMut::Path)].boxed()
    }
    pub fn frimut() -> BoxedStrategy<FriMut> {
        let s = any::<u64>;
        prop_oneof![
            6 => (s(), qmut()).prop_map(|(sel, m)| FriMut::Query { sel, m }),
            3 => op().prop_map(FriMut::Queries),
            3 => op().prop_map(FriMut::Roots),
            3 => op().prop_map(FriMut::Finals),
            1 => s().prop_map(FriMut::Init),
            1 => s().prop_map(FriMut::Out),
            1 => s().prop_map(FriMut::Lde),
            1 => s().prop_map(FriMut::FinalsZeroes),
            1 => s().prop_map(FriMut::InitLde),
            1 => s().prop_map(FriMut::InitOut),
        ].boxed()
    }
}
