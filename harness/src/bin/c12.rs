use ff::PrimeField;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::transcript::*;
use hv::fri_ref::*;
use hv::proto::RefTranscript;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type T<F> = Blake2sTranscript<F>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op { Bytes(Vec<u8>), Elem(u64), Chal, ChalBytes, Fork }

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit { Drop(u64), Bit(u64, u64), Insert(u64, Op), Swap(u64, u64), Dup(u64), Elem(u64, u64), Truncate(u64, u64) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ops: Vec<Op>, edits: Vec<Edit>, field: u8 }

/// what was drawn
#[derive(Clone, PartialEq, Debug)]
enum Drawn<F: PrimeField> { E(F), B(Vec<u8>) }

fn play<F: PrimeField>(ops: &[Op]) -> Result<(Vec<Drawn<F>>, T<F>), String> {
    guarded(|| {
        let mut t = T::<F>::new();
        let mut kept: Vec<(T<F>, usize)> = vec![];
        let mut out = vec![];
        for (i, o) in ops.iter().enumerate() {
            match o {
                Op::Bytes(b) => t.commit_bytes(b),
                Op::Elem(e) => t.commit_field_element(&el(*e)),
                Op::Chal => out.push(Drawn::E(t.get_challenge())),
                Op::ChalBytes => out.push(Drawn::B(t.get_challenge_bytes())),
                Op::Fork => { kept.push((t.clone(), i)); }
            }
        }
        // a copy goes on from where it was made
        for (mut k, i) in kept.into_iter() {
            let mut r = RefTranscript::new();
            for o in ops[..=i].iter() { step::<F>(&mut r, o); }
            if k.get_challenge_bytes() != r.challenge_bytes().to_vec() { return Err("a copy of the transcript does not go on from where it was made".into()); }
            if k.get_challenge() != r.challenge() { return Err("a copy of the transcript does not go on from where it was made (second)".into()); }
        }
        Ok((out, t))
    })
}

fn step<F: PrimeField>(r: &mut RefTranscript, o: &Op) -> Option<Drawn<F>> {
    match o {
        Op::Bytes(b) => { r.commit(b); None }
        Op::Elem(e) => { r.elem::<F>(&el(*e)); None }
        Op::Chal => Some(Drawn::E(r.challenge())),
        Op::ChalBytes => Some(Drawn::B(r.challenge_bytes().to_vec())),
        Op::Fork => None,
    }
}

fn edit(ops: &mut Vec<Op>, e: &Edit) {
    if ops.is_empty() { if let Edit::Insert(_, o) = e { ops.push(o.clone()); } return; }
    let n = ops.len() as u64;
    match e {
        Edit::Drop(i) => { ops.remove((i % n) as usize); }
        Edit::Bit(i, b) => if let Op::Bytes(v) = &mut ops[(i % n) as usize] { if !v.is_empty() { let k = (b / 8) as usize % v.len(); v[k] ^= 1 << (b % 8); } },
        Edit::Insert(i, o) => ops.insert((i % (n + 1)) as usize, o.clone()),
        Edit::Swap(a, b) => ops.swap((a % n) as usize, (b % n) as usize),
        Edit::Dup(i) => { let o = ops[(i % n) as usize].clone(); ops.insert((i % n) as usize, o); }
        Edit::Elem(i, x) => if let Op::Elem(v) = &mut ops[(i % n) as usize] { *v = *x; },
        Edit::Truncate(i, k) => if let Op::Bytes(v) = &mut ops[(i % n) as usize] { let l = *k as usize % (v.len() + 1); v.truncate(l); },
    }
}

/// the bytes absorbed so far (digests of draws included)
fn absorbed<F: PrimeField>(ops: &[Op]) -> Vec<u8> {
    let mut r = RefTranscript::new();
    for o in ops { step::<F>(&mut r, o); }
    r.bytes
}

fn run<F: PrimeField>(c: &Case) -> Res {
    let (drawn, mut t) = play::<F>(&c.ops)?;
    let (again, mut t2) = play::<F>(&c.ops)?;
    ensure!(drawn == again, "the same history gives other challenges");
    let mut r = RefTranscript::new();
    let want: Vec<Drawn<F>> = c.ops.iter().filter_map(|o| step(&mut r, o)).collect();
    ensure!(drawn.len() == want.len(), "number of challenges");
    for (i, (a, b)) in drawn.iter().zip(want.iter()).enumerate() {
        match (a, b) {
            (Drawn::E(a), Drawn::E(b)) => {
                ensure!(a.into_repr() < F::char(), "challenge {} is not reduced", i);
                ensure!(a == b, "challenge {} is not the digest of the history, read as a number and reduced to {} bits", i, F::CAPACITY);
            }
            _ => ensure!(a == b, "challenge bytes {} are not the digest of the history", i),
        }
    }
    // successive ones differ (as bytes: elements of small fields may coincide)
    let mut seen: Vec<Vec<u8>> = vec![];
    for _ in 0..4 { let b = guarded(|| Ok(t.get_challenge_bytes()))?; ensure!(b.len() == 32, "{} bytes", b.len()); ensure!(!seen.contains(&b), "successive challenges are equal"); ensure!(b == r.challenge_bytes().to_vec(), "a later challenge is not the digest of the history"); seen.push(b); }
    let first: F = guarded(|| Ok(t2.get_challenge()))?;
    let mut h = [0u8; 32]; h.copy_from_slice(&seen[0]);
    ensure!(first == digest_to_field(&h), "the element is not made of the bytes");
    ensure!(t2.get_challenge_bytes() == seen[1], "drawing an element and drawing bytes do not move the transcript alike");
    if F::CAPACITY >= 60 {
        let a: F = t2.get_challenge(); let b: F = t2.get_challenge();
        ensure!(a != b && a != first, "successive challenges are equal");
    }
    // metamorphic: another history gives another next challenge
    let mut ops = c.ops.clone();
    for e in c.edits.iter() { edit(&mut ops, e); }
    let differ = absorbed::<F>(&ops) != absorbed::<F>(&c.ops);
    let (_, mut t3) = play::<F>(&ops)?;
    let b3 = guarded(|| Ok(t3.get_challenge_bytes()))?;
    if differ { ensure!(b3 != seen[0], "another history gives the same challenge: {:?}", ops); } else { ensure!(b3 == seen[0], "the same content gives another challenge"); }
    let absorbs = c.ops.iter().any(|o| match o { Op::Bytes(b) => !b.is_empty(), Op::Elem(_) => true, _ => false });
    Ok(Out::when(absorbs && differ).lif(differ, "edited history differs").lif(!want.is_empty(), "challenges within the history").lif(c.ops.contains(&Op::Fork), "copied"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RootCase { kind: u8, seed: u64, log_n: u32, vkind: u8, field: u8 }

fn root<F: PrimeField>(c: &RootCase) -> Res {
    // any digest, extreme ones included
    let mut d: Hash = match c.kind % 6 { 0 => [0xff; 32], 1 => [0; 32], 2 => { let mut x = [0u8; 32]; x[c.seed as usize / 8 % 32] = 1 << (c.seed % 8); x }, 3 => { let mut x = [0xff; 32]; x[c.seed as usize / 8 % 32] ^= 1 << (c.seed % 8); x }, _ => fresh_hash(c.seed) };
    if c.kind % 6 == 4 { for b in d.iter_mut().take(8) { *b = 0xff; } }
    let want: F = digest_to_field(&d);
    let a: F = guarded(|| Ok(<TrivialBlake2sIOP<F> as IOP<F>>::encode_root_into_challenge(&d)))?;
    ensure!(a.into_repr() < F::char(), "challenge of a root is not reduced");
    ensure!(a == want, "challenge of a root is not the digest read as a number and reduced to {} bits", F::CAPACITY);
    ensure!(<Blake2sLeafEncoder<F> as HashEncoder<F>>::interpret_hash(&d) == want, "interpret_hash");
    ensure!(<Blake2sIopTree<F> as IopTree<F>>::encode_root_into_challenge(&d) == want, "challenge of a root (tree)");
    let v: Vec<F> = VecSpec { len: 1 << c.log_n, kind: c.vkind, seed: c.seed }.expand();
    let iop = with_cpus(1, || guarded(|| Ok(TrivialBlake2sIOP::<F>::create(&v))))?;
    let want: F = digest_to_field(&RefTree::new(&v).root());
    ensure!(iop.get_challenge_scalar_from_root() == want, "challenge of the root of a tree");
    Ok(Out::nt())
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => prop_oneof![3 => vec(any::<u8>(), 0..40), 1 => vec(any::<u8>(), 60..200), 1 => (any::<u8>(), 0usize..300).prop_map(|(b, n)| vec![b; n])].prop_map(Op::Bytes),
        3 => eseed().prop_map(Op::Elem), 3 => Just(Op::Chal), 1 => Just(Op::ChalBytes), 1 => Just(Op::Fork),
    ].boxed()
}

fn main() {
    let mut c = Ctx::new("C12", "the history commits something and the edited history differs from it / any digest");
    c.assume("Blake2s is collision resistant; the harness's own Blake2s is checked against test vectors at start");
    c.sub("histories", c.n(400000, 20000000), || {
        let s = any::<u64>;
        let e = prop_oneof![2 => s().prop_map(Edit::Drop), 3 => (s(), s()).prop_map(|(a, b)| Edit::Bit(a, b)), 2 => (s(), op()).prop_map(|(a, b)| Edit::Insert(a, b)), 2 => (s(), s()).prop_map(|(a, b)| Edit::Swap(a, b)),
            1 => s().prop_map(Edit::Dup), 2 => (s(), s()).prop_map(|(a, b)| Edit::Elem(a, b)), 1 => (s(), s()).prop_map(|(a, b)| Edit::Truncate(a, b))];
        (vec(op(), 0..14), vec(e, 1..3), any::<u8>()).prop_map(|(ops, edits, field)| Case { ops, edits, field }).boxed()
    }, |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby, F63, F64, F65, F128, F129, F192, F193, F31));
    c.sub("long histories", c.n(300, 30000), || {
        let s = any::<u64>;
        let o = prop_oneof![8 => op(), 1 => (any::<u8>(), 300usize..20000).prop_map(|(b, n)| Op::Bytes((0..n).map(|i| b.wrapping_add((i * 7 / 5) as u8)).collect()))].boxed();
        let e = prop_oneof![1 => s().prop_map(Edit::Drop), 2 => (s(), s()).prop_map(|(a, b)| Edit::Bit(a, b)), 1 => (s(), s()).prop_map(|(a, b)| Edit::Swap(a, b)), 1 => (s(), s()).prop_map(|(a, b)| Edit::Truncate(a, b))];
        (vec(o, 14..120), vec(e, 1..3), any::<u8>()).prop_map(|(ops, edits, field)| Case { ops, edits, field }).boxed()
    }, |x| by_field!(x.field, run, x; Gold, F252, F255, F64, F129));
    c.sub("roots", c.n(40000, 4000000), || (any::<u8>(), any::<u64>(), 1u32..4, 0u8..VEC_KINDS, any::<u8>()).prop_map(|(kind, seed, log_n, vkind, field)| RootCase { kind, seed, log_n, vkind, field }).boxed(),
        |x| by_field!(x.field, root, x; Gold, F252, F257, F255, F17, Baby, F63, F64, F65, F128, F129, F192, F193, F31));
    c.finish();
}
