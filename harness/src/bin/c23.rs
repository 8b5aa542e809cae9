use hodor::utils::{Hasher, Keccak256Hasher, Sha256Hasher};
use hv::stdhash::{keccak256, sha256};
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data { len: usize, seed: u64 }
impl Data {
    fn bytes(&self) -> Vec<u8> { if self.seed & 7 == 0 { vec![(self.seed >> 8) as u8; self.len] } else { (0..self.len).map(|i| mix(self.seed ^ (i / 8) as u64) as u8 ^ (i as u8)).collect() } }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { New(Data), Update(usize, Data), Pieces(usize, Data, Vec<usize>), Finish(usize), Clone(usize), Drop(usize) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { keccak: bool, ops: Vec<Op> }

fn run<H: Hasher>(c: &Case, oracle: fn(&[u8]) -> [u8; 32]) -> Res {
    let mut live: Vec<(H, Vec<u8>)> = vec![];
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    let (mut digests, mut splits, mut clones, mut resumed) = (0, 0, 0, 0);
    fn digest<H: Hasher>(h: &mut H, m: &[u8], oracle: fn(&[u8]) -> [u8; 32], seen: &mut HashMap<Vec<u8>, Vec<u8>>) -> Result<(), String> {
        let d = guarded(|| Ok(h.finalize()))?;
        ensure!(d == oracle(m).to_vec(), "digest of {} bytes is not the standard one", m.len());
        if let Some(o) = seen.insert(d, m.to_vec()) { ensure!(o == m, "two inputs with the same digest"); }
        Ok(())
    }
    let mut was_finished: Vec<bool> = vec![];
    for o in c.ops.iter() {
        let n = live.len();
        match o {
            Op::New(p) => { let b = p.bytes(); live.push((guarded(|| Ok(H::new(&b)))?, b)); was_finished.push(false); }
            Op::Update(i, d) if n > 0 => { let x = &mut live[i % n]; let b = d.bytes(); guarded(|| Ok(x.0.update(&b)))?; x.1.extend(b); if was_finished[i % n] { resumed += 1 } }
            Op::Pieces(i, d, cuts) if n > 0 => {
                let x = &mut live[i % n];
                let b = d.bytes();
                let mut at: Vec<usize> = cuts.iter().map(|c| c % (b.len() + 1)).collect();
                at.push(0); at.push(b.len()); at.sort();
                for w in at.windows(2) { guarded(|| Ok(x.0.update(&b[w[0]..w[1]])))?; splits += 1; }
                x.1.extend(b);
            }
            Op::Finish(i) if n > 0 => { let x = &mut live[i % n]; digest(&mut x.0, &x.1, oracle, &mut seen)?; x.1.clear(); was_finished[i % n] = true; digests += 1; }
            Op::Clone(i) if n > 0 => { let x = (live[i % n].0.clone(), live[i % n].1.clone()); live.push(x); let f = was_finished[i % n]; was_finished.push(f); clones += 1; }
            Op::Drop(i) if n > 1 => { live.remove(i % n); was_finished.remove(i % n); }
            _ => {}
        }
    }
    let mut longest = 0;
    for (h, m) in live.iter_mut() { longest = longest.max(m.len()); digest(h, m, oracle, &mut seen)?; digest(h, &[], oracle, &mut seen)?; }
    Ok(Out::when(digests > 0 && longest > 0).lif(splits > 1, "split updates").lif(clones > 0, "clones").lif(resumed > 0, "used again after finishing").lif(longest > 200, "several blocks").l(if c.keccak { "Keccak" } else { "SHA" }))
}

fn check(c: &Case) -> Res { if c.keccak { run::<Keccak256Hasher>(c, keccak256) } else { run::<Sha256Hasher>(c, sha256) } }

fn main() {
    let c = Ctx::new("C23", "a state was finished within the history and another one at its end was not empty");
    let data = || (prop_oneof![2 => Just(0usize), 4 => 0usize..20, 4 => 0usize..70, 2 => prop_oneof![Just(55usize), Just(56), Just(63), Just(64), Just(65), Just(119), Just(120), Just(128), Just(135), Just(136), Just(137), Just(271), Just(272), Just(273)], 1 => 100usize..700], any::<u64>()).prop_map(|(len, seed)| Data { len, seed });
    c.sub("histories", c.n(400000, 20000000), move || {
        let i = any::<usize>;
        let op = prop_oneof![2 => data().prop_map(Op::New), 6 => (i(), data()).prop_map(|(a, b)| Op::Update(a, b)), 3 => (i(), data(), vec(i(), 0..6)).prop_map(|(a, b, c)| Op::Pieces(a, b, c)), 3 => i().prop_map(Op::Finish), 2 => i().prop_map(Op::Clone), 1 => i().prop_map(Op::Drop)];
        (any::<bool>(), data(), vec(op, 1..14)).prop_map(|(keccak, p, mut ops)| { ops.insert(0, Op::New(p)); Case { keccak, ops } }).boxed()
    }, check);
    c.sub("long messages", c.n(300, 20000), || {
        let i = any::<usize>;
        let data = || (prop_oneof![3 => 700usize..20_000, 1 => 20_000usize..200_000], any::<u64>()).prop_map(|(len, seed)| Data { len, seed });
        let op = prop_oneof![2 => (i(), data()).prop_map(|(a, b)| Op::Update(a, b)), 2 => (i(), data(), vec(i(), 0..40)).prop_map(|(a, b, c)| Op::Pieces(a, b, c)), 2 => i().prop_map(Op::Finish), 1 => i().prop_map(Op::Clone)];
        (any::<bool>(), data(), vec(op, 1..6)).prop_map(|(keccak, p, mut ops)| { ops.insert(0, Op::New(p)); Case { keccak, ops } }).boxed()
    }, check);
    c.finish();
}
