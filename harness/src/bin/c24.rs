use ff::{Field, PrimeField};
use hodor::verif_hooks::experiments::tensor_lde::*;
use hv::refmath::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Query { rows: usize, cols: usize, blocks: usize, a: (u8, u64), d: (u8, u64), field: u8 }

fn queries<F: PrimeField>(c: &Query) -> Res {
    let m: Vec<F> = VecSpec { len: c.rows * c.cols, kind: c.a.0, seed: c.a.1 }.expand();
    let d: Vec<F> = VecSpec { len: c.blocks, kind: c.d.0, seed: c.d.1 }.expand();
    // expanded: block k of the diagonal holds the matrix (times entry k of the diagonal)
    let (hr, hc) = (c.rows * c.blocks, c.cols * c.blocks);
    let mut one = vec![vec![F::zero(); hc]; hr];
    let mut scaled = one.clone();
    for k in 0..c.blocks { for i in 0..c.rows { for j in 0..c.cols {
        one[k * c.rows + i][k * c.cols + j] = m[i * c.cols + j];
        scaled[k * c.rows + i][k * c.cols + j] = mul(m[i * c.cols + j], &d[k]);
    } } }
    let sub = (m.clone(), (c.rows, c.cols));
    let diag = (d.clone(), c.blocks);
    for i in 0..hr { for j in 0..hc {
        ensure!(guarded(|| Ok(query_matrix_over_identity(&sub, (i, j))))? == one[i][j], "entry ({}, {}) of {} blocks {}x{}", i, j, c.blocks, c.rows, c.cols);
        ensure!(guarded(|| Ok(query_matrix_over_diagonal(&sub, &diag, (i, j))))? == scaled[i][j], "entry ({}, {}) of {} scaled blocks {}x{}", i, j, c.blocks, c.rows, c.cols);
    } }
    // product of vectors: the first one repeated, scaled by the entries of the second
    let mut flat: Vec<F> = vec![];
    for y in d.iter() { for x in m.iter() { flat.push(mul(*x, y)); } }
    let (va, vb) = ((m.clone(), m.len()), (d.clone(), d.len()));
    for (i, x) in flat.iter().enumerate() { ensure!(guarded(|| Ok(query_vector_over_vector(&va, &vb, i)))? == *x, "entry {} of the product of vectors of {} and {}", i, m.len(), d.len()); }
    Ok(Out::when(c.blocks > 1 && m.len() > 1 && flat.iter().any(|x| !x.is_zero())).lif(c.rows != c.cols, "not square").lif(c.rows * c.blocks != c.cols * c.blocks && c.rows > 1 && c.cols > 1, "rectangular"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen { l: u32, a: u32, b: u32, other: u64, field: u8 }

fn generators<F: PrimeField>(c: &Gen) -> Res {
    let (l, n1, n2) = (1usize << c.l, 1usize << c.a, 1usize << c.b);
    let n = n1 * n2;
    if c.l + c.a + c.b > F::S { return Ok(Out::trivial()); }
    // any generator of the extended domain
    let v = powu(&gen_of::<F>(l * n), 2 * (c.other % 1000) + 1);
    let omega = powu(&v, l as u64);
    let ((g1, w1, l1), (g2, w2, l2)) = guarded(|| Ok(decompose_lde_generator(l, n, (n1, n2), &omega, &v)))?;
    let order = |x: &F, n: usize| powu(x, n as u64) == F::one() && (n == 1 || powu(x, n as u64 / 2) != F::one());
    ensure!(order(&w1, n1), "the first generator is not of size {}", n1);
    ensure!(order(&w2, n2), "the second generator is not of size {}", n2);
    ensure!(l1 == l && l1 * l2 * n2 == l * n, "extension factors {} and {} for {} times {}", l1, l2, l, n);
    // every point, once
    let mut points: HashSet<Vec<u64>> = HashSet::new();
    let mut p1 = F::one();
    for _ in 0..l1 {
        let mut p2 = p1;
        for _ in 0..l2 {
            let mut p3 = p2;
            for _ in 0..n2 { ensure!(points.insert(p3.into_raw_repr().as_ref().to_vec()), "a point twice (factor {}, sizes {} and {})", l, n1, n2); p3.mul_assign(&w2); }
            p2.mul_assign(&g2);
        }
        p1.mul_assign(&g1);
    }
    let mut x = F::one();
    for k in 0..l * n { ensure!(points.contains(&x.into_raw_repr().as_ref().to_vec()), "point {} is missing (factor {}, sizes {} and {})", k, l, n1, n2); x.mul_assign(&v); }
    Ok(Out::when(l > 1 && n1 > 1 && n2 > 1).lif(n1 != n2, "unequal sizes").lif(n1 == 1 || n2 == 1, "trivial factor"))
}

fn main() {
    let c = Ctx::new("C24", "queries: several blocks of several entries, not all zero; generators: all three factors above one");
    c.sub("queries", c.n(250000, 20000000), || (1usize..7, 1usize..7, 1usize..6, (0u8..VEC_KINDS, any::<u64>()), (0u8..VEC_KINDS, any::<u64>()), any::<u8>()).prop_map(|(rows, cols, blocks, a, d, field)| Query { rows, cols, blocks, a, d, field }).boxed(),
        |x| by_field!(x.field, queries, x; Gold, F252, F257, F255, F17, F31, F128));
    c.sub("large blocks", c.n(300, 30000), || (1usize..24, 1usize..24, 1usize..14, (0u8..VEC_KINDS, any::<u64>()), (0u8..VEC_KINDS, any::<u64>()), any::<u8>()).prop_map(|(rows, cols, blocks, a, d, field)| Query { rows, cols, blocks, a, d, field }).boxed(),
        |x| by_field!(x.field, queries, x; Gold, F252, F257, F255, F17, F31, F128));
    c.sub("large domains", c.n(100, 10000), || (0u32..9, 0u32..9, 0u32..9, any::<u64>(), any::<u8>()).prop_map(|(l, a, b, other, field)| Gen { l, a, b: b.min(16u32.saturating_sub(l + a)), other, field }).boxed(),
        |x| by_field!(x.field, generators, x; Gold, F252, F257, F255, F17, F31, F128));
    c.sub("generators", c.n(250000, 20000000), || (0u32..6, 0u32..6, 0u32..6, any::<u64>(), any::<u8>()).prop_map(|(l, a, b, other, field)| Gen { l, a, b, other, field }).boxed(),
        |x| by_field!(x.field, generators, x; Gold, F252, F257, F255, F17, F31, F128));
    c.finish();
}
