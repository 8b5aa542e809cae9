//! Reference mathematics: written from the definitions, sequential, no code of the library.
use crate::el::*;
use ff::{Field, PrimeField};

pub fn horner<F: Field>(c: &[F], x: &F) -> F {
    let mut acc = F::zero();
    for k in c.iter().rev() {
        acc.mul_assign(x);
        acc.add_assign(k);
    }
    acc
}

pub fn powu<F: Field>(x: &F, e: u64) -> F {
    // square and multiply, least significant bit first
    let mut r = F::one();
    let mut b = *x;
    let mut e = e;
    while e > 0 {
        if e & 1 == 1 { r.mul_assign(&b); }
        b.square();
        e >>= 1;
    }
    r
}

/// generator of the subgroup of order 2^k, by definition root_of_unity ^ (2^(S-k))
pub fn gen_of<F: PrimeField>(size: usize) -> F {
    assert!(size.is_power_of_two());
    let k = size.trailing_zeros();
    let mut g = F::root_of_unity();
    for _ in k..F::S { g.square(); }
    g
}

pub fn naive_dft<F: Field>(c: &[F], omega: &F, n: usize, shift: &F) -> Vec<F> {
    let mut x = *shift;
    (0..n).map(|_| { let v = horner(c, &x); x.mul_assign(omega); v }).collect()
}

/// own recursive transform: evaluations of c (padded to n) at shift * omega^i
pub fn eval_domain<F: PrimeField>(c: &[F], n: usize, shift: &F) -> Vec<F> {
    assert!(n.is_power_of_two() && c.len() <= n);
    let mut v = vec![F::zero(); n];
    let mut s = F::one();
    for (i, k) in c.iter().enumerate() {
        v[i] = mul(*k, &s);
        s.mul_assign(shift);
    }
    rec_fft(&v, &gen_of::<F>(n))
}

pub fn rec_fft<F: Field>(v: &[F], w: &F) -> Vec<F> {
    let n = v.len();
    if n == 1 { return v.to_vec(); }
    let e: Vec<F> = v.iter().step_by(2).cloned().collect();
    let o: Vec<F> = v.iter().skip(1).step_by(2).cloned().collect();
    let w2 = mul(*w, w);
    let e = rec_fft(&e, &w2);
    let o = rec_fft(&o, &w2);
    let mut r = vec![F::zero(); n];
    let mut x = F::one();
    for i in 0..n / 2 {
        let t = mul(o[i], &x);
        r[i] = add(e[i], &t);
        r[i + n / 2] = sub(e[i], &t);
        x.mul_assign(w);
    }
    r
}

pub fn interpolate_domain<F: PrimeField>(v: &[F]) -> Vec<F> {
    let n = v.len();
    let w = inv(gen_of::<F>(n));
    let ninv = inv(f_u64::<F>(n as u64));
    rec_fft(v, &w).into_iter().map(|x| mul(x, &ninv)).collect()
}

pub fn poly_mul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j].add_assign(&mul(*x, y));
        }
    }
    r
}

/// index of the highest non-zero coefficient plus one
pub fn degree_plus_one<F: Field>(c: &[F]) -> usize {
    c.iter().rposition(|x| !x.is_zero()).map(|i| i + 1).unwrap_or(0)
}

pub fn log2(n: usize) -> u32 { assert!(n.is_power_of_two()); n.trailing_zeros() }

/// (c(x) - c(a)) / (x - a)
pub fn divide_by_linear<F: Field>(c: &[F], a: &F) -> Vec<F> {
    let n = c.len();
    if n <= 1 { return vec![]; }
    let mut q = vec![F::zero(); n - 1];
    let mut carry = F::zero();
    for i in (1..n).rev() {
        carry.mul_assign(a);
        carry.add_assign(&c[i]);
        q[i - 1] = carry;
    }
    q
}

/// what the multiple cosets algorithm is known to compute instead (KF1)
pub fn known_wrong<F: PrimeField>(c: &[F], factor: usize, cpus: usize, shift: &F) -> Vec<F> {
    let n = c.len();
    let w = gen_of::<F>(n * factor);
    let wn = gen_of::<F>(n);
    let chunk = factor / cpus;
    let mut r = vec![F::zero(); n * factor];
    for k in 0..factor {
        let (i, j) = (k / chunk, k % chunk);
        let s = mul(powu(&w, (i + j) as u64), shift);
        let mut p = F::one();
        let d: Vec<F> = c.iter().map(|x| { let y = mul(*x, &p); p.mul_assign(&s); y }).collect();
        for (e, v) in rec_fft(&d, &wn).into_iter().enumerate() { r[e * factor + k] = v; }
    }
    r
}

