#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub use ff::{Field, PrimeField, PrimeFieldRepr};
pub use hodor::air::*;
pub use hodor::ali::per_register::*;
pub use hodor::ali::*;
pub use hodor::arp::*;
pub use hodor::domains::*;
pub use hodor::fri::*;
pub use hodor::iop::blake2s_trivial_iop::*;
pub use hodor::iop::*;
pub use hodor::polynomials::*;
pub use hodor::precomputations::*;
pub use hodor::prover::Prover;
pub use hodor::transcript::*;
pub use hodor::utils::*;
pub use hodor::verif_hooks as vh;
pub use hodor::verif_hooks::experiments::Fr as Big; // 252 bits
pub use hodor::verif_hooks::{worker_with_cpus, Worker};
pub use hodor::verifier::*;
pub use hodor::Fr as Small; // 257

pub type I = TrivialBlake2sIOP<Big>;
pub type FriT = NaiveFriIop<Big, I>;
pub type Pt = FRIProofPrototype<Big, I>;
pub type Pf = FRIProof<Big, I>;
pub type T = Blake2sTranscript<Big>;
pub type P = Prover<Big, T, I, Pt, Pf, FriT, PerRegisterARP>;
pub type V = Verifier<Big, T, I, Pt, Pf, FriT, PerRegisterARP>;
pub type Proof = InstanceProof<Big, T, I, Pt, Pf, FriT, PerRegisterARP>;

pub fn fe<F: PrimeField>(x: u64) -> F {
    let mut r = F::one();
    r = F::zero();
    let mut b = F::one();
    let mut x = x;
    while x != 0 {
        if x & 1 == 1 { r.add_assign(&b); }
        b.double();
        x >>= 1;
    }
    r
}
pub fn neg<F: PrimeField>(mut x: F) -> F { x.negate(); x }
pub fn add<F: PrimeField>(mut x: F, y: F) -> F { x.add_assign(&y); x }
pub fn sub<F: PrimeField>(mut x: F, y: F) -> F { x.sub_assign(&y); x }
pub fn mul<F: PrimeField>(mut x: F, y: F) -> F { x.mul_assign(&y); x }
pub fn rnd<F: PrimeField>(s: u64) -> F {
    let mut z = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut r = F::zero();
    for _ in 0..4 {
        z = z.wrapping_mul(0xD1342543DE82EF95).wrapping_add(0x632BE59BD9B4E019);
        for _ in 0..64 { r.double(); }
        r.add_assign(&fe(z ^ (z >> 29)));
    }
    r
}

extern "C" { fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32; fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32; }
/// restricts the process to `k` CPUs; false if there are fewer
pub fn use_cpus(k: usize) -> bool {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()); }
    let mut left = k;
    for w in m.iter_mut() { for b in 0..64 { if *w >> b & 1 == 1 { if left > 0 { left -= 1; } else { *w &= !(1u64 << b); } } } }
    if left > 0 { return false; }
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) == 0 }
}

pub fn uni(c: u64, reg: usize, step: usize, power: u64) -> UnivariateTerm<Big> {
    UnivariateTerm { coeff: fe(c), register: Register::Register(reg), steps_difference: StepDifference::Steps(step), power }
}
pub fn dense(c: &mut Constraint<Big>, start: usize, span: usize) { c.density = ConstraintDensity::Dense(DenseConstraint::new(start, span)); }
pub fn bc(reg: usize, row: usize, value: Big) -> BoundaryConstraint<Big> { BoundaryConstraint { register: Register::Register(reg), at_row: row, value: Some(value) } }
pub fn props(num_rows: usize, num_registers: usize, constraints: Vec<Constraint<Big>>, boundary_constraints: Vec<BoundaryConstraint<Big>>) -> InstanceProperties<Big> {
    InstanceProperties { num_rows, num_registers, constraints, boundary_constraints }
}
pub fn prove(p: &InstanceProperties<Big>, trace: &Vec<Vec<Big>>, lde: usize, out: usize) -> Result<Proof, String> {
    let p = p.clone(); let t = trace.clone();
    match std::panic::catch_unwind(move || P::new(p, lde, out).and_then(|x| x.prove(t)).map_err(|e| format!("{}", e))) { Ok(r) => r, Err(_) => Err("panic".into()) }
}
pub fn verify(p: &InstanceProperties<Big>, lde: usize, proof: &Proof) -> Result<bool, String> {
    let p = p.clone(); let f = proof.clone();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || V::new(p, lde).and_then(|v| v.verify(&f)).map_err(|e| format!("{}", e)))) { Ok(r) => r, Err(_) => Err("panic".into()) }
}
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("DEMO: {}", what); std::process::exit(1); } }
pub type Q = TrivialBlake2sIopQuery<Big>;
pub fn copy_fri(p: &Pf) -> Pf {
    FRIProof { queries: p.queries.clone(), roots: p.roots.clone(), final_coefficients: p.final_coefficients.clone(), initial_degree_plus_one: p.initial_degree_plus_one, output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one, lde_factor: p.lde_factor }
}
pub fn copy(p: &Proof) -> Proof {
    use std::marker::PhantomData as M;
    InstanceProof { f_at_z_m: p.f_at_z_m.clone(), f_iop_roots: p.f_iop_roots.clone(), g_iop_root: p.g_iop_root.clone(), f_queries: p.f_queries.clone(), g_query: p.g_query.clone(), h1_iop_roots: p.h1_iop_roots.clone(), h2_iop_roots: p.h2_iop_roots.clone(), fri_proof_h1: copy_fri(&p.fri_proof_h1), fri_proof_h2: copy_fri(&p.fri_proof_h2), _marker_a: M, _marker_t: M, _marker_p: M, _marker_fri: M }
}
/// the same opening with another authentication path
pub fn spoil(q: &Q, at: usize) -> Q { let mut path = q.path().to_vec(); path[at][7] ^= 1; vh::query_from_parts(q.natural_index(), q.value(), path) }
