From 6faf5b09b441311c0c1d9e3d22409161c6cf79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 01/16] verif hooks: expose crate-internal items under
 cfg(hodor_verif)

---
 src/experiments/mod.rs         | 10 ++++
 src/experiments/tensor_lde.rs  | 28 ++++++++++
 src/iop/blake2s_trivial_iop.rs |  8 +++
 src/lib.rs                     |  3 ++
 src/verif_hooks.rs             | 95 ++++++++++++++++++++++++++++++++++
 5 files changed, 144 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/experiments/mod.rs b/src/experiments/mod.rs
index 1e0c0ec..44c4e96 100644
--- a/src/experiments/mod.rs
+++ b/src/experiments/mod.rs
@@ -20,6 +20,16 @@ use ff::*;
 #[PrimeFieldGenerator = "3"]
 pub struct Fr(FrRepr);
 
+// access for the external verification harness, see `verif_hooks.rs`
+#[cfg(hodor_verif)]
+pub mod verif_exports {
+    pub use super::Fr;
+    pub use super::vdf::VDF;
+    pub use super::cubic_vdf::CubicVDF;
+    pub use super::square_root_calculator::fp2::Fq2;
+    pub use super::tensor_lde::verif_exports as tensor_lde;
+}
+
 #[test]
 fn test_proper_field(){
     let modulus = self::Fr::char();
diff --git a/src/experiments/tensor_lde.rs b/src/experiments/tensor_lde.rs
index 02fa6a9..68ead2b 100644
--- a/src/experiments/tensor_lde.rs
+++ b/src/experiments/tensor_lde.rs
@@ -132,6 +132,34 @@ fn decompose_lde_generator_for_vector_over_vector<F: PrimeField>(
     ((coset_generator_1, omega_1, lde_factor_1), (coset_generator_2, omega_2, lde_factor_2))
 }
 
+// access for the external verification harness, see `verif_hooks.rs`
+#[cfg(hodor_verif)]
+pub mod verif_exports {
+    use ff::PrimeField;
+
+    pub fn query_matrix_over_identity<F: PrimeField>(submatrix: &(Vec<F>, (usize, usize)), idx: (usize, usize)) -> F {
+        super::query_tensor_decomposition_element_matrix_over_identyty_matrix(submatrix, idx)
+    }
+
+    pub fn query_matrix_over_diagonal<F: PrimeField>(submatrix: &(Vec<F>, (usize, usize)), diagonal: &(Vec<F>, usize), idx: (usize, usize)) -> F {
+        super::query_tensor_decomposition_element_matrix_over_diagonal_matrix(submatrix, diagonal, idx)
+    }
+
+    pub fn query_vector_over_vector<F: PrimeField>(subvector_1: &(Vec<F>, usize), subvector_2: &(Vec<F>, usize), idx: usize) -> F {
+        super::query_tensor_decomposition_element_vector_over_vector(subvector_1, subvector_2, idx)
+    }
+
+    pub fn decompose_lde_generator<F: PrimeField>(
+        lde_factor: usize,
+        domain_size: usize,
+        decomposition_info: (usize, usize),
+        omega: &F,
+        coset_generator: &F,
+    ) -> ((F, F, usize), (F, F, usize)) {
+        super::decompose_lde_generator_for_vector_over_vector(lde_factor, domain_size, decomposition_info, omega, coset_generator)
+    }
+}
+
 #[test]
 fn test_query_matrix_by_identity() {
     use super::Fr;
diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 4f08daa..01e8ccd 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -353,6 +353,14 @@ pub struct TrivialBlake2sIopQuery<F: PrimeField> {
     path: Vec<[u8; 32]>,
 }
 
+// access for the external verification harness, see `verif_hooks.rs`
+#[cfg(hodor_verif)]
+impl<F: PrimeField> TrivialBlake2sIopQuery<F> {
+    pub fn verif_from_parts(index: usize, value: F, path: Vec<[u8; 32]>) -> Self {
+        Self { index, value, path }
+    }
+}
+
 impl<F: PrimeField> IopQuery<F> for TrivialBlake2sIopQuery<F> {
     type Hasher = Blake2sTreeHasher<F>;
 
diff --git a/src/lib.rs b/src/lib.rs
index 10694a5..99010ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,9 @@ mod experiments;
 
 pub(crate) mod bn256;
 
+#[cfg(hodor_verif)]
+pub mod verif_hooks;
+
 use ff::{Field, PrimeField, PrimeFieldRepr};
 
 #[derive(PrimeField)]
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..3d3cecd
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,95 @@
+/*
+
+Access to crate-internal items for the external verification harness. Compiled only with `--cfg hodor_verif`,
+it adds no behaviour: every function forwards its arguments to the function of the same name
+
+*/
+
+use ff::PrimeField;
+
+pub use crate::fft::multicore::Worker;
+pub use crate::experiments::verif_exports as experiments;
+pub use crate::bn256::Fr as BlsScalarFr;
+
+pub fn worker_with_cpus(cpus: usize) -> Worker {
+    Worker::new_with_cpus(cpus)
+}
+
+pub fn best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, use_cpus_hint: Option<usize>) {
+    crate::fft::best_fft(a, worker, omega, log_n, use_cpus_hint)
+}
+
+pub fn serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+    crate::fft::serial_fft(a, omega, log_n)
+}
+
+pub fn parallel_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+    crate::fft::fft::parallel_fft(a, worker, omega, log_n, log_cpus)
+}
+
+pub fn best_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, lde_factor: usize) {
+    crate::fft::best_lde(a, worker, omega, log_n, lde_factor)
+}
+
+pub fn serial_lde<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, lde_factor: usize) {
+    crate::fft::lde::serial_lde(a, omega, log_n, lde_factor)
+}
+
+pub fn parallel_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32, lde_factor: usize) {
+    crate::fft::lde::parallel_lde(a, worker, omega, log_n, log_cpus, lde_factor)
+}
+
+pub fn radix_4_best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32) {
+    crate::fft::radix4_fft::best_fft(a, worker, omega, log_n)
+}
+
+pub fn radix_4_serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+    crate::fft::radix4_fft::serial_fft_radix_4(a, omega, log_n)
+}
+
+pub fn radix_4_parallel_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+    crate::fft::radix4_fft::parallel_fft_radix_4(a, worker, omega, log_n, log_cpus)
+}
+
+pub fn dit_best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, non_zero_entries_count: usize) {
+    crate::fft::dit_fft::best_DIT_fft(a, worker, omega, log_n, non_zero_entries_count)
+}
+
+pub fn dit_serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, non_zero_entries_count: usize) {
+    crate::fft::dit_fft::serial_DIT_fft(a, omega, log_n, non_zero_entries_count)
+}
+
+pub fn dit_parallel_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32, non_zero_entries_count: usize) {
+    crate::fft::dit_fft::parallel_DIT_fft(a, worker, omega, log_n, log_cpus, non_zero_entries_count)
+}
+
+pub fn distribute_powers<F: PrimeField>(coeffs: &mut [F], worker: &Worker, g: F) {
+    crate::fft::distribute_powers(coeffs, worker, g)
+}
+
+pub fn query_from_parts<F: PrimeField>(index: usize, value: F, path: Vec<[u8; 32]>) -> crate::iop::blake2s_trivial_iop::TrivialBlake2sIopQuery<F> {
+    crate::iop::blake2s_trivial_iop::TrivialBlake2sIopQuery::verif_from_parts(index, value, path)
+}
+
+/// The Fibonacci instance of the trace system, as (witness, properties)
+pub fn fibonacci_instance<F: PrimeField>(final_b: Option<u64>, at_step: usize, steps: usize)
+    -> (Option<Vec<Vec<F>>>, crate::arp::InstanceProperties<F>)
+{
+    use crate::air::IntoAIR;
+    use crate::arp::IntoARP;
+
+    let fib = crate::air::Fibonacci::<F> {
+        final_b: final_b,
+        at_step: Some(at_step),
+        _marker: std::marker::PhantomData
+    };
+    let mut tracer = crate::air::TestTraceSystem::<F>::new();
+    fib.trace(&mut tracer).expect("tracing must work");
+    tracer.calculate_witness(1, 1, steps);
+
+    tracer.into_arp()
+}
+
+pub fn test_trace_system<F: PrimeField>() -> crate::air::TestTraceSystem<F> {
+    crate::air::TestTraceSystem::<F>::new()
+}
-- 
2.43.0


From be1ca330ab0752cf78a9ec9cc00ff5ec94284237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 02/16] fix: pad a trace with non-power-of-two number of rows
 to the size of the column domain

---
 src/arp/per_register/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index d78b9ba..0d7ec05 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -27,6 +27,11 @@ fn make_witness_polymonials<F: PrimeField>(
     let omega_inv = omega.inverse().expect("is some");
     let minv = F::from_str(&domain.size.to_string()).expect("exists").inverse().expect("exists");
 
+    // there may be less rows than elements in the domain
+    for w in witness.iter_mut() {
+        w.resize(num_rows_sup, F::zero());
+    }
+
     let mut result = vec![];
 
     let num_cpus = worker.cpus;
-- 
2.43.0


From 3eddbc88244060094dcb5e6582ce14d14d767fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 03/16] fix: evaluate constraints over the whole constraints
 domain if the maximum degree is not a power of two

---
 src/ali/per_register/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 62ac346..499f7a3 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -421,6 +421,9 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         let mut evaluated_terms_map: IndexMap::<WitnessEvaluationData<F>, Polynomial<F, Values>> = IndexMap::new();
 
+        // constraints are evaluated over the constraints domain, which has a size of the power of two
+        let constraints_lde_factor = self.constraints_domain.size / self.column_domain.size;
+
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
             let mut batch_values = g_values.clone();
@@ -452,7 +455,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                         t, 
                         &mask_applied_polynomials, 
                         &mut evaluated_terms_map, 
-                        self.max_constraint_power, 
+                        constraints_lde_factor, 
                         &worker
                     )?;
                     constraint_values.add_assign(&worker, &subval);
@@ -476,7 +479,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             g_values.add_assign(&worker, &batch_values);
         }
 
-        let boundary_lde_factor = self.max_constraint_power;
+        let boundary_lde_factor = constraints_lde_factor;
 
         // now evaluate normal constraints
         for b_c in self.properties.boundary_constraints.iter() {
-- 
2.43.0


From f65692ab932a9f250e4a3490440c288d2caedae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 04/16] fix: refuse openings of Merkle trees at indices outside
 of the tree

---
 src/iop/blake2s_trivial_iop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 01e8ccd..d48656d 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -245,7 +245,8 @@ impl<'a, F: PrimeField> IopTree<F> for Blake2sIopTree<F> {
             idx >>= 1;
         }
 
-        &hash == root
+        // path must lead from the leaf that is inside of the tree
+        idx == 0 && &hash == root
     }
 
     fn get_path(&self, tree_index: usize, leafs_values: &[F]) -> Vec< <Self::Hasher as IopTreeHasher<F>>::HashOutput >{
-- 
2.43.0


From bdf2ff21c9901e7117a0d2c63ef0795be360031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 05/16] fix: shave challenges to the field capacity over all
 the limbs of a representation

---
 src/iop/blake2s_trivial_iop.rs |  7 ++-----
 src/transcript/mod.rs          |  6 ++----
 src/utils/mod.rs               | 15 +++++++++++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index d48656d..650789c 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -1,7 +1,7 @@
 use ff::{PrimeField, PrimeFieldRepr};
 use blake2s_simd::{Params, State};
 use crate::fft::multicore::Worker;
-use crate::utils::log2_floor;
+use crate::utils::{log2_floor, shave_to_capacity};
 use super::*;
 use super::trivial_coset_combiner::*;
 
@@ -20,7 +20,6 @@ pub struct Blake2sLeafEncoder<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sLeafEncoder<F>  {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     pub fn new() -> Self {
         assert!(F::NUM_BITS < 256);
 
@@ -48,11 +47,9 @@ impl<F: PrimeField> HashEncoder<F> for Blake2sLeafEncoder<F>{
     fn interpret_hash(value: &Self::Input) -> F {
         let value = *value;
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
         // repr.read_le(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        shave_to_capacity::<F>(&mut repr);
         // let value = F::from_raw_repr(repr).expect("in a field");
         let value = F::from_repr(repr).expect("in a field");
 
diff --git a/src/transcript/mod.rs b/src/transcript/mod.rs
index ce3e407..bac3f3c 100644
--- a/src/transcript/mod.rs
+++ b/src/transcript/mod.rs
@@ -1,5 +1,6 @@
 use blake2s_simd::{Params, State};
 use ff::{PrimeField, PrimeFieldRepr};
+use crate::utils::shave_to_capacity;
 
 /*
 
@@ -32,7 +33,6 @@ pub struct Blake2sTranscript<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sTranscript<F> {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     const REPR_SIZE: usize = std::mem::size_of::<F::Repr>();
 }
 
@@ -69,10 +69,8 @@ impl<F: PrimeField> Transcript<F> for Blake2sTranscript<F> {
         self.state.update(&value[..]);
         
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        shave_to_capacity::<F>(&mut repr);
         let value = F::from_repr(repr).expect("in a field");
 
         value
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e63dbb..ac14466 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -2,6 +2,7 @@ use tiny_keccak::Keccak;
 use blake2s_simd;
 use crypto::sha2::Sha256;
 use crypto::digest::Digest;
+use ff::PrimeField;
 
 /*
 
@@ -105,6 +106,20 @@ impl Hasher for Sha256Hasher {
     }
 }
 
+// keep only the lowest CAPACITY bits, so the result is always a valid representation of the field element.
+// Number of limbs may be larger than necessary to keep CAPACITY bits
+pub(crate) fn shave_to_capacity<F: PrimeField>(repr: &mut F::Repr) {
+    let mut bits_left = F::CAPACITY;
+    for limb in repr.as_mut().iter_mut() {
+        if bits_left >= 64 {
+            bits_left -= 64;
+        } else {
+            *limb &= (1u64 << bits_left) - 1;
+            bits_left = 0;
+        }
+    }
+}
+
 pub fn log2_floor(num: usize) -> u32 {
     assert!(num > 0);
 
-- 
2.43.0


From 4fc7467d1fa303b2b203d715259407851466c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 06/16] fix: norm of Fq2 is c0^2 - beta * c1^2

---
 src/experiments/square_root_calculator/fp2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/experiments/square_root_calculator/fp2.rs b/src/experiments/square_root_calculator/fp2.rs
index 8ec4cf3..3b98a8d 100644
--- a/src/experiments/square_root_calculator/fp2.rs
+++ b/src/experiments/square_root_calculator/fp2.rs
@@ -131,9 +131,9 @@ impl Fq2 {
         t0.square();
         t1.square();
         t1.mul_assign(&NON_RESIDUE);
-        t1.add_assign(&t0);
+        t0.sub_assign(&t1);
 
-        t1
+        t0
     }
 }
 
-- 
2.43.0


From fe4deb95cefc4e8189366f09aa4423aa250ce04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 07/16] fix: refuse domain sizes for which there is no next
 power of two

---
 src/domains/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domains/mod.rs b/src/domains/mod.rs
index 682377e..b0bb708 100644
--- a/src/domains/mod.rs
+++ b/src/domains/mod.rs
@@ -19,7 +19,7 @@ pub struct Domain<F: PrimeField> {
 
 impl<F: PrimeField> Domain<F> {
     pub fn new_for_size(size: u64) -> Result<Self, SynthesisError> {
-        let size = size.next_power_of_two();
+        let size = size.checked_next_power_of_two().ok_or(SynthesisError::Error)?;
         let mut power_of_two = 0;
         let mut k = size;
         while k != 1 {
-- 
2.43.0


From 96dee329bf81c2cfc5671db2e8e625e34215b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 08/16] fix: FRI verifier must not fold the layer of the final
 polynomial, so more than one output coefficient is allowed

---
 src/fri/verifier.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index dd40c3f..24a4d75 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -230,6 +230,26 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 }
             }
 
+            if round + 1 == proof.roots.len() {
+                // the last root is a commitment to the values of the final polynomial itself, so there is nothing
+                // left to fold and both values must be consistent with the final coefficients
+                for q in queries.iter() {
+                    let evaluation_point = omega.pow([q.natural_index() as u64]);
+
+                    let mut value_from_coefficients = F::zero();
+                    for c in proof.final_coefficients.iter().rev() {
+                        value_from_coefficients.mul_assign(&evaluation_point);
+                        value_from_coefficients.add_assign(c);
+                    }
+
+                    if q.value() != value_from_coefficients {
+                        return Ok(false);
+                    }
+                }
+
+                return Ok(expected_value.is_some());
+            }
+
             let f_at_minus_omega = (&queries[1]).value();
             let divisor = omega_inv.pow([coset_values[0] as u64]);
 
@@ -266,25 +286,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             omega_inv.square();
         }
 
-
-        // finally we need to get expected value from coefficients
-
-        let mut expected_value_from_coefficients = F::zero();
-        let mut power = F::one();
-        let evaluation_point = omega.pow([domain_idx as u64]);
-
-        for c in proof.final_coefficients.iter() {
-            let mut tmp = power;
-            tmp.mul_assign(c);
-
-            expected_value_from_coefficients.add_assign(&tmp);
-            power.mul_assign(&evaluation_point);
-        }
-        
-        let expected_value = expected_value.expect("is some");
-
-        let valid = expected_value_from_coefficients == expected_value;
-
-        Ok(valid)
+        // there were no layers at all
+        Ok(false)
     }
 }
-- 
2.43.0


From 52700063174b2fe8b9480213a4191f6f0070396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 09/16] fix: FRI verifier must check parameters and shape of
 the proof instead of panicking or trusting them

---
 src/fri/verifier.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 24a4d75..d2f553c 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -143,7 +143,41 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
         // start from the bottom: we need to get a "pair" and calculate FRI step
 
-        let domain = Domain::<F>::new_for_size((proof.initial_degree_plus_one * proof.lde_factor) as u64)?;
+        // proof is not trusted, so all its parameters have to be consistent with each other
+        if !proof.initial_degree_plus_one.is_power_of_two() 
+            || !proof.output_coeffs_at_degree_plus_one.is_power_of_two() 
+            || !proof.lde_factor.is_power_of_two() 
+        {
+            return Err(SynthesisError::InvalidValue("degrees and LDE factor are expected to be powers of two".to_owned()));
+        }
+
+        if proof.output_coeffs_at_degree_plus_one >= proof.initial_degree_plus_one {
+            return Err(SynthesisError::InvalidValue("there must be at least one FRI step".to_owned()));
+        }
+
+        let num_steps = log2_floor(proof.initial_degree_plus_one / proof.output_coeffs_at_degree_plus_one) as usize;
+
+        if proof.final_coefficients.len() != proof.output_coeffs_at_degree_plus_one {
+            return Err(SynthesisError::InvalidValue("invalid number of final coefficients".to_owned()));
+        }
+
+        if proof.roots.len() != num_steps + 1 {
+            return Err(SynthesisError::InvalidValue("invalid number of roots".to_owned()));
+        }
+
+        if proof.queries.len() != degree * proof.roots.len() {
+            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
+        }
+
+        let domain_size = proof.initial_degree_plus_one.checked_mul(proof.lde_factor).ok_or(
+            SynthesisError::InvalidValue("LDE domain is too large".to_owned())
+        )?;
+
+        let domain = Domain::<F>::new_for_size(domain_size as u64)?;
+
+        if natural_element_index >= domain_size {
+            return Err(SynthesisError::InvalidValue(format!("initial index {} is not in the LDE domain", natural_element_index)));
+        }
 
         let domain_element = domain.generator.pow([natural_element_index as u64]);
 
@@ -167,10 +201,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         let mut domain_size = domain.size as usize;
         let mut domain_idx = natural_element_index;
 
-        if proof.queries.len() % degree != 0 {
-            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
-        }
-
         for (round, (root, queries)) in proof.roots.iter()
                                 .zip(proof.queries.chunks_exact(degree)) 
                                 .enumerate()
@@ -200,7 +230,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 if q.tree_index() != tree_index {
                     return Err(SynthesisError::InvalidValue(format!("invalid tree index for element at natural index {}: expected {}, got {}", c, tree_index, q.tree_index())));
                 }
-                assert!(q.natural_index() == *c, "coset values and produced queries are expected to be sorted!");
+                if q.natural_index() != *c {
+                    return Err(SynthesisError::InvalidValue("coset values and produced queries are expected to be sorted!".to_owned()));
+                }
             }
 
             for q in queries.iter() {
-- 
2.43.0


From 46e191b67a6a423dbd21f560f55b988d6a3c9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 10/16] fix: verifier must bind FRI proofs to the committed
 roots, degrees and LDE factor

---
 src/fri/mod.rs      | 15 +++++++++++++++
 src/verifier/mod.rs | 25 +++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index c8ba386..c75da5e 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -30,7 +30,10 @@ pub trait FriProofPrototype<F: PrimeField, I: IOP<F>> {
 }
 
 pub trait FriProof<F: PrimeField, I: IOP<F>> {
+    fn get_roots(&self) -> &[ < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput ];
     fn get_final_coefficients(&self) -> &[F];
+    fn get_initial_degree_plus_one(&self) -> usize;
+    fn get_lde_factor(&self) -> usize;
 }
 
 pub trait FriIop<F: PrimeField> {
@@ -147,9 +150,21 @@ pub struct FRIProof<F: PrimeField, I: IOP<F>> {
 }
 
 impl<F: PrimeField, I: IOP<F>> FriProof<F, I> for FRIProof<F, I> {
+    fn get_roots(&self) -> &[ < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput ] {
+        &self.roots
+    }
+
     fn get_final_coefficients(&self) -> &[F] {
         &self.final_coefficients
     }
+
+    fn get_initial_degree_plus_one(&self) -> usize {
+        self.initial_degree_plus_one
+    }
+
+    fn get_lde_factor(&self) -> usize {
+        self.lde_factor
+    }
 }
 
 impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 98d3f13..5a510ba 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -266,6 +266,13 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         &self,
         proof: &InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>
     ) -> Result<bool, SynthesisError> {
+        if proof.f_at_z_m.len() != self.all_masks.len() {
+            return Err(SynthesisError::Unsatisfied(format!("expected {} values of witness polynomials outside of the domain, proof contains {}", self.all_masks.len(), proof.f_at_z_m.len())));
+        }
+
+        Self::check_fri_parameters(&proof.fri_proof_h1, &proof.h1_iop_roots, self.column_domain.size, self.lde_factor)?;
+        Self::check_fri_parameters(&proof.fri_proof_h2, &proof.h2_iop_roots, self.constraints_domain.size, self.lde_factor)?;
+
         let mut scratch_space: InstanceProofScratchSpace<F, T, I, PerRegisterARP> = InstanceProofScratchSpace::new();
 
         for r in proof.f_iop_roots.iter() {
@@ -402,6 +409,24 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
     }
 
 
+    // FRI proof must be made for the polynomial and domain that follow from the instance, and for committed roots
+    fn check_fri_parameters(
+        fri_proof: &PR,
+        iop_roots: &[ < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput ],
+        degree_plus_one: u64,
+        lde_factor: usize
+    ) -> Result<(), SynthesisError> {
+        if iop_roots.len() == 0 || fri_proof.get_roots() != iop_roots {
+            return Err(SynthesisError::Unsatisfied("roots of the FRI proof are different from the committed ones".to_owned()));
+        }
+
+        if fri_proof.get_initial_degree_plus_one() as u64 != degree_plus_one || fri_proof.get_lde_factor() != lde_factor {
+            return Err(SynthesisError::Unsatisfied("FRI proof is made for another degree or LDE factor".to_owned()));
+        }
+
+        Ok(())
+    }
+
     fn simulate_h1_from_f_at_z (
         &self,
         mask_challenges: &[F],
-- 
2.43.0


From b256d53b73728fde686c28576c3598fa918579bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 11/16] fix: commit values of witness polynomials outside of
 the domain to the transcript

---
 src/ali/per_register/deep.rs | 28 ++++++++++++++++++++++++++--
 src/verifier/mod.rs          |  4 ++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/deep.rs b/src/ali/per_register/deep.rs
index ab69ef7..377bd27 100644
--- a/src/ali/per_register/deep.rs
+++ b/src/ali/per_register/deep.rs
@@ -28,6 +28,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         let mut h1_lde = Polynomial::<F, Values>::new_for_size(f_lde_size)?;
 
+        // values of witness polynomials outside of the domain must be committed before getting 
+        // any challenge that depends on them
         let mut f_at_z_m = vec![];
 
         for m in self.all_masks.iter() {
@@ -52,8 +54,30 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
             let witness_value_at_z = f_polys[reg_num].evaluate_at(&worker, root);
 
+            transcript.commit_field_element(&witness_value_at_z);
             f_at_z_m.push(witness_value_at_z);
-        
+        }
+
+        for (m, witness_value_at_z) in self.all_masks.iter().zip(f_at_z_m.iter()) {
+            let mut root = match m.steps_difference {
+                StepDifference::Mask(mask) => {
+                    mask
+                },
+                _ => {
+                    unreachable!();
+                }
+            };
+            root.mul_assign(&z);
+
+            let reg_num = match m.register {
+                Register::Register(reg_number) => {
+                    reg_number
+                },
+                _ => {
+                    unreachable!();
+                }
+            };
+
             let divisor = if let Some(d) = divisors_for_masks.get(&m.steps_difference) {
                 d
             } else {
@@ -72,7 +96,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             };
 
             let mut f_minus_f_at_z = f_ldes[reg_num].clone();
-            let mut minus_witness_value_at_z = witness_value_at_z;
+            let mut minus_witness_value_at_z = *witness_value_at_z;
             minus_witness_value_at_z.negate();
             f_minus_f_at_z.add_constant(&worker, &minus_witness_value_at_z);
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 5a510ba..1b27cbc 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -300,6 +300,10 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let z = scratch_space.transcript.get_challenge();
 
+        for el in proof.f_at_z_m.iter() {
+            scratch_space.transcript.commit_field_element(&el);
+        }
+
         for _ in self.all_masks.iter() {
             let alpha = scratch_space.transcript.get_challenge();
 
-- 
2.43.0


From 6d2c1c9188b1b4857d886b0911bd953afd21f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 12/16] fix: commit the statement to the transcript before
 getting any challenges

---
 src/arp/mod.rs      | 89 +++++++++++++++++++++++++++++++++++++++++++++
 src/prover/mod.rs   |  1 +
 src/verifier/mod.rs |  2 +
 3 files changed, 92 insertions(+)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 60ea21e..f939dad 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -2,6 +2,7 @@ use crate::air::*;
 use crate::air::TestTraceSystem;
 use crate::polynomials::*;
 use crate::fft::multicore::Worker;
+use crate::transcript::Transcript;
 use crate::*;
 
 use ff::PrimeField;
@@ -83,6 +84,94 @@ pub struct InstanceProperties<F: PrimeField> {
     pub boundary_constraints: Vec<BoundaryConstraint<F>>
 }
 
+impl<F: PrimeField> InstanceProperties<F> {
+    // Instance is a part of the statement, so it's necessary to commit it before getting any challenge
+    pub(crate) fn commit_to_transcript<T: Transcript<F>>(&self, transcript: &mut T) {
+        fn commit_number<F: PrimeField, T: Transcript<F>>(number: u64, transcript: &mut T) {
+            transcript.commit_bytes(&number.to_be_bytes());
+        }
+
+        fn commit_register<F: PrimeField, T: Transcript<F>>(register: &Register, transcript: &mut T) {
+            let (kind, index) = match register {
+                Register::ProgramCounter(i) => (0, i),
+                Register::Register(i) => (1, i),
+                Register::Constant(i) => (2, i),
+                Register::Aux(i) => (3, i),
+            };
+            commit_number(kind, transcript);
+            commit_number(*index as u64, transcript);
+        }
+
+        fn commit_univariate_term<F: PrimeField, T: Transcript<F>>(term: &UnivariateTerm<F>, transcript: &mut T) {
+            transcript.commit_field_element(&term.coeff);
+            commit_register(&term.register, transcript);
+            match term.steps_difference {
+                StepDifference::Steps(steps) => {
+                    commit_number(0, transcript);
+                    commit_number(steps as u64, transcript);
+                },
+                StepDifference::Mask(mask) => {
+                    commit_number(1, transcript);
+                    transcript.commit_field_element(&mask);
+                }
+            }
+            commit_number(term.power, transcript);
+        }
+
+        commit_number(self.num_rows as u64, transcript);
+        commit_number(self.num_registers as u64, transcript);
+
+        commit_number(self.constraints.len() as u64, transcript);
+        for c in self.constraints.iter() {
+            transcript.commit_field_element(&c.constant_term);
+            commit_number(c.degree, transcript);
+
+            let (kind, parameters) = match c.density {
+                ConstraintDensity::Dense(ref d) => (0, vec![d.start_at, d.span]),
+                ConstraintDensity::Repeated(ref d) => (1, vec![d.start_at, d.span, d.interval]),
+                ConstraintDensity::Sparse(ref d) => (2, d.rows.clone()),
+            };
+            commit_number(kind, transcript);
+            commit_number(parameters.len() as u64, transcript);
+            for parameter in parameters.into_iter() {
+                commit_number(parameter as u64, transcript);
+            }
+
+            commit_number(c.terms.len() as u64, transcript);
+            for t in c.terms.iter() {
+                match t {
+                    ConstraintTerm::Univariate(ref uni) => {
+                        commit_number(0, transcript);
+                        commit_univariate_term(uni, transcript);
+                    },
+                    ConstraintTerm::Polyvariate(ref poly) => {
+                        commit_number(1, transcript);
+                        transcript.commit_field_element(&poly.coeff);
+                        commit_number(poly.terms.len() as u64, transcript);
+                        for uni in poly.terms.iter() {
+                            commit_univariate_term(uni, transcript);
+                        }
+                    }
+                }
+            }
+        }
+
+        commit_number(self.boundary_constraints.len() as u64, transcript);
+        for b_c in self.boundary_constraints.iter() {
+            commit_register(&b_c.register, transcript);
+            commit_number(b_c.at_row as u64, transcript);
+            match b_c.value {
+                Some(ref value) => {
+                    commit_number(1, transcript);
+                    transcript.commit_field_element(value);
+                },
+                None => {
+                    commit_number(0, transcript);
+                }
+            }
+        }
+    }
+}
 
 impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
     fn into_arp(self) ->  (Option<Vec<Vec<F>>>, InstanceProperties<F>) {
diff --git a/src/prover/mod.rs b/src/prover/mod.rs
index d0a6e26..b34241f 100644
--- a/src/prover/mod.rs
+++ b/src/prover/mod.rs
@@ -65,6 +65,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
     pub fn prove(&self, witness: Vec<Vec<F>>) -> Result<InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>, SynthesisError> {
         let mut transcript = T::new();
+        self.arp.properties.commit_to_transcript(&mut transcript);
 
         let witness_polys = self.arp.calculate_witness_polys(witness, &self.worker)?;
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 1b27cbc..ef8f587 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -275,6 +275,8 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let mut scratch_space: InstanceProofScratchSpace<F, T, I, PerRegisterARP> = InstanceProofScratchSpace::new();
 
+        self.instance.commit_to_transcript(&mut scratch_space.transcript);
+
         for r in proof.f_iop_roots.iter() {
             scratch_space.transcript.commit_bytes(r.as_ref());
         }
-- 
2.43.0


From 66c3b4da56a4aab57c47c667aa7b245abd244553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 13/16] fix: values of a batch of constraints must not include
 values of the previous batches

---
 src/ali/per_register/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 499f7a3..3d94556 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -253,6 +253,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // all zeroes
         let mut g_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let zero_values = g_values.clone();
 
         fn evaluate_for_mask<F: PrimeField> (
             mut f: Polynomial<F, Coefficients>,
@@ -426,7 +427,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
-            let mut batch_values = g_values.clone();
+            let mut batch_values = zero_values.clone();
             for c in batch.iter()   {
                 let constraint_power = c.degree;
                 assert!(self.max_constraint_power >= constraint_power);
@@ -449,7 +450,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                     Some(adj_poly)
                 };
 
-                let mut constraint_values = g_values.clone();
+                let mut constraint_values = zero_values.clone();
                 for t in c.terms.iter() {
                     let subval = evaluate_constraint_term_into_values(
                         t, 
-- 
2.43.0


From 5885cd39e7366350cf826e1f600743d0b7938650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:58 +0000
Subject: [PATCH 14/16] fix: log2_floor must terminate for numbers with the
 highest bit set, that FRI verifier can get from the proof

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ac14466..44ebd49 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -125,7 +125,7 @@ pub fn log2_floor(num: usize) -> u32 {
 
     let mut pow = 0;
 
-    while (1 << (pow+1)) <= num {
+    while (num >> pow) > 1 {
         pow += 1;
     }
 
-- 
2.43.0


From a022a9d68a7e1f4174029d90675a88bb4f954daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 15/16] fix: coefficient of a univariate term is raised to the
 power along with the register

---
 src/air/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/air/constraint.rs b/src/air/constraint.rs
index dbb59d5..04990e4 100644
--- a/src/air/constraint.rs
+++ b/src/air/constraint.rs
@@ -186,6 +186,7 @@ impl<F: PrimeField> UnivariateTerm<F> {
         let new_power = self.power.checked_mul(power).expect("maximum power is limited to U64MAX");
         let mut new = self.clone();
         new.power = new_power;
+        new.coeff = self.coeff.pow([power]);
 
         new
     }
-- 
2.43.0


From 7b12d75812c5647b6bf785d1942ccb83e6c50849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:06 +0000
Subject: [PATCH 16/16] fix: an instance made from a trace system has as many
 registers as there are of all kinds

---
 src/arp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index f939dad..e3959f4 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -325,7 +325,7 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
 
         let properties = InstanceProperties::<F> {
             num_rows,
-            num_registers,
+            num_registers: total_registers,
             constraints,
             boundary_constraints,
         };
-- 
2.43.0

