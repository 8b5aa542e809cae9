# planted bugs: id, property, edits [(file, old, new[, nth])], needs, breaks, body of the demonstration
S=[]
def seed(id, prop, edits, needs, breaks, body): S.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, body=body))
A='src/ali/per_register/mod.rs'; D='src/ali/per_register/deep.rs'; V='src/verifier/mod.rs'; P='src/polynomials/mod.rs'
FR='src/fri/mod.rs'; FV='src/fri/verifier.rs'; FO='src/fri/fri_on_values.rs'; QP='src/fri/query_producer.rs'; DM='src/domains/mod.rs'
TR='src/transcript/mod.rs'; IO='src/iop/blake2s_trivial_iop.rs'; CC='src/iop/trivial_coset_combiner.rs'; L='src/fft/lde.rs'; F='src/fft/fft.rs'
R4='src/fft/radix4_fft/mod.rs'; DI='src/fft/dit_fft/mod.rs'; MC='src/fft/multicore.rs'; FM='src/fft/mod.rs'; PC='src/precomputations/mod.rs'
AR='src/arp/per_register/mod.rs'; AM='src/arp/mod.rs'; DQ='src/arp/density_query.rs'; MP='src/arp/mappings.rs'; CO='src/air/constraint.rs'; AI='src/air/mod.rs'
TS='src/air/test_trace_system.rs'; UT='src/utils/mod.rs'; UP='src/utils/poly.rs'; VD='src/experiments/vdf.rs'; CV='src/experiments/cubic_vdf.rs'
FP='src/experiments/square_root_calculator/fp2.rs'; TL='src/experiments/tensor_lde.rs'; AL='src/ali/mod.rs'; PR='src/prover/mod.rs'

seed('mask-offset-wraps','C01',[(MP,"let mask = column_domain.generator.pow([step_delta]);","let mask = column_domain.generator.pow([step_delta & 3]);")],
 "a constraint that relates rows at a distance of four or more","the prover and the verifier look at another row than the constraint names: honest proofs are rejected",
 '''
    // R(t+5) = R(t) + 3
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 5, 1); c -= uni(1, 0, 0, 1); c -= &fe::<Big>(3); dense(&mut c, 0, 5);
    let mut t: Vec<Big> = (0..5).map(|i| fe(10 * i + 7)).collect();
    for i in 5..16 { let v = add(t[i - 5], fe(3)); t.push(v); }
    let p = props(16, 1, vec![c], vec![bc(0, 0, fe(7))]);
    let ok = match prove(&p, &vec![t], 4, 1) { Ok(pr) => verify(&p, 4, &pr) == Ok(true), Err(_) => false };
    check(ok, "an honest proof is not accepted");
''')
seed('last-transition-dropped','C02',[(A,"let last_step = num_rows - span;","let last_step = if num_rows == divisor_domain_size { num_rows - span } else { num_rows - span - 1 };"),(V,"let last_step = num_rows - span;","let last_step = if num_rows == divisor_domain_size { num_rows - span } else { num_rows - span - 1 };")],
 "a trace whose length is not a power of two and whose last transition is wrong; both the prover side and the verifier side are changed consistently","a trace with an invalid last transition is proved and accepted",
 '''
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 1, 1); c -= uni(1, 0, 0, 2); dense(&mut c, 0, 1);
    for s in 0..3u64 {
        let mut t: Vec<Big> = vec![fe(3 + s)];
        for i in 0..5 { let mut v = t[i]; v.square(); t.push(v); }
        let good = t.clone();
        t[5] = fe(1234 + s);
        let p = props(6, 1, vec![c.clone()], vec![bc(0, 0, fe(3 + s))]);
        let ok = match prove(&p, &vec![good], 4, 1) { Ok(pr) => verify(&p, 4, &pr) == Ok(true), Err(_) => false };
        check(ok, "an honest proof is not accepted");
        let bad = match prove(&p, &vec![t], 4, 1) { Ok(pr) => verify(&p, 4, &pr) == Ok(true), Err(_) => false };
        check(!bad, "a proof for a trace with a wrong last row is accepted");
    }
''')
FIB='''
    let mut cs = vec![];
    for r in 0..3 { let mut c = Constraint::<Big>::default(); c += uni(1, r, 1, 1); c -= uni(1, r, 0, 2); c -= uni(1, (r + 1) % 3, 0, 1); dense(&mut c, 0, 1); cs.push(c); }
    let mut t: Vec<Vec<Big>> = vec![vec![fe(3)], vec![fe(4)], vec![fe(5)]];
    for i in 0..15 { for r in 0..3 { let mut v = t[r][i]; v.square(); v.add_assign(&t[(r + 1) % 3][i]); t[r].push(v); } }
    let p = props(16, 3, cs, vec![bc(0, 0, fe(3)), bc(1, 0, fe(4))]);
    let pr = match prove(&p, &t, 4, 1) { Ok(x) => x, Err(e) => { check(false, "proving failed"); return; } };
    check(verify(&p, 4, &pr) == Ok(true), "an honest proof is not accepted");
'''
seed('third-register-opening-unchecked','C03',[(V,"            if !I::verify_query(query, root) {\n                return Ok(false);\n            }\n","            if f_ldes_at_x.len() < 2 && !I::verify_query(query, root) {\n                return Ok(false);\n            }\n")],
 "an instance with three registers or more and a proof whose opening of the third oracle is altered","a proof with an altered authentication path is accepted",
 FIB+'''
    let mut bad = copy(&pr);
    bad.f_queries[2] = spoil(&pr.f_queries[2], 0);
    check(verify(&p, 4, &bad) != Ok(true), "a proof with a false authentication path is accepted");
''')
seed('short-proof-panics','C04',[(V,"        if proof.f_queries.len() != self.instance.num_registers {","        if proof.f_queries.len() > self.instance.num_registers {")],
 "a proof that contains neither openings nor roots of the witness oracles","the verifier panics instead of reporting an error",
 FIB+'''
    let mut bad = copy(&pr);
    bad.f_queries.clear();
    bad.f_iop_roots.clear();
    let r = verify(&p, 4, &bad);
    check(r != Ok(true) && r != Err("panic".to_string()), "the verifier panics on a proof that is too short");
''')
seed('composition-opening-unchecked','C05',[(V,"        if !I::verify_query(&proof.g_query, &proof.g_iop_root) {\n            return Ok(false);\n        }\n","")],
 "a prover that opens the composition oracle to another value or along a false path","an opening that does not belong to the committed oracle is accepted",
 FIB+'''
    let mut bad = copy(&pr);
    bad.g_query = spoil(&pr.g_query, 1);
    check(verify(&p, 4, &bad) != Ok(true), "a proof with an unauthenticated opening of the composition is accepted");
''')
FRI='''
    let lde = 2usize; let n = 16usize;
    let w = worker_with_cpus(1);
    let coeffs: Vec<Big> = (0..n as u64).map(|i| rnd(i)).collect();
    let values = Polynomial::<Big, Coefficients>::from_coeffs(coeffs).unwrap().lde(&w, lde).unwrap();
'''
seed('fold-coefficients-chunk','C06',[(FR,".zip(coeffs_slice.chunks(chunk*2)) {",".zip(coeffs_slice.chunks((chunk*2).next_power_of_two())) {")],
 "a number of CPUs that is not a power of two in the variant that folds coefficients","the folded polynomial is another one than that of the variant that folds values",
 FRI.replace('16usize','64usize')+'''
    for cpus in [1usize, 3, 5, 6, 7] {
        let wk = worker_with_cpus(cpus);
        let a = FriT::proof_from_lde_by_values(&values, lde, 1, &w).unwrap();
        let vals = values.clone();
        let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FriT::proof_from_lde_through_coefficients(vals, lde, 1, &wk)));
        let b = match b { Ok(Ok(b)) => b, _ => { check(false, "folding fails"); return; } };
        check(a.final_coefficients == b.final_coefficients, "the two ways to fold give different polynomials");
        check(a.get_roots() == b.get_roots(), "the two ways to fold give different commitments");
    }
''')
seed('later-layer-second-opening','C07',[(FV,"            for q in queries.iter() {\n                if !I::verify_query(&q, &root) {","            for q in queries.iter().take(if round == 0 { degree } else { 1 }) {\n                if !I::verify_query(&q, &root) {")],
 "an altered second opening in the second or a later layer","a FRI proof with an unauthenticated value is accepted",
 FRI+'''
    let i = 5;
    let proto = FriT::proof_from_lde(&values, lde, 1, &w).unwrap();
    let pr = FriT::prototype_into_proof(proto, &values, i).unwrap();
    check(matches!(FriT::verify_proof(&pr, i, values.as_ref()[i]), Ok(true)), "an honest FRI proof is not accepted");
    for k in 0..pr.queries.len() {
        let mut bad = copy_fri(&pr);
        bad.queries[k] = spoil(&pr.queries[k], 0);
        check(!matches!(FriT::verify_proof(&bad, i, values.as_ref()[i]), Ok(true)), "a FRI proof with a false authentication path is accepted");
    }
''')
seed('distribute-powers-offset','C08',[(FM,"let mut u = g.pow(&[(i * chunk) as u64]);","let mut u = g.pow(&[(i * chunk.next_power_of_two()) as u64]);")],
 "a number of CPUs that is not a power of two, so that chunks are not either","powers are wrong from the second chunk on: coset transforms are wrong",
 '''
    let coeffs: Vec<Big> = (0..32u64).map(|i| rnd(i)).collect();
    let a = Polynomial::<Big, Coefficients>::from_coeffs(coeffs.clone()).unwrap().coset_fft(&worker_with_cpus(3)).into_coeffs();
    let g = Big::multiplicative_generator();
    let d = Domain::<Big>::new_for_size(32).unwrap();
    let mut x = g;
    for k in 0..32 {
        let mut v = Big::zero();
        for c in coeffs.iter().rev() { v.mul_assign(&x); v.add_assign(c); }
        check(v == a[k], "a coset transform is not the evaluation of the polynomial");
        x.mul_assign(&d.generator);
    }
''')
seed('parallel-lde-factor','C09',[(L,"let new_lde_factor = lde_factor >> log_cpus;","let new_lde_factor = lde_factor >> (log_cpus / 2);")],
 "more than one CPU in the filtering extension","the extension skips the wrong entries",
 '''
    for cpus in [2usize, 4] { for log in 3..6u32 { for f in 1..5u32 {
        let n = 1usize << log; let factor = 1usize << f;
        let coeffs: Vec<Big> = (0..n as u64).map(|i| rnd(i)).collect();
        let p = Polynomial::<Big, Coefficients>::from_coeffs(coeffs).unwrap();
        let want = p.clone().lde_using_multiple_cosets_naive(&worker_with_cpus(1), factor).unwrap();
        let got = p.filtering_lde(&worker_with_cpus(cpus), factor).unwrap();
        check(want.as_ref() == got.as_ref(), "an extension is not the evaluation of the polynomial");
    } } }
''')
seed('thread-count-rounds-down','C10',[(MC,"        if elements % chunk_size != 0 {\n            n += 1;\n        }\n","")],
 "a vector whose length is not divisible by the chunk that the number of CPUs gives","batch inversion leaves the tail of the vector as it was",
 '''
    for cpus in 1..9usize { for n in [1usize, 2, 4, 8, 16, 32] {
        let v: Vec<Big> = (0..n as u64).map(|i| rnd(i)).collect();
        let mut p = Polynomial::<Big, Values>::from_values(v.clone()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { p.batch_inversion(&worker_with_cpus(cpus)).unwrap(); p.into_coeffs() }));
        check(r.is_ok(), "batch inversion fails");
        for (a, b) in v.iter().zip(r.unwrap().iter()) { check(mul(*a, *b) == Big::one(), "batch inversion leaves elements that are not inverted"); }
    } }
''')
seed('tree-level-chunks','C11',[(IO,"                                .zip(inputs.chunks(chunk*2)) {\n                    scope.spawn(move |_| {\n                        for (o, i) in o.iter_mut().zip(i.chunks(2)) {\n                            *o",".zip(inputs.chunks((chunk*2).next_power_of_two())) {\n                    scope.spawn(move |_| {\n                        for (o, i) in o.iter_mut().zip(i.chunks(2)) {\n                            *o")],
 "a number of CPUs that is not a power of two and a tree with enough leaves for several chunks","the tree pairs the wrong nodes, its root depends on the number of CPUs and openings fail",
 '''
    let v: Vec<Big> = (0..64u64).map(|i| rnd(i)).collect();
    for k in [3usize, 5, 6, 7] {
        let v = v.clone();
        std::thread::spawn(move || {
            if !use_cpus(k) { return; }
            let t = I::create(&v);
            let root = t.get_root();
            for i in 0..64 { let q = t.query(i, &v); check(I::verify_query(&q, &root), "an honest opening is not accepted"); }
        }).join().unwrap();
    }
''')
seed('element-encoding-ambiguous','C12',[(TR,"        repr.write_be(&mut bytes[..]).expect(\"should write\");\n        self.state.update(&bytes[..]);","        repr.write_be(&mut bytes[..]).expect(\"should write\");\n        let skip = bytes.iter().take_while(|b| **b == 0).count();\n        self.state.update(&bytes[skip..]);")],
 "field elements with leading zero bytes","different sequences of committed elements lead to the same challenges",
 '''
    let ch = |v: &[u64]| { let mut t = T::new(); for x in v { t.commit_field_element(&fe::<Big>(*x)); } t.get_challenge_bytes() };
    check(ch(&[1, 2]) != ch(&[0x0102]), "different histories give the same challenge");
    check(ch(&[0, 5]) != ch(&[5]), "different histories give the same challenge");
    check(ch(&[5, 0]) != ch(&[5]), "different histories give the same challenge");
''')
seed('density-limit','C13',[(DQ,"let limit = num_rows - span;","let limit = num_rows - span.max(start_at);")],
 "a constraint that starts at a row larger than its span, violated in the last rows","a trace that violates a constraint is reported as satisfying",
 '''
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 1, 1); c -= uni(1, 0, 0, 1); dense(&mut c, 3, 1);
    let mut t: Vec<Big> = vec![fe(9), fe(8), fe(7), fe(5), fe(5), fe(5), fe(5), fe(5)];
    let p = props(8, 1, vec![c], vec![]);
    let w = worker_with_cpus(1);
    check(ARPInstance::<Big, PerRegisterARP>::is_satisfied(&p, &vec![t.clone()], &w).is_ok(), "a satisfying trace is refused");
    for i in 3..8 { let mut b = t.clone(); b[i] = fe(6); check(ARPInstance::<Big, PerRegisterARP>::is_satisfied(&p, &vec![b], &w).is_err(), "a violated constraint is not noticed"); }
''')
seed('rows-checked-after-padding','C14',[(AR,"        if num_rows != self.properties.num_rows {","        if num_rows.next_power_of_two() != self.properties.num_rows.next_power_of_two() {")],
 "a trace with another number of rows than the instance, both padded to the same power of two","a trace of the wrong shape is interpolated instead of being refused",
 '''
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 1, 1); c -= uni(1, 0, 0, 1); dense(&mut c, 0, 1);
    let p = props(7, 1, vec![c], vec![]);
    let w = worker_with_cpus(1);
    let a = ARPInstance::<Big, PerRegisterARP>::from_instance(p, &w).unwrap();
    for n in 1..20usize { check(a.calculate_witness_polys(vec![vec![fe::<Big>(3); n]], &w).is_ok() == (n == 7), "shape of the trace is not checked"); }
''')
seed('shared-mask-challenge','C16',[(D,"            let alpha = transcript.get_challenge();\n\n            f_minus_f_at_z.scale","            if last_register != Some(reg_num) {\n                alpha = transcript.get_challenge();\n                last_register = Some(reg_num);\n            }\n\n            f_minus_f_at_z.scale"),
 (D,"        for (m, witness_value_at_z) in self.all_masks.iter()","        let mut alpha = F::zero();\n        let mut last_register: Option<usize> = None;\n\n        for (m, witness_value_at_z) in self.all_masks.iter()"),
 (V,"        for _ in self.all_masks.iter() {\n            let alpha = scratch_space.transcript.get_challenge();\n","        let mut alpha = F::zero();\n        let mut last_register: Option<Register> = None;\n\n        for m in self.all_masks.iter() {\n            if last_register != Some(m.register) {\n                alpha = scratch_space.transcript.get_challenge();\n                last_register = Some(m.register);\n            }\n")],
 "two consecutive masks of one register; the prover and the verifier are changed together, so honest proofs are still accepted","masks of one register share a challenge, so that errors in two claimed values can cancel",
 '''
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 1, 1); c -= uni(1, 0, 0, 2); dense(&mut c, 0, 1);
    let p = props(8, 1, vec![c], vec![]);
    let w = worker_with_cpus(1);
    let ali = ALIInstance::from_arp(ARPInstance::<Big, PerRegisterARP>::from_instance(p, &w).unwrap(), &w).unwrap();
    let f = Polynomial::<Big, Coefficients>::from_coeffs((0..8u64).map(|i| rnd(i)).collect()).unwrap();
    let g = Polynomial::<Big, Coefficients>::from_coeffs((0..16u64).map(|i| rnd(100 + i)).collect()).unwrap();
    let fl = f.clone().lde(&w, 2).unwrap();
    let gl = g.clone().lde(&w, 2).unwrap();
    let mut t = T::new();
    let (h1, _, fz, _) = ali.calculate_deep(&vec![f], &vec![fl.clone()], &g, &gl, &mut t, &w).unwrap();
    let mut r = T::new();
    let z = r.get_challenge();
    check(fz.len() == 2, "two values outside of the domain are expected");
    for v in fz.iter() { r.commit_field_element(v); }
    let alphas = [r.get_challenge(), r.get_challenge()];
    check(r.get_challenge_bytes() == t.get_challenge_bytes(), "there must be one challenge per mask");
    // some order of the two points gives the quotient
    let wz = mul(z, Domain::<Big>::new_for_size(8).unwrap().generator);
    let x = Domain::<Big>::new_for_size(16).unwrap().generator;
    let mut seen = false;
    for pts in [[z, wz], [wz, z]] {
        let mut v = Big::zero();
        for k in 0..2 { v.add_assign(&mul(mul(sub(fl.as_ref()[1], fz[k]), alphas[k]), sub(x, pts[k]).inverse().unwrap())); }
        seen |= v == h1.as_ref()[1];
    }
    check(seen, "the quotient is not the combination of the quotients of the masks");
''')
seed('next-index-at-half','C17',[(DM,"let next_index = if natural_index < next_size {","let next_index = if natural_index <= next_size {")],
 "a position exactly in the middle of a domain","the position in the next domain is outside of it",
 '''
    for log in 1..10u32 { let n = 1usize << log; for i in 0..n { check(Domain::<Big>::index_and_size_for_next_domain(i, n) == (i % (n / 2), n / 2), "position in the next domain"); } }
''')
seed('subtracted-product-degree','C18',[(CO,"        rhs.coeff.negate();\n        if self.degree < rhs.total_degree {","        rhs.coeff.negate();\n        if self.degree < rhs.terms.len() as u64 {")],
 "a product with a factor of power two or more that is subtracted from a constraint whose degree is already at least the number of factors","the degree of the constraint ends up wrong",
 '''
    let mut t = PolyvariateTerm::<Big>::default();
    t *= uni(1, 0, 0, 3);
    t *= uni(1, 1, 0, 2);
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 0, 2);
    c -= t.clone();
    check(c.degree == 5, "degree after a subtraction");
    let mut c = Constraint::<Big>::default();
    c += t;
    check(c.degree == 5, "degree after an addition");
''')
seed('evaluation-chunk-offset','C19',[(P,"let mut x = g.pow([(i*chunk) as u64]);\n                    for a in a.iter() {","let mut x = g.pow([(i*a.len()) as u64]);\n                    for a in a.iter() {")],
 "a number of CPUs that does not divide the number of coefficients, so that the last chunk is shorter","the value of a polynomial depends on the number of CPUs",
 '''
    for n in [2usize, 4, 8, 16, 32] {
        let p = Polynomial::<Big, Coefficients>::from_coeffs((0..n as u64).map(|i| rnd(i)).collect()).unwrap();
        let want = p.evaluate_at(&worker_with_cpus(1), fe(12345));
        for cpus in 2..9usize { check(p.evaluate_at(&worker_with_cpus(cpus), fe(12345)) == want, "the result depends on the number of CPUs"); }
    }
''')
seed('consecutive-powers-offset','C20',[(UP,"base.pow(&[(i*chunk) as u64])","base.pow(&[(i*coeffs.len()) as u64])")],
 "a number of CPUs that does not divide the number of coefficients","the evaluation at consecutive powers is wrong",
 '''
    for k in [1usize, 3, 5, 6, 7] {
        std::thread::spawn(move || {
            if !use_cpus(k) { return; }
            for n in 1..40u64 {
                let v: Vec<Big> = (0..n).map(|i| rnd(i)).collect();
                let mut want = Big::zero();
                for c in v.iter().rev() { want.mul_assign(&fe(77)); want.add_assign(c); }
                want.mul_assign(&fe(5));
                check(poly::evaluate_at_consequitive_powers(&v, fe::<Big>(5), fe::<Big>(77)) == want, "evaluation at consecutive powers");
            }
        }).join().unwrap();
    }
''')
seed('vdf-output-unbound','C21',[(VD,"vec![initial_c0_constraint, initial_c1_constraint, final_c0_constraint, final_c1_constraint]","vec![initial_c0_constraint, initial_c1_constraint, final_c0_constraint]")],
 "a statement with a false second component of the output","the instance does not say what the second component of the output is",
 '''
    let (w, p) = vh::experiments::VDF::<Big> { start_c0: fe(3), start_c1: fe(4), num_operations: 7 }.into_arp();
    let w = w.unwrap();
    for r in 0..2 { for row in [0usize, 7] {
        check(p.boundary_constraints.iter().any(|b| b.register == Register::Register(r) && b.at_row == row && b.value == Some(w[r][row])), "an input or output is not bound by the instance");
    } }
''')
seed('fq2-root-of-base-element','C22',[(FP,"        if self.is_zero() {\n            Some(Self::zero())\n        } else {","        if self.c1.is_zero() {\n            // elements of the base field\n            self.c0.sqrt().map(|c0| Self { c0, c1: Fq::zero() })\n        } else {")],
 "an element of the base field that is not a square there (it is one in the extension)","it is reported to have no root in the extension",
 '''
    use vh::experiments::Fq2;
    use ff::SqrtField;
    for (a, b) in [(0u64, 1u64), (0, 7), (1, 0), (5, 6)] {
        let x = Fq2 { c0: fe(a), c1: fe(b) };
        let s = { let mut s = x; s.square(); s };
        check(s.sqrt().map(|r| { let mut y = r; y.square(); y == s }) == Some(true), "a square has no root");
    }
''')
seed('keccak-reuse','C23',[(UT,"let new_h = Keccak::new_keccak256();\n        let h = std::mem::replace(&mut self.h, new_h);","let h = self.h.clone();")],
 "a hasher that is used again after a digest was taken","the second digest depends on what was hashed before the first one",
 '''
    let mut h = Keccak256Hasher::new(b"p");
    h.update(b"first");
    let a = h.finalize();
    h.update(b"second");
    let b = h.finalize();
    let mut f = Keccak256Hasher::new(b"");
    f.update(b"second");
    check(b == f.finalize() && a != b, "the hasher is not reset by taking the digest");
''')
seed('constant-registers-remap','C25',[(AM,"let constant_register_remap_constant = aux_register_remap_constant + num_aux_registers;","let constant_register_remap_constant = aux_register_remap_constant + num_constant_registers;")],
 "a trace system with constant registers whose number differs from that of auxiliary registers","constraints on constant registers are turned into constraints on other columns",
 '''
    let mut s = vh::test_trace_system::<Big>();
    let r = s.allocate_register("r".to_string()).unwrap();
    let a = s.allocate_aux_register().unwrap();
    let a2 = s.allocate_aux_register().unwrap();
    let k = s.allocate_constant_register("k".to_string(), |_| Ok((Big::one(), true))).unwrap();
    let t = |r: Register| UnivariateTerm::<Big>::from(r);
    let mut c = Constraint::<Big>::default();
    c += t(r); c -= t(a); c -= t(a2); c -= t(k);
    s.add_constraint(c, |_| Ok(vec![])).unwrap();
    s.step(1).unwrap();
    s.registers_witness[0] = vec![Big::one(); 2];
    for i in 0..2 { s.aux_registers_witness[i] = vec![Big::one(); 2]; }
    s.constant_registers_witness[0] = vec![Big::one(); 2];
    let (_, p) = s.into_arp();
    let got: Vec<Register> = p.constraints[0].terms.iter().map(|t| match t { ConstraintTerm::Univariate(u) => u.register, _ => Register::Aux(99) }).collect();
    check(got == vec![Register::Register(0), Register::Register(1), Register::Register(2), Register::Register(3)], "registers of a constraint are those of other columns");
''')
seed('positions-inside-trace-domain','C26',[(V,"        if natural_x_index % lde_factor == 0 {\n            natural_x_index += 1;","        if natural_x_index % (lde_factor * 2) == 0 {\n            natural_x_index += 1;"),(V,"        if natural_x_index % 2 == 0 {\n            natural_x_index += 1;","        if natural_x_index % 2 == 0 && natural_x_index % lde_factor != 0 {\n            natural_x_index += 1;")],
 "a transcript whose challenge is an odd multiple of the blow-up factor (one of twice that factor)","a cell of the trace is opened in the proof; honest proofs are still accepted, as the prover and the verifier share the function",
 '''
    for s in 0..200u64 {
        let mut c = Constraint::<Big>::default();
        c += uni(1, 0, 1, 1); c -= uni(1, 0, 0, 2); dense(&mut c, 0, 1);
        let mut t: Vec<Big> = vec![fe(3 + s)];
        for i in 0..7 { let mut v = t[i]; v.square(); t.push(v); }
        let p = props(8, 1, vec![c], vec![bc(0, 0, fe(3 + s))]);
        let pr = match prove(&p, &vec![t.clone()], 4, 1) { Ok(x) => x, Err(_) => { check(false, "proving failed"); return; } };
        if s < 20 { check(verify(&p, 4, &pr) == Ok(true), "an honest proof is not accepted"); }
        check(pr.f_queries[0].natural_index() % 4 != 0, "a register is opened inside of the trace domain");
        check(pr.g_query.natural_index() % 4 != 0, "the composition is opened inside of the constraints domain");
        check(!t.contains(&pr.f_queries[0].value()), "a cell of the trace is opened");
    }
''')
seed('challenge-buffer-kept','C27',[(V,"    lde_factor: usize,\n        \n    _marker_a","    lde_factor: usize,\n    // reused between verifications\n    mask_challenges: std::sync::Mutex<Vec<F>>,\n        \n    _marker_a"),
 (V,"            lde_factor,\n\n            _marker_a","            lde_factor,\n            mask_challenges: std::sync::Mutex::new(vec![]),\n\n            _marker_a"),
 (V,"        for _ in self.all_masks.iter() {\n            let alpha = scratch_space.transcript.get_challenge();\n\n            scratch_space.h1_poly_challenges.push(alpha);\n        }","        let mut mask_challenges = self.mask_challenges.lock().expect(\"not poisoned\");\n        for _ in self.all_masks.iter() {\n            mask_challenges.push(scratch_space.transcript.get_challenge());\n        }"),
 (V,"            &scratch_space.h1_poly_challenges, \n            x_challenge_index_h1, \n            &f_lde_domain, \n            &f_ldes_at_x, \n            &proof.f_at_z_m,\n            z\n        )?;","            &mask_challenges, \n            x_challenge_index_h1, \n            &f_lde_domain, \n            &f_ldes_at_x, \n            &proof.f_at_z_m,\n            z\n        )?;\n        mask_challenges.clear();")],
 "a verifier that rejected a proof at the openings of registers, and is then given a valid proof with other challenges","the valid proof is rejected: challenges of the rejected one are still in the buffer",
 FIB+'''
    let mut bad = copy(&pr);
    bad.f_at_z_m[0] = add(bad.f_at_z_m[0], fe(1));
    let v = V::new(p.clone(), 4).unwrap();
    for _ in 0..3 {
        check(matches!(v.verify(&pr), Ok(true)), "a valid proof is rejected by a verifier that was used before");
        check(!matches!(v.verify(&bad), Ok(true)), "a proof with a false value is accepted");
    }
''')
seed('composition-degree-optional','C05',[(V,"        Ok(valid)\n    }\n\n\n    // FRI proof","        Ok(valid || self.instance.boundary_constraints.len() == 0)\n    }\n\n\n    // FRI proof")],
 "an instance without boundary constraints and a prover whose composition is not that of its registers","the low degree test of the second quotient has no effect there",
 '''
    for bcs in 0..2usize {
        let mut c = Constraint::<Big>::default();
        c += uni(1, 0, 1, 1); c -= uni(1, 0, 0, 2); dense(&mut c, 0, 1);
        let mut t: Vec<Big> = vec![fe(3)];
        for i in 0..7 { let mut v = t[i]; v.square(); t.push(v); }
        let p = props(8, 1, vec![c], if bcs == 1 { vec![bc(0, 0, fe(3))] } else { vec![] });
        let pr = match prove(&p, &vec![t.clone()], 4, 1) { Ok(x) => x, Err(_) => { check(false, "proving failed"); return; } };
        check(verify(&p, 4, &pr) == Ok(true), "an honest proof is not accepted");
        let mut bad = copy(&pr);
        bad.fri_proof_h2.queries[0] = spoil(&pr.fri_proof_h2.queries[0], 0);
        check(verify(&p, 4, &bad) != Ok(true), "a proof with a false opening of the second quotient is accepted");
        // another composition altogether
        t[5] = fe(77);
        if let Ok(pr) = prove(&p, &vec![t], 4, 1) { check(verify(&p, 4, &pr) != Ok(true), "a proof of a false statement is accepted"); }
    }
''')
seed('zero-boundary-cell','C13',[(AR,"                if expected != from_witness {","                if expected != from_witness && !from_witness.is_zero() {")],
 "a trace with a zero in a cell that the boundary fixes to another value","the checker reports it as satisfying",
 '''
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 1, 1); c -= uni(2, 0, 0, 1); dense(&mut c, 0, 1);
    let w = worker_with_cpus(1);
    for (cell, good) in [(3u64, false), (0, false), (5, true)] {
        let mut t: Vec<Big> = vec![fe(cell)];
        for i in 0..7 { let v = add(t[i], t[i]); t.push(v); }
        let p = props(8, 1, vec![c.clone()], vec![bc(0, 0, fe(5))]);
        let r = ARPInstance::<Big, PerRegisterARP>::is_satisfied(&p, &vec![t], &w).is_ok();
        check(r == good, "verdict of the trace checker on a boundary value");
    }
''')
seed('byte-challenges-repeat','C12',[(TR,"        self.state.update(&value[..]);\n\n        Vec::from(&value[..])","        Vec::from(&value[..])")],
 "two successive requests for challenge bytes without a commitment between them","the challenges are equal",
 '''
    let mut t = Blake2sTranscript::<Big>::new();
    t.commit_bytes(b"statement");
    let a = t.get_challenge_bytes();
    let b = t.get_challenge_bytes();
    check(a != b, "two successive challenges are equal");
    let mut u = Blake2sTranscript::<Big>::new();
    u.commit_bytes(b"statement");
    check(u.get_challenge_bytes() == a && u.get_challenge_bytes() == b, "challenges are not reproducible");
''')
seed('two-leaf-position','C11',[(IO,"            if idx & 1usize == 0 {\n                hash","            if idx & 1usize == 0 && path.len() > 1 || path.len() == 1 && tree_index & 2 == 2 {\n                hash")],
 "a tree of two leaves","openings of the first leaf are rejected",
 '''
    for n in [2usize, 4, 8] {
        let v: Vec<Big> = (0..n as u64).map(|i| rnd(i)).collect();
        let t = <I as IOP<Big>>::create(&v);
        let root = t.get_root();
        for i in 0..n {
            let q = t.query(i, &v);
            check(<I as IOP<Big>>::verify_query(&q, &root), "an opening of a committed leaf is rejected");
            check(q.value() == v[i], "value of an opening");
            for j in 0..n { if j != i { check(!<I as IOP<Big>>::verify_query(&vh::query_from_parts(j, q.value(), q.path().to_vec()), &root), "an opening verifies at another position"); } }
        }
    }
''')
seed('second-zero-root','C10',[(P,"        let mut subterms = vec![vec![]; num_threads];","        let mut subterms: Vec<Vec<F>> = vec![vec![]; num_threads];"),(P,"                        if s[0].len() == 0 {\n","                        if s[0].len() == 0 || r.is_zero() && s[0][0].is_zero() {\n")],
 "zero twice among the roots of one chunk","the factors before the second one are missing in the product",
 '''
    let w = worker_with_cpus(1);
    for roots in [vec![1u64, 2, 3], vec![0, 5, 7], vec![4, 0, 9, 0], vec![6, 6, 6]] {
        let r: Vec<Big> = roots.iter().map(|x| fe(*x)).collect();
        let p = Polynomial::<Big, Coefficients>::from_roots(r.clone(), &w).unwrap();
        let mut want = vec![Big::one()];
        for x in r.iter() { let mut n = vec![Big::zero(); want.len() + 1]; for (i, c) in want.iter().enumerate() { n[i + 1] = add(n[i + 1], *c); n[i] = sub(n[i], mul(*c, *x)); } want = n; }
        want.resize(p.as_ref().len().max(want.len()), Big::zero());
        check(p.as_ref() == &want[..], "the product of linear factors");
    }
''')
seed('single-factor-coefficient','C15',[(A,"                    as_values.scale(&worker, poly.coeff);\n","                    if poly.terms.len() > 1 {\n                        as_values.scale(&worker, poly.coeff);\n                    }\n")],
 "a product term that has one factor only and a coefficient other than one","the composition polynomial leaves out the coefficient, so honest proofs are rejected",
 '''
    let mut c = Constraint::<Big>::default();
    c += uni(1, 0, 1, 1);
    c -= PolyvariateTerm::<Big>::from((fe::<Big>(3), uni(1, 0, 0, 1)));
    dense(&mut c, 0, 1);
    let mut t: Vec<Big> = vec![fe(5)];
    for i in 0..7 { let v = mul(t[i], fe(3)); t.push(v); }
    let p = props(8, 1, vec![c], vec![bc(0, 0, fe(5))]);
    let ok = match prove(&p, &vec![t], 4, 1) { Ok(pr) => verify(&p, 4, &pr) == Ok(true), Err(_) => false };
    check(ok, "an honest proof is not accepted");
''')
seed('scaled-blocks-by-column','C24',[(TL,"let diagonal_matrix_element_index = idx.0 / (submatrix.1).0;","let diagonal_matrix_element_index = idx.1 / (submatrix.1).0;")],
 "a block that is not square","an entry is scaled by the entry of another block, or is out of range",
 '''
    use vh::experiments::tensor_lde::*;
    for (rows, cols) in [(2usize, 2usize), (2, 3), (4, 2), (3, 5)] {
        let m: Vec<Big> = (0..(rows * cols) as u64).map(|i| rnd(i)).collect();
        let d: Vec<Big> = (0..4u64).map(|i| rnd(50 + i)).collect();
        for i in 0..4 * rows { for j in 0..4 * cols {
            let want = if i / rows == j / cols { mul(m[i % rows * cols + j % cols], d[i / rows]) } else { Big::zero() };
            let (m2, d2) = (m.clone(), d.clone());
            let r = std::panic::catch_unwind(move || query_matrix_over_diagonal(&(m2, (rows, cols)), &(d2, 4), (i, j)));
            check(matches!(r, Ok(v) if v == want), "entry of a matrix of scaled blocks");
        } }
    }
''')
