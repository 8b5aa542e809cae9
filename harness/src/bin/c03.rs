use ff::PrimeField;
use hodor::air::*;
use hodor::arp::InstanceProperties;
use hv::air::*;
use hv::proto::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SMut {
    BValue(u64, u64), BRow(u64, u64), BReg(u64, u64), BDrop(u64), BAdd(u64, u64),
    Coeff(u64, u64, u64), ConstTerm(u64, u64), Power(u64, u64), Step(u64, u64, u64), Start(u64), Span(u64),
    DropC(u64), DupC(u64), DropT(u64, u64), Degree(u64),
    InnerCoeff(u64, u64, u64), BNone(u64), Rows(u64), Regs, Lde(u64), Register(u64, u64, u64),
}

fn change<F: PrimeField>(p: &InstanceProperties<F>, lde: usize, m: &SMut) -> Option<(InstanceProperties<F>, usize)> {
    let mut q = p.clone();
    let mut l = lde;
    let n = q.num_rows;
    let nb = q.boundary_constraints.len() as u64;
    let nc = q.constraints.len() as u64;
    fn unis<F: PrimeField>(c: &mut Constraint<F>) -> Vec<&mut UnivariateTerm<F>> {
        c.terms.iter_mut().flat_map(|t| match t { ConstraintTerm::Univariate(u) => vec![u], ConstraintTerm::Polyvariate(p) => p.terms.iter_mut().collect() }).collect()
    }
    match m {
        SMut::BValue(i, d) => { if nb == 0 { return None; } let b = &mut q.boundary_constraints[(i % nb) as usize]; b.value = b.value.map(|v| add(v, &el_nonzero::<F>(*d))); }
        SMut::BRow(i, d) => { if nb == 0 { return None; } let b = &mut q.boundary_constraints[(i % nb) as usize]; b.at_row = (b.at_row + 1 + *d as usize % (n - 1)) % n; }
        SMut::BReg(i, d) => {
            if nb == 0 || q.num_registers < 2 { return None; }
            let b = &mut q.boundary_constraints[(i % nb) as usize];
            let r = match b.register { Register::Register(r) => r, _ => return None };
            b.register = Register::Register((r + 1 + *d as usize % (q.num_registers - 1)) % q.num_registers);
        }
        SMut::BDrop(i) => { if nb == 0 { return None; } q.boundary_constraints.remove((i % nb) as usize); }
        SMut::BAdd(r, v) => q.boundary_constraints.push(BoundaryConstraint { register: Register::Register(*r as usize % q.num_registers), at_row: (*r / 16) as usize % n, value: Some(el(*v)) }),
        SMut::Coeff(i, t, d) => {
            let c = &mut q.constraints[(i % nc) as usize];
            let k = c.terms.len();
            if k == 0 { return None; }
            match &mut c.terms[*t as usize % k] {
                ConstraintTerm::Univariate(u) => u.coeff.add_assign(&el_nonzero(*d)),
                ConstraintTerm::Polyvariate(p) => p.coeff.add_assign(&el_nonzero(*d)),
            }
        }
        SMut::InnerCoeff(i, t, d) => {
            let mut us = unis(&mut q.constraints[(i % nc) as usize]);
            let k = us.len();
            if k == 0 { return None; }
            us[*t as usize % k].coeff.add_assign(&el_nonzero(*d));
        }
        SMut::BNone(i) => { if nb == 0 { return None; } q.boundary_constraints[(i % nb) as usize].value = None; }
        SMut::ConstTerm(i, d) => q.constraints[(i % nc) as usize].constant_term.add_assign(&el_nonzero(*d)),
        SMut::Power(i, t) => {
            let c = &mut q.constraints[(i % nc) as usize];
            let mut us = unis(c);
            let k = us.len();
            if k == 0 { return None; }
            let u = &mut us[*t as usize % k];
            u.power = if u.power > 1 && t & 256 == 0 { u.power - 1 } else { u.power + 1 };
        }
        SMut::Step(i, t, d) => {
            let c = &mut q.constraints[(i % nc) as usize];
            let mut us = unis(c);
            let k = us.len();
            if k == 0 || n < 2 { return None; }
            let u = &mut us[*t as usize % k];
            if let StepDifference::Steps(s) = u.steps_difference { u.steps_difference = StepDifference::Steps((s + 1 + *d as usize % (n - 1)) % n); }
        }
        SMut::Register(i, t, d) => {
            let r = q.num_registers;
            let c = &mut q.constraints[(i % nc) as usize];
            let mut us = unis(c);
            let k = us.len();
            if k == 0 || r < 2 { return None; }
            let u = &mut us[*t as usize % k];
            if let Register::Register(x) = u.register { u.register = Register::Register((x + 1 + *d as usize % (r - 1)) % r); }
        }
        SMut::Start(i) => {
            let c = &mut q.constraints[(i % nc) as usize];
            let (s, sp) = dense_of(c);
            let s2 = if s > 0 && i & 256 == 0 { s - 1 } else if s + 1 + sp <= n { s + 1 } else { return None };
            c.density = ConstraintDensity::Dense(DenseConstraint::new(s2, sp));
        }
        SMut::Span(i) => {
            let c = &mut q.constraints[(i % nc) as usize];
            let (s, sp) = dense_of(c);
            let sp2 = if sp > 1 && i & 256 == 0 { sp - 1 } else if s + 1 + sp <= n { sp + 1 } else { return None };
            c.density = ConstraintDensity::Dense(DenseConstraint::new(s, sp2));
        }
        SMut::DropC(i) => { if nc < 2 { return None; } q.constraints.remove((i % nc) as usize); }
        SMut::DupC(i) => { let c = q.constraints[(i % nc) as usize].clone(); q.constraints.push(c); }
        SMut::DropT(i, t) => { let c = &mut q.constraints[(i % nc) as usize]; let k = c.terms.len(); if k < 2 { return None; } c.terms.remove(*t as usize % k); }
        SMut::Degree(i) => q.constraints[(i % nc) as usize].degree += 1 + (i / 256) % 2,
        SMut::Rows(d) => { let m = if d & 1 == 0 { n + 1 + (d / 2) as usize % 3 } else { n - 1 }; if q.constraints.iter().any(|c| { let (s, sp) = dense_of(c); s + sp > m }) || q.boundary_constraints.iter().any(|b| b.at_row >= m) { return None; } q.num_rows = m; }
        SMut::Regs => q.num_registers += 1,
        SMut::Lde(d) => { l = if d & 1 == 0 && l > 1 { l / 2 } else { l * 2 }; }
    }
    Some((q, l))
}

fn smut() -> BoxedStrategy<SMut> {
    let s = any::<u64>;
    prop_oneof![
        (s(), s()).prop_map(|(a, b)| SMut::BValue(a, b)), (s(), s()).prop_map(|(a, b)| SMut::BRow(a, b)), (s(), s()).prop_map(|(a, b)| SMut::BReg(a, b)),
        s().prop_map(SMut::BDrop), (s(), s()).prop_map(|(a, b)| SMut::BAdd(a, b)),
        (s(), s(), s()).prop_map(|(a, b, c)| SMut::Coeff(a, b, c)), (s(), s()).prop_map(|(a, b)| SMut::ConstTerm(a, b)), (s(), s()).prop_map(|(a, b)| SMut::Power(a, b)),
        (s(), s(), s()).prop_map(|(a, b, c)| SMut::Step(a, b, c)), s().prop_map(SMut::Start), s().prop_map(SMut::Span), s().prop_map(SMut::DropC), s().prop_map(SMut::DupC),
        (s(), s()).prop_map(|(a, b)| SMut::DropT(a, b)), s().prop_map(SMut::Degree), s().prop_map(SMut::Rows), Just(SMut::Regs), s().prop_map(SMut::Lde),
        (s(), s(), s()).prop_map(|(a, b, c)| SMut::Register(a, b, c)), (s(), s(), s()).prop_map(|(a, b, c)| SMut::InnerCoeff(a, b, c)), s().prop_map(SMut::BNone),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { p: PCfg, muts: Vec<Vec<PMut>>, st: Vec<SMut> }

fn check<F: PrimeField>(c: &Case) -> Res {
    let i = c.p.inst.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    with_cpus(1, || {
        let p = guarded(|| lib_prove(&i.props, &i.trace, lde, out))?;
        let r = lib_verify(&i.props, lde, &p);
        ensure!(accepted(&r), "honest proof is not accepted: {:?}", r);
        let mut o = Out::trivial();
        for ms in c.muts.iter() {
            let mut q = p.clone();
            for m in ms { apply_proof(&mut q, m); }
            if q == p { continue; }
            let r = lib_verify(&i.props, lde, &q);
            ensure!(!accepted(&r), "altered proof is accepted: {:?}", ms);
            o.nontrivial = true;
            o.labels.push(format!("mutation rejected by {}", match r { Ok(_) => "verdict", Err(m) if m.starts_with("panic") => "panic", _ => "error" }));
        }
        for s in c.st.iter() {
            let (props, l) = match change(&i.props, lde, s) { Some(x) => x, None => continue };
            let r = lib_verify(&props, l, &p);
            if accepted(&r) {
                // quotients of constant registers are zero whatever the statement: only positions of the queries, few on tiny domains, tell
                let here = (p.f_queries[0].index, p.g_query.index);
                let constant = p.fri1.finals.iter().all(|x| x.is_zero()) && p.fri2.finals.iter().all(|x| x.is_zero());
                ensure!(constant && p.positions(&props, l) == here, "proof is accepted for a different statement: {:?}", s);
                o.labels.push("same positions by chance, constant registers".into());
                continue;
            }
            o.nontrivial = true;
            o.labels.push(format!("statement {}", format!("{:?}", s).split('(').next().unwrap()));
        }
        Ok(o)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mix { p: PCfg, other: u64, same_statement: bool, masks: Vec<u16> }

/// parts of two accepted proofs put together
fn mix<F: PrimeField>(c: &Mix) -> Res {
    let mut sa = c.p.inst.clone();
    if c.same_statement { sa.boundary.clear(); }
    let mut sb = sa.clone();
    sb.seed = c.other;
    let (a, b) = (sa.build::<F>(), sb.build::<F>());
    let (lde, out) = c.p.lde_out(&a.props);
    with_cpus(1, || {
        let pa = guarded(|| lib_prove(&a.props, &a.trace, lde, out))?;
        let pb = guarded(|| lib_prove(&b.props, &b.trace, lde, out))?;
        ensure!(accepted(&lib_verify(&a.props, lde, &pa)) && accepted(&lib_verify(&b.props, lde, &pb)), "honest proof is not accepted");
        let mut o = Out::trivial();
        let values = |p: &InstanceProperties<F>| p.boundary_constraints.iter().map(|b| b.value).collect::<Vec<_>>();
        let same = values(&a.props) == values(&b.props);
        for m in c.masks.iter() {
            let t = |k: u16| m >> k & 1 == 1;
            let mut q = pa.clone();
            if t(0) { q.f_at_z_m = pb.f_at_z_m.clone(); }
            if t(1) { q.f_roots = pb.f_roots.clone(); }
            if t(2) { q.g_root = pb.g_root; }
            if t(3) { q.f_queries = pb.f_queries.clone(); }
            if t(4) { q.g_query = pb.g_query.clone(); }
            if t(5) { q.h1_roots = pb.h1_roots.clone(); }
            if t(6) { q.h2_roots = pb.h2_roots.clone(); }
            if t(7) { q.fri1 = pb.fri1.clone(); }
            if t(8) { q.fri2 = pb.fri2.clone(); }
            if t(9) { std::mem::swap(&mut q.fri1, &mut q.fri2); std::mem::swap(&mut q.h1_roots, &mut q.h2_roots); }
            for (props, own) in [(&a.props, &pa), (&b.props, &pb)] {
                if q == *own { continue; }
                // (a proof of another witness of the same statement is a proof of it)
                if same && (q == pa || q == pb) { continue; }
                let r = lib_verify(props, lde, &q);
                if accepted(&r) && (q == pa || q == pb) {
                    // see `check`: nothing but the position tells statements of constant registers apart
                    let constant = q.fri1.finals.iter().all(|x| x.is_zero()) && q.fri2.finals.iter().all(|x| x.is_zero());
                    ensure!(constant && q.positions(props, lde) == (q.f_queries[0].index, q.g_query.index), "proof is accepted for another statement");
                    continue;
                }
                ensure!(!accepted(&r), "a mixture of two proofs is accepted: parts {:b}", m);
                o.nontrivial = true;
            }
        }
        Ok(o.lif(same, "two witnesses of one statement"))
    })
}

/// every element of a proof altered one after another
fn exhaustive<F: PrimeField>(c: &(PCfg, u64)) -> Res {
    let i = c.0.inst.build::<F>();
    let (lde, out) = c.0.lde_out(&i.props);
    with_cpus(1, || {
        let p = guarded(|| lib_prove(&i.props, &i.trace, lde, out))?;
        let how = c.1;
        let mut all: Vec<PMut> = vec![];
        use hv::fri_ref::{FriMut, Op, QMut};
        let ops = |n: usize| -> Vec<Op> {
            let mut v = vec![Op::Append { how }, Op::Clear];
            for s in 0..n as u64 { v.push(Op::Alter { sel: s, how }); v.push(Op::Drop { sel: s }); v.push(Op::Dup { sel: s }); v.push(Op::Swap { a: s, b: how }); }
            v
        };
        let qm = |n: usize| -> Vec<QMut> { let mut v: Vec<QMut> = ops(n).into_iter().map(QMut::Path).collect(); for k in 0..10 { v.push(QMut::Index(how / 16 * 16 + k)); } v.push(QMut::Value(how)); v };
        all.extend(ops(p.f_at_z_m.len()).into_iter().map(PMut::FAtZ));
        all.extend(ops(p.f_roots.len()).into_iter().map(PMut::FRoots));
        all.push(PMut::GRoot(how));
        all.extend(ops(p.f_queries.len()).into_iter().map(PMut::FQueries));
        for (k, q) in p.f_queries.iter().enumerate() { all.extend(qm(q.path.len()).into_iter().map(|m| PMut::FQuery { sel: k as u64, m })); }
        all.extend(qm(p.g_query.path.len()).into_iter().map(PMut::GQuery));
        all.extend(ops(p.h1_roots.len()).into_iter().map(PMut::H1Roots));
        all.extend(ops(p.h2_roots.len()).into_iter().map(PMut::H2Roots));
        for second in [false, true] {
            let f = if second { &p.fri2 } else { &p.fri1 };
            let mut v: Vec<FriMut> = vec![];
            v.extend(ops(f.queries.len()).into_iter().map(FriMut::Queries));
            v.extend(ops(f.roots.len()).into_iter().map(FriMut::Roots));
            v.extend(ops(f.finals.len()).into_iter().map(FriMut::Finals));
            for (k, q) in f.queries.iter().enumerate() { v.extend(qm(q.path.len()).into_iter().map(|m| FriMut::Query { sel: k as u64, m })); }
            for k in 0..16 { v.push(FriMut::Init(k)); v.push(FriMut::Out(k)); v.push(FriMut::Lde(k)); v.push(FriMut::InitLde(k * 13)); v.push(FriMut::InitOut(k * 13)); }
            for k in 0..4 { v.push(FriMut::FinalsZeroes(k)); }
            all.extend(v.into_iter().map(|m| PMut::Fri { second, m }));
            all.extend(ops(f.roots.len()).into_iter().map(|op| PMut::BothRoots { second, op }));
        }
        let mut n = 0;
        for m in all {
            let mut q = p.clone();
            apply_proof(&mut q, &m);
            if q == p { continue; }
            n += 1;
            ensure!(!accepted(&lib_verify(&i.props, lde, &q)), "altered proof is accepted: {:?}", m);
        }
        Ok(Out::when(n > 0).l(format!("mutations ~{}", n / 50 * 50)))
    })
}

fn main() {
    let c = Ctx::new("C03", "at least one altered proof differing from the accepted one, or one changed statement, was tried");
    let cfg = InstCfg { max_rows: 24, max_regs: 3, max_degree: 4, max_boundary: 3 };
    c.sub("mutations", c.n(7500, 480000), move || (pcfg(cfg, 3, 2), vec(vec(pmut(), 1..4), 1..20), vec(smut(), 0..6)).prop_map(|(p, muts, st)| Case { p, muts, st }).boxed(),
        |x| match x.p.field { 0 => check::<Gold>(x), _ => check::<F252>(x) });
    let wide = InstCfg { max_rows: 40, max_regs: 10, max_degree: 6, max_boundary: 8 };
    c.sub("mutations of larger proofs", c.n(450, 48000), move || (pcfg(wide, 4, 2), vec(vec(pmut(), 1..4), 1..40), vec(smut(), 0..6)).prop_map(|(p, muts, st)| Case { p, muts, st }).boxed(),
        |x| match x.p.field { 0 => check::<Gold>(x), _ => check::<F252>(x) });
    c.sub("mutations in other fields", c.n(1500, 160000), move || (pcfg(cfg, 3, 3), vec(vec(pmut(), 1..4), 1..20), vec(smut(), 0..6)).prop_map(|(p, muts, st)| Case { p, muts, st }).boxed(),
        |x| by_field!(x.p.field, check, x; F63, F65, F255));
    c.sub("mixtures of two proofs", c.n(2000, 160000), move || (pcfg(cfg, 3, 2), any::<u64>(), any::<bool>(), vec(any::<u16>(), 1..12)).prop_map(|(p, other, same_statement, masks)| Mix { p, other, same_statement, masks }).boxed(),
        |x| match x.p.field { 0 => mix::<Gold>(x), _ => mix::<F252>(x) });
    let tiny = InstCfg { max_rows: 10, max_regs: 2, max_degree: 3, max_boundary: 2 };
    c.sub("every element", c.n(450, 24000), move || (pcfg(tiny, 2, 2), any::<u64>()).boxed(), |x| match x.0.field { 0 => exhaustive::<Gold>(x), _ => exhaustive::<F252>(x) });
    c.finish();
}
