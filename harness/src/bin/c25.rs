use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::arp::*;
use hodor::verif_hooks::{test_trace_system, Worker};
use hv::air::*;
use hv::proto::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Alloc(u8), Step(usize), Constraint { terms: Vec<(Vec<(u64, usize, u64)>, u64)>, konst: u64, with: bool }, Boundary { reg: u64, row: u64, wrong: bool, unknown: bool }, Read { reg: u64, step: usize } }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ops: Vec<Op>, values: u64, steps: usize, satisfy: bool, cell: (u64, u64, u64), prove: bool, field: u8 }

/// column of a register in the table of the test, from its kind and number
fn cell<F: PrimeField>(cols: &[(Register, Vec<F>)], r: Register, row: usize) -> F { cols.iter().find(|c| c.0 == r).expect("register").1[row] }

fn eval<F: PrimeField>(c: &Constraint<F>, cols: &[(Register, Vec<F>)], row: usize) -> F {
    let uni = |t: &UnivariateTerm<F>| { let s = match t.steps_difference { StepDifference::Steps(s) => s, _ => panic!("mask") }; mul(t.coeff, &hv::refmath::powu(&cell(cols, t.register, row + s), t.power)) };
    let mut v = c.constant_term;
    for t in c.terms.iter() {
        match t {
            ConstraintTerm::Univariate(t) => v.add_assign(&uni(t)),
            ConstraintTerm::Polyvariate(p) => { let mut x = p.coeff; for t in p.terms.iter() { x.mul_assign(&uni(t)); } v.add_assign(&x) }
        }
    }
    v
}

fn run<F: PrimeField>(c: &Case) -> Res {
    let mut t = test_trace_system::<F>();
    let mut regs: Vec<Register> = vec![];
    let mut cols: Vec<(Register, Vec<F>)> = vec![];
    let mut constraints: Vec<Constraint<F>> = vec![];
    let mut bounds: Vec<(Register, usize, Option<F>)> = vec![];
    let mut steps = 0usize;
    // long enough for everything: the number of rows is fixed first
    let total: usize = 1 + c.steps + c.ops.iter().map(|o| if let Op::Step(n) = o { *n } else { 0 }).sum::<usize>();
    let mut kinds = [0usize; 4];
    for o in c.ops.iter() {
        match o {
            Op::Alloc(k) => {
                let r = match k % 4 {
                    0 => t.allocate_register(format!("r{}", kinds[0])),
                    1 => t.allocate_aux_register(),
                    2 => t.allocate_constant_register(format!("c{}", kinds[2]), |_| Ok((F::one(), false))),
                    // there is no call to allocate a program counter, but the instance allows them
                    _ => { t.pc_registers.push(format!("pc{}", kinds[3])); if kinds[3] > 0 { t.pc_registers_witness.push(vec![]); } Ok(Register::ProgramCounter(kinds[3])) }
                }.map_err(|_| "register refused")?;
                kinds[*k as usize % 4] += 1;
                ensure!(regs.iter().all(|x| *x != r), "the register {:?} is given twice", r);
                let col: Vec<F> = (0..total).map(|i| el::<F>(mix(c.values ^ mix((regs.len() * 1000 + i) as u64)))).collect();
                match r {
                    Register::Register(i) => { ensure!(k % 4 == 0, "kind"); t.registers_witness[i] = col.clone(); }
                    Register::Aux(i) => { ensure!(k % 4 == 1, "kind"); t.aux_registers_witness[i] = col.clone(); }
                    Register::Constant(i) => { ensure!(k % 4 == 2, "kind"); t.constant_registers_witness[i] = col.clone(); }
                    Register::ProgramCounter(i) => { ensure!(k % 4 == 3, "kind"); t.pc_registers_witness[i] = col.clone(); }
                }
                regs.push(r);
                cols.push((r, col));
            }
            Op::Step(n) => {
                let r = t.step(*n);
                ensure!(r.is_ok() == (*n > 0), "a step of {} rows is {}", n, if r.is_ok() { "taken" } else { "refused" });
                steps += n;
                ensure!(t.get_step_number().ok() == Some(steps), "step number");
            }
            Op::Constraint { terms, konst, with } if !regs.is_empty() => {
                let mut k = Constraint::<F>::default();
                let mut degree = 0;
                for (factors, co) in terms.iter() {
                    let unis: Vec<UnivariateTerm<F>> = factors.iter().map(|(r, s, p)| UnivariateTerm { coeff: F::one(), register: regs[*r as usize % regs.len()], steps_difference: StepDifference::Steps(s % 2), power: 1 + p % 2 }).collect();
                    if unis.len() == 1 { k += UnivariateTerm { coeff: el_nonzero(*co), ..unis[0] }; degree = degree.max(unis[0].power); }
                    else { let d: u64 = unis.iter().map(|u| u.power).sum(); degree = degree.max(d); k += PolyvariateTerm { coeff: el_nonzero(*co), terms: unis, total_degree: d }; }
                }
                k += &el::<F>(*konst);
                k.density = ConstraintDensity::Dense(DenseConstraint::new(0, 1));
                k.degree = degree;
                constraints.push(k.clone());
                let r = if *with { t.add_constraint_with_witness(k, |_| Ok(vec![])) } else { t.add_constraint(k, |_| Ok(vec![])) };
                ensure!(r.is_ok(), "constraint refused");
            }
            Op::Boundary { reg, row, wrong, unknown } if !regs.is_empty() => {
                let r = regs[*reg as usize % regs.len()];
                let row = *row as usize % total;
                let mut v = cell(&cols, r, row);
                if *wrong && !c.satisfy { v.add_assign(&F::one()); }
                let v = if *unknown && !c.satisfy { None } else { Some(v) };
                ensure!(t.add_boundary_constraint("b".into(), r, row, v).is_ok(), "boundary refused");
                bounds.push((r, row, v));
            }
            Op::Read { reg, step } if !regs.is_empty() => {
                let r = regs[*reg as usize % regs.len()];
                if let Register::Register(_) = r {
                    let s = step % (total + 2);
                    let v = t.get_register(s, r);
                    ensure!(v.is_ok() == (s < total), "reading row {} of {}", s, total);
                    if let Ok(v) = v { ensure!(v == cell(&cols, r, s), "value read at row {}", s); }
                }
                ensure!(t.get_register(0, Register::Register(kinds[0] + 1 + step % 5)).is_err(), "a register never given is read");
            }
            _ => {}
        }
    }
    if total - 1 > steps { ensure!(t.step(total - 1 - steps).is_ok(), "step"); }
    if regs.is_empty() { return Ok(Out::trivial()); }
    // a fresh register makes any constraint hold: c - x at the same row
    if c.satisfy {
        for k in constraints.iter_mut() {
            let r = t.allocate_aux_register().map_err(|_| "register refused")?;
            ensure!(regs.iter().all(|x| *x != r), "the register {:?} is given twice", r);
            let i = match r { Register::Aux(i) => i, _ => return Err("kind".into()) };
            let col: Vec<F> = (0..total).map(|row| if row + 1 < total { eval(k, &cols, row) } else { F::zero() }).collect();
            t.aux_registers_witness[i] = col.clone();
            cols.push((r, col));
            regs.push(r);
            *k -= UnivariateTerm { coeff: F::one(), register: r, steps_difference: StepDifference::Steps(0), power: 1 };
        }
        t.constraints = constraints.clone();
    }
    let (w, p) = guarded(|| Ok(t.into_arp()))?;
    let w = w.ok_or("no witness")?;
    ensure!(p.num_rows == total, "{} rows instead of {}", p.num_rows, total);
    ensure!(w.len() == regs.len() && p.num_registers == regs.len(), "{} columns and {} registers for {} registers", w.len(), p.num_registers, regs.len());
    // the same columns
    let mut left: Vec<&Vec<F>> = w.iter().collect();
    for (r, col) in cols.iter() { let i = left.iter().position(|x| *x == col).ok_or_else(|| format!("the column of {:?} is lost", r))?; left.remove(i); }
    // every constraint has the same value everywhere, every boundary constraint concerns the same column
    ensure!(p.constraints.len() == constraints.len() && p.boundary_constraints.len() == bounds.len(), "number of constraints");
    for (i, (a, b)) in constraints.iter().zip(p.constraints.iter()).enumerate() {
        ensure!(a.degree == b.degree && a.density == b.density, "degree or range of constraint {}", i);
        for row in 0..total - 1 {
            let got = eval_constraint(b, &w, row).ok_or("constraint refers to no column")?;
            ensure!(got == eval(a, &cols, row), "constraint {} has another value at row {}", i, row);
        }
    }
    for (i, ((r, row, v), b)) in bounds.iter().zip(p.boundary_constraints.iter()).enumerate() {
        let k = match b.register { Register::Register(k) => k, _ => return Err("kind of boundary register".into()) };
        ensure!(b.at_row == *row && b.value == *v, "boundary constraint {}", i);
        ensure!(k < w.len() && w[k] == cols.iter().find(|c| c.0 == *r).unwrap().1, "boundary constraint {} concerns another register", i);
    }
    let worker = Worker::new();
    if bounds.iter().all(|b| b.2.is_some()) {
        let want = violated(&p, &w).is_none();
        let got = guarded(|| Ok(ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &worker).is_ok()))?;
        ensure!(got == want, "the checker {} the trace", if got { "takes" } else { "refuses" });
        if c.satisfy { ensure!(got, "the trace made to satisfy everything is refused"); }
    }
    let mut proved = false;
    if c.prove && c.satisfy && !constraints.is_empty() && total > 1 {
        let k = lib_prove(&p, &w, 16, 1)?;
        ensure!(accepted(&lib_verify(&p, 16, &k)), "the proof is not accepted");
        proved = true;
    }
    let used: std::collections::HashSet<_> = cols.iter().map(|c| std::mem::discriminant(&c.0)).collect();
    Ok(Out::when(used.len() > 1 && !constraints.is_empty()).l(format!("{} kinds", used.len())).lif(proved, "proved").lif(kinds[3] > 0, "program counter").lif(!bounds.is_empty(), "boundary constraints"))
}

fn main() {
    let mut c = Ctx::new("C25", "registers of at least two kinds and at least one constraint");
    c.assume("the columns are filled in by the user (the system calculates those of plain registers only)");
    let s = |prove: bool| {
        let u = any::<u64>;
        let op = prop_oneof![5 => any::<u8>().prop_map(Op::Alloc), 1 => (0usize..4).prop_map(Op::Step), 3 => (vec((vec((u(), any::<usize>(), u()), 1..3), u()), 1..4), eseed(), any::<bool>()).prop_map(|(terms, konst, with)| Op::Constraint { terms, konst, with }),
            2 => (u(), u(), any::<bool>(), proptest::bool::weighted(0.2)).prop_map(|(reg, row, wrong, unknown)| Op::Boundary { reg, row, wrong, unknown }), 1 => (u(), any::<usize>()).prop_map(|(reg, step)| Op::Read { reg, step })].boxed();
        (prop_oneof![12 => vec(op.clone(), 1..20), 1 => vec(op, 20..60)], u(), 1usize..8, if prove { Just(true).boxed() } else { any::<bool>().boxed() }, (u(), u(), u()), any::<u8>()).prop_map(move |(ops, values, steps, satisfy, cell, field)| Case { ops, values, steps, satisfy, cell, prove, field }).boxed()
    };
    c.sub("systems", c.n(200000, 20000000), || s(false), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby, F128));
    c.sub("proofs", c.n(400, 40000), || s(true), |x| with_cpus(1, || by_field!(x.field, run, x; Gold, F252, F255, F128)));
    c.finish();
}
