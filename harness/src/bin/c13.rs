use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::arp::*;
use hv::air::*;
use hv::proto::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    /// trace as planted
    Same,
    /// some cells changed
    Cells(Vec<Break>),
    /// every cell of the trace changed, one after another
    EveryCell(u64),
    /// exactly one row of one constraint
    OneRow(u64, u64),
    /// cells of a few small values
    Random(u64, u64),
    /// a boundary value changed
    Boundary(usize, u64),
    /// boundary value unknown
    NoBoundary(usize, u64),
    /// another range of rows for a constraint
    Range(usize, usize, usize),
    /// a step more in a term, that may lead outside of the trace
    Step(u64, usize),
    /// coefficient of a term, constant or power changed
    Term(u64, u64, u8),
    /// rows rotated
    Rotate(usize),
    /// columns exchanged
    SwapColumns(usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { inst: InstSpec, how: Vec<How>, field: u8 }

fn uni_mut<'a, F: PrimeField>(p: &'a mut InstanceProperties<F>, sel: u64) -> Option<&'a mut UnivariateTerm<F>> {
    let mut v: Vec<&mut UnivariateTerm<F>> = vec![];
    for c in p.constraints.iter_mut() {
        for t in c.terms.iter_mut() {
            match t { ConstraintTerm::Univariate(u) => v.push(u), ConstraintTerm::Polyvariate(pl) => for u in pl.terms.iter_mut() { v.push(u) } }
        }
    }
    let n = v.len();
    if n == 0 { None } else { v.into_iter().nth(sel as usize % n) }
}

fn agree<F: PrimeField>(p: &InstanceProperties<F>, t: &Vec<Vec<F>>, o: &mut Out, cpus: usize) -> Result<(), String> {
    let why = violated(p, t);
    let w = hodor::verif_hooks::worker_with_cpus(cpus);
    let r = guarded(|| Ok(ARPInstance::<F, PerRegisterARP>::is_satisfied(p, t, &w).map_err(|e| format!("{}", e))))?;
    match (why, r) {
        (None, Ok(())) => o.labels.push("satisfied".into()),
        (Some(_), Err(_)) => o.labels.push("violated".into()),
        (Some(w), Ok(())) => return Err(format!("trace of {} rows violating {} is reported as satisfying", t[0].len(), w)),
        (None, Err(e)) => return Err(format!("satisfying trace is refused: {}", e)),
    }
    Ok(())
}

fn run<F: PrimeField>(c: &Case) -> Res {
    let i = c.inst.build::<F>();
    let (mut p, mut t) = (i.props.clone(), i.trace.clone());
    let mut o = Out::trivial();
    agree(&p, &t, &mut o, 1)?;
    for h in c.how.iter() {
        let n = p.num_rows;
        match h {
            How::Same => { agree(&p, &t, &mut o, 1)?; agree(&p, &t, &mut o, 3)?; }
            How::Cells(b) => t = break_trace(&t, b),
            How::EveryCell(d) => {
                let d = el_nonzero::<F>(*d);
                let every = if t.len() * n > 200 { t.len() * n / 40 } else { 1 };
                for r in 0..t.len() { for row in 0..n { if (r * n + row) % every != 0 { continue; } let old = t[r][row]; t[r][row].add_assign(&d); agree(&p, &t, &mut o, 1)?; t[r][row] = old; } }
            }
            How::OneRow(pick, d) => {
                let (g, at) = c.inst.build_glitch::<F>(*pick, *d);
                if let Some((ci, row)) = at {
                    let w = guarded(|| Ok(ARPInstance::<F, PerRegisterARP>::is_satisfied(&g.props, &g.trace, &hodor::verif_hooks::worker_with_cpus(1)).is_ok()))?;
                    ensure!(!w, "trace violating only constraint {} at row {} of {} is reported as satisfying", ci, row, n);
                    agree(&g.props, &g.trace, &mut o, 1)?;
                }
            }
            How::Random(s, k) => { for (r, col) in t.iter_mut().enumerate() { for (j, x) in col.iter_mut().enumerate() { *x = el(mix(s ^ mix((r * 1000 + j) as u64)) % (2 + k % 6)); } } }
            How::Boundary(b, d) => { let l = p.boundary_constraints.len(); if l > 0 { let x = &mut p.boundary_constraints[b % l]; x.value = x.value.map(|v| add(v, &el_nonzero(*d))); } }
            How::NoBoundary(b, d) => { let l = p.boundary_constraints.len(); if l > 0 { let k = b % l; p.boundary_constraints[k].value = None;
                // then the cell may be anything that the constraints allow
                let (reg, row) = (match p.boundary_constraints[k].register { Register::Register(r) => r, _ => 0 }, p.boundary_constraints[k].at_row);
                agree(&p, &t, &mut o, 1)?;
                t[reg][row].add_assign(&el_nonzero(*d)); } }
            How::Range(k, a, b) => { let l = p.constraints.len(); let span = 1 + b % n; let start = a % (n - span + 2); p.constraints[k % l].density = ConstraintDensity::Dense(DenseConstraint::new(start, span)); }
            How::Step(s, by) => { if let Some(u) = uni_mut(&mut p, *s) { u.steps_difference = StepDifference::Steps(by % (n + 2)); } }
            How::Term(s, d, what) => match what % 3 {
                0 => if let Some(u) = uni_mut(&mut p, *s) { u.coeff.add_assign(&el_nonzero(*d)); },
                1 => if let Some(u) = uni_mut(&mut p, *s) { u.power = 1 + d % 5; },
                _ => { let l = p.constraints.len(); p.constraints[*s as usize % l].constant_term.add_assign(&el_nonzero(*d)); }
            },
            How::Rotate(by) => for col in t.iter_mut() { let n = col.len(); col.rotate_left(by % n) },
            How::SwapColumns(a, b) => { let l = t.len(); t.swap(a % l, b % l) }
        }
        agree(&p, &t, &mut o, 1)?;
    }
    o.nontrivial = o.labels.iter().any(|l| l == "violated");
    o.labels.sort();
    o.labels.dedup();
    Ok(o)
}

fn how() -> BoxedStrategy<How> {
    let s = any::<u64>;
    let u = any::<usize>;
    prop_oneof![
        1 => Just(How::Same), 4 => breaks().prop_map(How::Cells), 2 => eseed_nz().prop_map(How::EveryCell), 4 => (s(), eseed_nz()).prop_map(|(a, b)| How::OneRow(a, b)), 2 => (s(), s()).prop_map(|(a, b)| How::Random(a, b)),
        2 => (u(), eseed_nz()).prop_map(|(a, b)| How::Boundary(a, b)), 2 => (u(), eseed_nz()).prop_map(|(a, b)| How::NoBoundary(a, b)), 2 => (u(), u(), u()).prop_map(|(a, b, c)| How::Range(a, b, c)),
        1 => (s(), u()).prop_map(|(a, b)| How::Step(a, b)), 1 => (s(), eseed_nz(), any::<u8>()).prop_map(|(a, b, c)| How::Term(a, b, c)), 1 => u().prop_map(How::Rotate), 1 => (u(), u()).prop_map(|(a, b)| How::SwapColumns(a, b)),
    ].boxed()
}

fn main() {
    let mut c = Ctx::new("C13", "at least one of the traces tried violates its instance");
    c.assume("traces are rectangular with a column for every register, spans do not exceed the number of rows, boundary constraints are at rows of the trace");
    let cfg = InstCfg { max_rows: 40, max_regs: 5, max_degree: 6, max_boundary: 6 };
    c.sub("instances", c.n(90000, 12000000), move || (inst(cfg), vec(how(), 1..5), any::<u8>()).prop_map(|(inst, how, field)| Case { inst, how, field }).boxed(),
        |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, F64));
    let large = InstCfg { max_rows: 500, max_regs: 14, max_degree: 20, max_boundary: 14 };
    c.sub("large instances", c.n(1800, 240000), move || (inst(large), vec(how(), 1..4), any::<u8>()).prop_map(|(inst, how, field)| Case { inst, how, field }).boxed(),
        |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, F64));
    c.finish();
}
