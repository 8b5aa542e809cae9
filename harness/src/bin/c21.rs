use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::arp::*;
use hodor::verif_hooks::experiments::{CubicVDF, VDF};
use hodor::verif_hooks::{fibonacci_instance, Worker};
use hv::air::*;
use hv::proto::*;
use hv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { kind: u8, c0: u64, c1: u64, ops: usize, at: usize, cells: Vec<(u8, usize, u64)>, claim: (usize, u64), follow: bool, cpus: usize, field: u8, prove: bool }

/// one step of the computation in F[u]/(u^2 + 1), written out from the definition
fn mul2<F: PrimeField>(a: (F, F), b: (F, F)) -> (F, F) { (sub(mul(a.0, &b.0), &mul(a.1, &b.1)), add(mul(a.0, &b.1), &mul(a.1, &b.0))) }

/// the columns of the computation from a start
fn native<F: PrimeField>(kind: u8, s: (F, F), ops: usize) -> Vec<Vec<F>> {
    let mut rows = vec![s];
    for _ in 0..ops {
        let v = *rows.last().unwrap();
        rows.push(match kind { 0 => mul2(v, v), 1 => mul2(mul2(v, v), v), _ => (v.1, add(v.0, &v.1)) });
    }
    let mut t = vec![rows.iter().map(|r| r.0).collect(), rows.iter().map(|r| r.1).collect::<Vec<F>>()];
    if kind == 1 {
        t.push(rows.iter().map(|r| mul2(*r, *r).0).collect());
        t.push(rows.iter().map(|r| mul2(*r, *r).1).collect());
    }
    t
}

fn run<F: PrimeField>(c: &Case) -> Res { with_cpus(c.cpus, || run_::<F>(c)) }

fn run_<F: PrimeField>(c: &Case) -> Res {
    let kind = c.kind % 3;
    let name = ["quadratic", "cubic", "Fibonacci"][kind as usize];
    let s = if kind == 2 { (F::one(), F::one()) } else { (el::<F>(c.c0), el::<F>(c.c1)) };
    let want = native(kind, s, c.ops);
    let at = if kind == 2 { c.at % (c.ops + 1) } else { c.ops };
    // the value of the Fibonacci sequence requested by the user: the right one when it fits 64 bits
    let mut fib: Option<u64> = None;
    if kind == 2 { let (mut a, mut b) = (1u64, 1u64); let mut fits = true; for _ in 0..at { match a.checked_add(b) { Some(x) => { a = b; b = x; } None => { fits = false; break } } } if fits && F::char().as_ref()[1..].iter().any(|x| *x != 0) || fits && b < F::char().as_ref()[0] { fib = Some(b); } }
    let (w, props) = guarded(|| Ok(match kind {
        0 => VDF { start_c0: s.0, start_c1: s.1, num_operations: c.ops }.into_arp(),
        1 => CubicVDF { start_c0: s.0, start_c1: s.1, num_operations: c.ops }.into_arp(),
        _ => fibonacci_instance::<F>(fib, at, c.ops),
    }))?;
    let w = w.ok_or("no witness")?;
    ensure!(w == want, "{}: the trace is not that of the native computation ({} steps)", name, c.ops);
    ensure!(props.num_rows == c.ops + 1 && props.num_registers == want.len(), "{}: {} rows and {} registers for {} steps", name, props.num_rows, props.num_registers, c.ops);
    // exactly the claimed inputs and outputs
    let mut b: Vec<(usize, usize, Option<F>)> = vec![];
    if kind < 2 { for r in 0..2 { b.push((r, 0, Some(want[r][0]))); b.push((r, c.ops, Some(want[r][c.ops]))); } }
    else if fib.is_some() { b.push((0, 0, Some(F::one()))); b.push((1, 0, Some(F::one()))); b.push((1, at, Some(want[1][at]))); }
    let mut got: Vec<(usize, usize, Option<F>)> = props.boundary_constraints.iter().map(|x| (match x.register { Register::Register(i) => i, _ => 99 }, x.at_row, x.value)).collect();
    let key = |x: &(usize, usize, Option<F>)| (x.0, x.1);
    b.sort_by_key(key); got.sort_by_key(key);
    ensure!(got == b, "{}: boundary constraints are not those of the inputs and outputs: {:?}", name, got);
    let worker = Worker::new();
    let sat = |p: &InstanceProperties<F>, t: &Vec<Vec<F>>| guarded(|| Ok(ARPInstance::<F, PerRegisterARP>::is_satisfied(p, t, &worker).is_ok()));
    ensure!(sat(&props, &w)?, "{}: the honest trace of {} steps is refused", name, c.ops);
    ensure!(violated(&props, &w).is_none(), "{}: the constraints as written do not hold on the honest trace: {:?}", name, violated(&props, &w));
    let mut out = Out::when(c.ops >= 2).lif(!c.ops.wrapping_add(1).is_power_of_two(), "rows not a power of two").l(name);
    // deviations: every cell is determined by the first row, except the last squares of the cubic computation and the
    // first row of a Fibonacci instance that claims nothing
    let constrained = |r: usize, i: usize| if kind == 1 { r < 2 || i < c.ops } else { kind == 0 || fib.is_some() || i > 0 };
    for (r, i, d) in c.cells.iter() {
        let (r, i) = (*r as usize % want.len(), i % (c.ops + 1));
        let mut t = w.clone();
        if c.follow && kind < 2 && r < 2 {
            // the rest follows from the wrong value
            let mut v = (t[0][i], t[1][i]);
            let e = el_nonzero::<F>(*d);
            if r == 0 { v.0.add_assign(&e) } else { v.1.add_assign(&e) }
            let tail = native(kind, v, c.ops - i);
            for (k, col) in tail.into_iter().enumerate() { for (j, x) in col.into_iter().enumerate() { t[k][i + j] = x; } }
        } else { t[r][i].add_assign(&el_nonzero(*d)); }
        let ok = sat(&props, &t)?;
        if kind == 2 && fib.is_none() && i == 0 {
            ensure!(ok == (c.ops == 0), "Fibonacci without claim: another first row is {}", if ok { "taken" } else { "refused" });
        } else if constrained(r, i) { ensure!(!ok, "{}: the trace deviating in register {} at row {} of {} is taken", name, r, i, c.ops); out = out.lif(i == c.ops, "deviation in the last row"); }
        else { ensure!(ok, "{}: register {} at row {} matters to nothing, yet the trace is refused", name, r, i); }
    }
    // another claimed input or output
    if !props.boundary_constraints.is_empty() {
        let mut p = props.clone();
        let n = p.boundary_constraints.len();
        let x = &mut p.boundary_constraints[c.claim.0 % n];
        x.value = x.value.map(|v| add(v, &el_nonzero::<F>(c.claim.1)));
        ensure!(!sat(&p, &w)?, "{}: another claimed value is taken", name);
        if c.prove {
            let k = lib_prove(&props, &w, 16, 1)?;
            ensure!(accepted(&lib_verify(&props, 16, &k)), "{}: the proof of {} steps is not accepted", name, c.ops);
            ensure!(!accepted(&lib_verify(&p, 16, &k)), "{}: the proof is accepted for another claimed value", name);
            out = out.l("proved");
        }
    }
    // a wrong request is refused as well
    if kind == 2 {
        if let Some(v) = fib {
            let (w, p) = guarded(|| Ok(fibonacci_instance::<F>(Some(v - 1), at, c.ops)))?;
            ensure!(!sat(&p, &w.ok_or("no witness")?)?, "Fibonacci: a wrong number is taken");
        }
    }
    Ok(out)
}

fn main() {
    let mut c = Ctx::new("C21", "at least two steps");
    c.assume("proofs are made on one CPU (known finding KF1 of C09 concerns several) and over fields of 64 bits and more; the requested Fibonacci number fits 64 bits and the field");
    let s = |ops: BoxedStrategy<usize>, prove: bool| (any::<u8>(), eseed(), eseed(), ops, any::<usize>(), vec((any::<u8>(), prop_oneof![4 => any::<usize>(), 1 => Just(0usize)], eseed_nz()), 1..6), (any::<usize>(), eseed_nz()), any::<bool>(), any::<u8>())
        .prop_map(move |(kind, c0, c1, ops, at, cells, claim, follow, field)| Case { kind, c0, c1, ops, at, cells, claim, follow, cpus: 1, field, prove }).boxed();
    c.sub("traces", c.n(100000, 16000000), || s(prop_oneof![1 => 0usize..3, 4 => 1usize..40, 1 => 40usize..140].boxed(), false), |x| by_field!(x.field, run, x; Gold, F252, F257, F255, F17, Baby, F128));
    c.sub("proofs", c.n(500, 120000), || s((1usize..20).boxed(), true), |x| by_field!(x.field, run, x; Gold, F252, F255, F128));
    c.sub("long traces", c.n(200, 80000), || s((140usize..3000).boxed(), false), |x| by_field!(x.field, run, x; Gold, F252, F255, F128));
    c.finish();
}
