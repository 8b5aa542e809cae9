use ff::PrimeField;
use hv::air::*;
use hv::proto::*;
use hv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { p: PCfg, cheats: Vec<Cheat>, brk: Vec<Break>, constant: bool }

fn run<F: PrimeField>(c: &Case) -> Res {
    let mut spec = c.p.inst.clone();
    if c.constant {
        // registers that keep their first value: all the quotients are zero
        spec.rows = spec.rows.next_power_of_two();
        for (k, r) in spec.regs.iter_mut().enumerate() {
            *r = Role::Rec { lead: 1, lead_coeff: 1, lead_poly: k % 2 == 1, terms: vec![Term { coeff: 2, uni: true, factors: vec![Factor { reg: k, step: 0, power: 1, coeff: 1 }] }], constant: 0, start: 0, span: 0 };
        }
    }
    let i = spec.build::<F>();
    let (lde, out) = c.p.lde_out(&i.props);
    // without a blow-up any function over the domain is a polynomial of a low degree
    let lde = lde.max(2);
    let bad = break_trace(&i.trace, &c.brk);
    let is_bad = violated(&i.props, &bad);
    let mut o = Out::trivial();
    with_cpus(1, || {
        for ch in c.cheats.iter() {
            let inp = RefInput { props: &i.props, good: &i.trace, bad: if is_bad.is_some() { Some(&bad) } else { None } };
            let kind = format!("{:?}", ch).split(|x: char| !x.is_alphanumeric()).next().unwrap().to_string();
            let (p, st) = match ref_prove(&inp, &RefCfg { lde, out }, ch) { Some(x) => x, None => { o.labels.push(format!("{} not possible here", kind)); continue } };
            let r = lib_verify(&st, lde, &p);
            if *ch == Cheat::Honest {
                ensure!(accepted(&r), "the proof of the reference prover is not accepted, so nothing can be said about cheating ones: {:?}", r);
                o.labels.push("Honest accepted".into());
            } else {
                ensure!(!accepted(&r), "cheating prover is accepted: {:?} (lde {} out {} statement violated: {:?})", ch, lde, out, is_bad);
                o.nontrivial = true;
                o.labels.push(kind);
            }
        }
        Ok(o)
    })
}

fn cheat() -> BoxedStrategy<Cheat> {
    let s = any::<u64>;
    let b = any::<bool>;
    prop_oneof![
        2 => Just(Cheat::Honest),
        2 => (s(), s()).prop_map(|(reg, seed)| Cheat::OpenOtherF { reg, seed }),
        2 => s().prop_map(|seed| Cheat::OpenOtherG { seed }),
        2 => (s(), s(), b()).prop_map(|(mask, seed, full)| Cheat::FalseOod { mask, seed, full }),
        3 => Just(Cheat::OodAfter),
        2 => (s(), b()).prop_map(|(seed, formula)| Cheat::OtherG { seed, formula }),
        3 => (b(), s(), 0u8..3).prop_map(|(second, seed, fix)| Cheat::OtherH { second, seed, fix }),
        3 => (b(), s(), s()).prop_map(|(second, layer, seed)| Cheat::FriLayer { second, layer, seed }),
        4 => (b(), s(), s(), b()).prop_map(|(second, layer, seed, own_tree)| Cheat::FriForge { second, layer, seed, own_tree }),
        2 => s().prop_map(|c| Cheat::ConstantAfter { c }),
        3 => (b(), s(), b()).prop_map(|(second, seed, small)| Cheat::FriFinals { second, seed, small }),
        4 => (b(), any::<u8>(), any::<u8>(), b()).prop_map(|(second, shift, out, broken)| Cheat::Params { second, shift, out, broken }),
        2 => Just(Cheat::LongFinals),
        2 => (b(), s()).prop_map(|(second, seed)| Cheat::OtherRoots { second, seed }),
        2 => s().prop_map(|b| Cheat::BoundaryAfter { b }),
        2 => Just(Cheat::ClaimOther),
        4 => (0u8..SKIPS).prop_map(|what| Cheat::Skip { what }),
        2 => Just(Cheat::DropRows),
        2 => (0u8..3, s()).prop_map(|(what, seed)| Cheat::Extra { what, seed }),
    ].boxed()
}

fn cheat_constant() -> BoxedStrategy<Cheat> {
    let s = any::<u64>;
    prop_oneof![
        1 => Just(Cheat::Honest),
        2 => (s(), s()).prop_map(|(reg, by)| Cheat::OpenPosF { reg, by }),
        2 => s().prop_map(|by| Cheat::OpenPosG { by }),
        3 => (any::<bool>(), s(), s()).prop_map(|(second, layer, by)| Cheat::FriPos { second, layer, by }),
    ].boxed()
}

fn main() {
    let c = Ctx::new("C05", "at least one cheating proof was built and judged");
    let cfg = InstCfg { max_rows: 20, max_regs: 3, max_degree: 4, max_boundary: 4 };
    let f = |x: &Case| match x.p.field { 0 => run::<Gold>(x), _ => run::<F252>(x) };
    c.sub("strategies", c.n(6000, 600000), move || (pcfg(cfg, 3, 2), proptest::collection::vec(cheat(), 1..8), breaks()).prop_map(|(p, cheats, brk)| Case { p, cheats, brk, constant: false }).boxed(), f);
    c.sub("wrong positions", c.n(2000, 200000), move || (pcfg(cfg, 3, 2), proptest::collection::vec(cheat_constant(), 1..8), breaks()).prop_map(|(p, cheats, brk)| Case { p, cheats, brk, constant: true }).boxed(), f);
    let wide = InstCfg { max_rows: 60, max_regs: 9, max_degree: 9, max_boundary: 8 };
    c.sub("strategies on larger statements", c.n(150, 24000), move || (pcfg(wide, 4, 2), proptest::collection::vec(cheat(), 1..8), breaks()).prop_map(|(p, cheats, brk)| Case { p, cheats, brk, constant: false }).boxed(), f);
    c.sub("strategies in other fields", c.n(1500, 120000), move || (pcfg(cfg, 3, 4), proptest::collection::vec(cheat(), 1..8), breaks()).prop_map(|(p, cheats, brk)| Case { p, cheats, brk, constant: false }).boxed(),
        |x| by_field!(x.p.field, run, x; F63, F65, F193, F255));
    // free registers only constrained at the boundary: out-of-domain values enter the composition linearly
    let few = InstCfg { max_rows: 8, max_regs: 2, max_degree: 2, max_boundary: 4 };
    c.sub("values after challenges", c.n(1500, 200000), move || (pcfg(few, 3, 2), breaks()).prop_map(|(p, brk)| Case { p, cheats: vec![Cheat::OodAfter, Cheat::BoundaryAfter { b: 0 }, Cheat::ConstantAfter { c: 0 }, Cheat::Params { second: true, shift: 7, out: 0, broken: true }, Cheat::LongFinals], brk, constant: false }).boxed(), f);
    c.finish();
}
