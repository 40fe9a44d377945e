//! C03: histories of solver calls (adding constraints, lookups and range facts, solving, asking, forgetting variables).
use crate::fp::{set_p, Fp, Int};
use crate::gen::Gen;
use crate::rc::rc_json;
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::ToyHandler;
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, ConstraintSystem};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::solver::{new_solver, Solver};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Item {
    Con(E),
    Bus(Bus),
    Rng(usize, RangeConstraint<Fp>),
}

/// One history: its JSON, whether it looks suspicious, and its size.
fn history(seed: u64) -> (Value, bool, usize) {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let p = *r.pick(&[7u64, 11, 11, 13, 19]);
    set_p(p);
    let toy = Toy::for_p(p);
    let n = r.range(2, 5) as usize;
    let sat = !r.chance(1, 6);
    let gadgets = r.range(1, 7) as usize;
    let mut g = Gen::new(r, toy.clone(), n, sat);
    for _ in 0..gadgets {
        g.gadget();
    }
    if p > 7 && g.r.chance(1, 4) {
        g.special();
    }
    let (sys, wit, n) = (g.sys.clone(), g.wit.clone(), g.n);
    let mut items: Vec<Item> = sys.cons.into_iter().map(Item::Con).collect();
    items.extend(sys.bus.into_iter().map(Item::Bus));
    for _ in 0..r.below(3) {
        let x = r.below(n as u64) as usize;
        let rc = match r.below(3) {
            0 => RangeConstraint::from_mask(Int(r.below(16).min(p - 1))),
            1 => RangeConstraint::from_range(Fp(r.below(p)), Fp(r.below(p))),
            _ => RangeConstraint::from_value(Fp(wit[x])),
        };
        if !sat || rc.allows_value(Fp(wit[x])) {
            items.push(Item::Rng(x, rc));
        }
    }
    for i in (1..items.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        items.swap(i, j);
    }
    let phases = r.range(1, 3) as usize;
    let k0 = if r.chance(1, 2) { items.len() / phases } else { 0 };
    let initial: Vec<Item> = items.drain(..k0.min(items.len())).collect();
    let mut events: Vec<Value> = vec![];
    let mut cur = Sys::default();
    let mut facts: Vec<(usize, RangeConstraint<Fp>)> = vec![];
    let mut sys0 = ConstraintSystem::<Fp, usize>::default();
    let mut late = vec![];
    let id = |x: usize| x;
    for it in initial {
        match it {
            Item::Con(e) => {
                sys0.algebraic_constraints.push(AlgebraicConstraint::assert_zero(to_grouped(&e, &id)));
                events.push(json!({"t":"con","e":e.json()}));
                cur.cons.push(e);
            }
            Item::Bus(b) => {
                sys0.bus_interactions.push(to_bus(&b, &id));
                events.push(json!({"t":"bus","id":b.id,"mult":b.mult.json(),"args":b.args.iter().map(E::json).collect::<Vec<_>>()}));
                cur.bus.push(b);
            }
            r => late.push(r),
        }
    }
    items.extend(late);
    let mut suspicious = false;
    let mut size = 0;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut solver = new_solver(sys0, ToyHandler(toy.clone()));
        let chunk = items.len() / phases + 1;
        let mut items = items.into_iter();
        for _ in 0..phases {
            for it in items.by_ref().take(chunk) {
                match it {
                    Item::Con(e) => {
                        solver.add_algebraic_constraints([AlgebraicConstraint::assert_zero(to_grouped(&e, &id))]);
                        events.push(json!({"t":"con","e":e.json()}));
                        cur.cons.push(e);
                    }
                    Item::Bus(b) => {
                        solver.add_bus_interactions([to_bus(&b, &id)]);
                        events.push(json!({"t":"bus","id":b.id,"mult":b.mult.json(),"args":b.args.iter().map(E::json).collect::<Vec<_>>()}));
                        cur.bus.push(b);
                    }
                    Item::Rng(x, rc) => {
                        solver.add_range_constraint(&x, rc);
                        events.push(json!({"t":"rng","v":x + 1,"r":rc_json(p, &rc)}));
                        facts.push((x, rc));
                    }
                }
            }
            let order = full_order(&toy, &cur, n);
            let sols: Option<Vec<Vec<u64>>> = toy
                .sols(&cur, &order, n, 60_000)
                .map(|s| s.into_iter().filter(|a| facts.iter().all(|(x, rc)| rc.allows_value(Fp(a[*x])))).collect());
            size = size.max(sols.as_ref().map_or(usize::MAX, |s| s.len()));
            let holds = |f: &dyn Fn(&[u64]) -> bool| sols.as_ref().map_or(true, |s| s.iter().all(|a| f(a)));
            events.push(json!({"t":"panic","order":one(&order)}));
            let out = solver.solve();
            events.pop();
            let ask = |e: &E| to_grouped::<Fp, usize>(e, &id);
            match out {
                Err(e) => {
                    suspicious |= !holds(&|_| false);
                    events.push(json!({"t":"err","order":one(&order),"msg":format!("{e:?}")}));
                    return;
                }
                Ok(assign) => {
                    let a: Vec<(usize, E)> = assign.iter().map(|(x, e)| (*x, from_grouped(e, &|y: &usize| *y))).collect();
                    let mut q: Vec<Value> = vec![];
                    for (x, e) in &a {
                        suspicious |= !holds(&|s| s[*x] == e.eval(p, s));
                        q.push(json!({"q":"assign","v":x + 1,"e":e.json()}));
                    }
                    events.push(json!({"t":"panic","order":one(&order)}));
                    let mut exprs: Vec<E> = (0..n).map(v).collect();
                    let sub: Vec<E> = cur.cons.iter().chain(cur.bus.iter().flat_map(|b| b.args.iter().chain([&b.mult]))).flat_map(subs).collect();
                    for _ in 0..4 {
                        if !sub.is_empty() {
                            exprs.push(r.pick(&sub).clone());
                        }
                    }
                    // products of variables shifted by the same or opposite amounts
                    for _ in 0..3 {
                        let (x, y, k) = (r.below(n as u64) as usize, r.below(n as u64) as usize, r.range(1, 4));
                        let k2 = if r.chance(2, 3) { k } else { r.below(5) };
                        let l = v(x) - c(k);
                        let m = if r.chance(2, 3) { v(y) - c(k2) } else { c(k2) - v(y) };
                        exprs.push(if r.chance(1, 2) { l * m } else { l * m + v(r.below(n as u64) as usize) });
                    }
                    for e in &exprs {
                        let rc = solver.range_constraint_for_expression(&ask(e));
                        suspicious |= !holds(&|s| rc.allows_value(Fp(e.eval(p, s))));
                        if rc != RangeConstraint::default() {
                            q.push(json!({"q":"range","e":e.json(),"r":rc_json(p, &rc)}));
                        }
                        if let Some(k) = solver.try_to_equivalent_constant(&ask(e)) {
                            suspicious |= !holds(&|s| e.eval(p, s) == k.0);
                            q.push(json!({"q":"const","e":e.json(),"k":k.0}));
                        }
                    }
                    for _ in 0..6 {
                        let a = r.pick(&exprs).clone();
                        let b = r.pick(&exprs).clone() + c(r.below(p));
                        if solver.are_expressions_known_to_be_different(&ask(&a), &ask(&b)) {
                            suspicious |= !holds(&|s| a.eval(p, s) != b.eval(p, s));
                            q.push(json!({"q":"diff","a":a.json(),"b":b.json()}));
                        }
                    }
                    events.pop();
                    events.push(json!({"t":"ok","order":one(&order),"q":q}));
                    if r.chance(1, 4) {
                        let keep: HashSet<usize> = (0..n).filter(|_| r.chance(2, 3)).collect();
                        solver.retain_variables(&keep);
                        events.push(json!({"t":"retain"}));
                    }
                }
            }
        }
    }));
    if res.is_err() {
        // the pending marker stays in the history
        if !events.last().is_some_and(|e| e["t"] == "panic") {
            let order = full_order(&toy, &cur, n);
            events.push(json!({"t":"panic","order":one(&order)}));
        }
        let order = full_order(&toy, &cur, n);
        let s = toy.sols(&cur, &order, n, 60_000);
        suspicious |= s.map_or(false, |s| s.iter().any(|a| facts.iter().all(|(x, rc)| rc.allows_value(Fp(a[*x])))));
    }
    (json!({"toy": toy.json(), "nv": n, "ev": events, "text": cur.show()}), suspicious, size)
}
fn one(o: &[usize]) -> Vec<usize> {
    o.iter().map(|x| x + 1).collect()
}
pub fn full_order(toy: &Toy, s: &Sys, n: usize) -> Vec<usize> {
    let mut o = var_order(toy, s);
    for x in 0..n {
        if !o.contains(&x) {
            o.push(x);
        }
    }
    o
}
/// all sub-expressions
pub fn subs(e: &E) -> Vec<E> {
    let mut out = vec![e.clone()];
    match e {
        E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
            out.extend(subs(a));
            out.extend(subs(b));
        }
        E::Neg(a) => out.extend(subs(a)),
        _ => {}
    }
    out
}

pub fn cases(seed: u64, n: u64, sample: usize, limit: usize, path: &str) {
    let (mut sus, mut rest) = (vec![], vec![]);
    let mut stats = std::collections::BTreeMap::<String, u64>::new();
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let (j, s, size) = history(seed * 1_000_003 + i);
        for e in j["ev"].as_array().unwrap() {
            *stats.entry(format!("ev_{}", e["t"].as_str().unwrap())).or_default() += 1;
            for q in e["q"].as_array().unwrap_or(&vec![]) {
                *stats.entry(format!("q_{}", q["q"].as_str().unwrap())).or_default() += 1;
            }
        }
        if s {
            sus.push((size, j.to_string()));
        } else if size <= limit && rest.len() < sample && seen.insert(j["ev"].to_string()) {
            rest.push(j.to_string());
        }
    }
    sus.sort();
    *stats.entry("cases".into()).or_default() += n;
    *stats.entry("suspicious".into()).or_default() += sus.len() as u64;
    let f: Vec<String> = sus.into_iter().take(6).map(|x| x.1).chain(rest).collect();
    std::fs::write(path, f.join("\n") + "\n").unwrap();
    println!("{}", serde_json::to_string(&stats).unwrap());
}
