//! C20: histories of the indexed constraint system, plain and with its work queue.
use crate::fp::{set_p, Fp};
use crate::rng::Rng;
use crate::sys::*;
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, ConstraintRef, ConstraintSystem};
use powdr_constraint_solver::indexed_constraint_system::{IndexedConstraintSystem, IndexedConstraintSystemWithQueue};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type S = IndexedConstraintSystem<Fp, usize>;
type Q = IndexedConstraintSystemWithQueue<Fp, usize>;
const NV: u64 = 4;

fn lin(r: &mut Rng, p: u64) -> E {
    let mut e = c(r.below(p));
    for _ in 0..r.range(1, 2) {
        let x = v(r.below(NV) as usize);
        e = match r.below(3) {
            0 => e + x,
            1 => e - x,
            _ => e + c(r.range(1, p - 1)) * x,
        };
    }
    e
}
fn expr(r: &mut Rng, p: u64) -> E {
    match r.below(4) {
        0 => lin(r, p) * lin(r, p),
        1 => v(r.below(NV) as usize) * lin(r, p) + lin(r, p),
        2 => v(r.below(NV) as usize),
        _ => lin(r, p),
    }
}
fn bus(r: &mut Rng, p: u64) -> Bus {
    Bus { id: r.below(3), mult: if r.chance(1, 2) { c(1) } else { lin(r, p) }, args: (0..r.range(1, 2)).map(|_| lin(r, p)).collect() }
}
fn system(r: &mut Rng, p: u64, max: u64, der: bool) -> Sys {
    Sys {
        cons: (0..r.below(max + 1)).map(|_| expr(r, p)).collect(),
        bus: (0..r.below(max + 1)).map(|_| bus(r, p)).collect(),
        derived: (0..if der { r.below(3) } else { 0 })
            .map(|_| (r.below(NV) as usize, if r.chance(1, 4) { Method::Const(r.below(p)) } else { Method::Quot(lin(r, p), lin(r, p)) }))
            .collect(),
    }
}
fn id(i: usize) -> usize {
    i
}
fn own(x: &usize) -> usize {
    *x
}
fn at(s: &ConstraintSystem<Fp, usize>, c: &ConstraintRef<Fp, usize>) -> Value {
    match c {
        ConstraintRef::AlgebraicConstraint(a) => {
            json!([1, s.algebraic_constraints.iter().position(|x| std::ptr::eq(&x.expression, a.expression)).map(|x| x + 1).unwrap_or(0)])
        }
        ConstraintRef::BusInteraction(b) => {
            json!([2, s.bus_interactions.iter().position(|x| std::ptr::eq(x, *b)).map(|x| x + 1).unwrap_or(0)])
        }
    }
}
fn state(r: &mut Rng, s: &S) -> Value {
    let mut looks = vec![];
    for x in 0..NV as usize {
        looks.push(json!({"vars": [x + 1], "items": s.constraints_referencing_variables([&x]).map(|c| at(s.system(), &c)).collect::<Vec<_>>()}));
    }
    let two = [r.below(NV) as usize, r.below(NV) as usize];
    looks.push(json!({"vars": [two[0] + 1, two[1] + 1], "items": s.constraints_referencing_variables(two.iter()).map(|c| at(s.system(), &c)).collect::<Vec<_>>()}));
    json!({"sys": from_system(s.system(), &own).json(), "looks": looks,
        "vars": s.variables().map(|x| x + 1).collect::<Vec<_>>(),
        "refs": s.referenced_unknown_variables().map(|x| x + 1).collect::<Vec<_>>()})
}
fn mask(r: &mut Rng, n: usize) -> Vec<bool> {
    (0..n).map(|_| r.chance(2, 3)).collect()
}
fn sub(r: &mut Rng, p: u64) -> (usize, E) {
    let x = r.below(NV) as usize;
    loop {
        let e = match r.below(4) {
            0 => c(r.below(p)),
            1 => v(r.below(NV) as usize),
            2 => v(r.below(NV) as usize) * v(r.below(NV) as usize),
            _ => lin(r, p),
        };
        let mut s = Default::default();
        e.vars(&mut s);
        if !s.contains(&x) {
            return (x, e);
        }
    }
}
fn keeps(m: &[bool]) -> Value {
    json!(m.iter().enumerate().filter(|(_, k)| **k).map(|(i, _)| i + 1).collect::<Vec<_>>())
}

fn plain(r: &mut Rng, p: u64, s: &mut S) -> Value {
    match r.below(8) {
        0 => {
            let add = system(r, p, 2, true);
            s.extend(to_system(&add, &id));
            json!({"t": "add", "add": add.json()})
        }
        1 => {
            let add = Sys { bus: vec![], derived: vec![], ..system(r, p, 2, false) };
            s.add_algebraic_constraints(add.cons.iter().map(|e| AlgebraicConstraint::assert_zero(to_grouped(e, &id))));
            json!({"t": "add", "add": add.json()})
        }
        2 => {
            let add = Sys { cons: vec![], derived: vec![], ..system(r, p, 2, false) };
            s.add_bus_interactions(add.bus.iter().map(|b| to_bus(b, &id)));
            json!({"t": "add", "add": add.json()})
        }
        3 => {
            let kind = r.below(3);
            let m = mask(r, match kind { 0 => s.system().algebraic_constraints.len(), 1 => s.system().bus_interactions.len(), _ => s.system().derived_variables.len() });
            let mut i = 0;
            let mut f = || { i += 1; m[i - 1] };
            match kind {
                0 => s.retain_algebraic_constraints(|_| f()),
                1 => s.retain_bus_interactions(|_| f()),
                _ => s.retain_derived_variables(|_| f()),
            }
            json!({"t": "retain", "kind": kind + 1, "keep": keeps(&m)})
        }
        4 => {
            let (x, k) = (r.below(NV) as usize, r.below(p));
            s.substitute_by_known(&x, &Fp::from(k));
            json!({"t": "subst", "subs": [{"v": x + 1, "e": c(k).json()}]})
        }
        5 => {
            let l: Vec<(usize, E)> = (0..r.range(1, 3)).map(|_| sub(r, p)).collect();
            s.apply_substitutions(l.iter().map(|(x, e)| (*x, to_grouped(e, &id))));
            json!({"t": "subst", "subs": l.iter().map(|(x, e)| json!({"v": x + 1, "e": e.json()})).collect::<Vec<_>>()})
        }
        _ => {
            let (x, e) = sub(r, p);
            s.substitute_by_unknown(&x, &to_grouped(&e, &id));
            json!({"t": "subst", "subs": [{"v": x + 1, "e": e.json()}]})
        }
    }
}
fn queued(r: &mut Rng, p: u64, s: &mut Q) -> Value {
    match r.below(12) {
        0 => {
            let add = Sys { bus: vec![], derived: vec![], ..system(r, p, 2, false) };
            s.add_algebraic_constraints(add.cons.iter().map(|e| AlgebraicConstraint::assert_zero(to_grouped(e, &id))));
            json!({"t": "add", "add": add.json()})
        }
        1 => {
            let add = Sys { cons: vec![], derived: vec![], ..system(r, p, 2, false) };
            s.add_bus_interactions(add.bus.iter().map(|b| to_bus(b, &id)));
            json!({"t": "add", "add": add.json()})
        }
        2 => {
            let kind = r.below(2);
            let m = mask(r, if kind == 0 { s.system().system().algebraic_constraints.len() } else { s.system().system().bus_interactions.len() });
            let mut i = 0;
            let mut f = || { i += 1; m[i - 1] };
            match kind {
                0 => s.retain_algebraic_constraints(|_| f()),
                _ => s.retain_bus_interactions(|_| f()),
            }
            json!({"t": "retain", "kind": kind + 1, "keep": keeps(&m)})
        }
        3 => {
            let (x, e) = sub(r, p);
            s.substitute_by_unknown(&x, &to_grouped(&e, &id));
            json!({"t": "subst", "subs": [{"v": x + 1, "e": e.json()}]})
        }
        4 => {
            let x = r.below(NV) as usize;
            s.variable_updated(&x);
            json!({"t": "touch", "v": x + 1})
        }
        _ => {
            // the reference is turned into (kind, index) by comparing addresses with the system's items
            let got: Option<(u64, *const u8)> = s.pop_front().map(|c| match c {
                ConstraintRef::AlgebraicConstraint(a) => (1, a.expression as *const _ as *const u8),
                ConstraintRef::BusInteraction(b) => (2, b as *const _ as *const u8),
            });
            let y = s.system().system();
            let item = match got {
                None => json!([0, 0]),
                Some((1, q)) => json!([1, y.algebraic_constraints.iter().position(|x| &x.expression as *const _ as *const u8 == q).map(|x| x + 1).unwrap_or(0)]),
                Some((_, q)) => json!([2, y.bus_interactions.iter().position(|x| x as *const _ as *const u8 == q).map(|x| x + 1).unwrap_or(0)]),
            };
            json!({"t": "pop", "item": item})
        }
    }
}

pub fn cases(seed: u64, n: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let (mut events, mut pops) = (0u64, 0u64);
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let p = *r.pick(&[3u64, 3, 5]);
        set_p(p);
        let first = system(r, p, 3, true);
        let withq = r.chance(1, 2);
        let mut ev: Vec<Value> = vec![];
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut push = |mut e: Value, st: Value| {
                e.as_object_mut().unwrap().insert("s".into(), st);
                ev.push(e);
            };
            let sys = to_system::<Fp, usize>(&first, &id);
            if withq {
                let mut s: Q = if r.chance(1, 2) { Q::from(sys) } else { Q::from(S::from(sys)) };
                push(json!({"t": "init", "add": first.json()}), state(r, s.system()));
                for _ in 0..r.range(4, 14) {
                    let e = queued(r, p, &mut s);
                    pops += (e["t"] == "pop") as u64;
                    push(e, state(r, s.system()));
                }
                // drain
                for _ in 0..40 {
                    let got: Option<(u64, *const u8)> = s.pop_front().map(|c| match c {
                        ConstraintRef::AlgebraicConstraint(a) => (1, a.expression as *const _ as *const u8),
                        ConstraintRef::BusInteraction(b) => (2, b as *const _ as *const u8),
                    });
                    let y = s.system().system();
                    let item = match got {
                        None => json!([0, 0]),
                        Some((1, q)) => json!([1, y.algebraic_constraints.iter().position(|x| &x.expression as *const _ as *const u8 == q).map(|x| x + 1).unwrap_or(0)]),
                        Some((_, q)) => json!([2, y.bus_interactions.iter().position(|x| x as *const _ as *const u8 == q).map(|x| x + 1).unwrap_or(0)]),
                    };
                    push(json!({"t": "pop", "item": item}), state(r, s.system()));
                    pops += 1;
                    if got.is_none() {
                        break;
                    }
                }
            } else {
                let mut s = S::from(sys);
                push(json!({"t": "init", "add": first.json()}), state(r, &s));
                for _ in 0..r.range(2, 7) {
                    let e = plain(r, p, &mut s);
                    push(e, state(r, &s));
                }
            }
        }));
        if res.is_err() {
            ev.push(json!({"t": "panic"}));
        }
        events += ev.len() as u64;
        writeln!(f, "{}", json!({"p": p, "q": withq, "ev": ev})).unwrap();
    }
    println!("{}", json!({"cases": n, "events": events, "pops": pops}));
}
