//! C08, C21: single rewriting passes on generated systems.
use crate::fp::{set_p, Fp};
use crate::gen::Gen;
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::*;
use powdr_autoprecompiles::constraint_optimizer::{remove_disconnected_columns, simplify_constraints_using_exhaustive_search};
use powdr_autoprecompiles::low_degree_bus_interaction_optimizer::LowDegreeBusInteractionOptimizer;
use powdr_autoprecompiles::memory_optimizer::optimize_memory;
use powdr_autoprecompiles::optimizer::optimize_exec_bus;
use powdr_autoprecompiles::range_constraint_optimizer::optimize_range_constraints;
use powdr_autoprecompiles::DegreeBound;
use powdr_constraint_solver::constraint_system::ConstraintSystem;
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::indexed_constraint_system::{apply_substitutions, IndexedConstraintSystem};
use powdr_constraint_solver::inliner::{inline_everything_below_degree_bound, replace_constrained_witness_columns};
use powdr_constraint_solver::rule_based_optimizer::rule_based_optimization;
use powdr_constraint_solver::solver::exhaustive_search::{exhaustive_search_on_variable_set, get_brute_force_candidates};
use powdr_constraint_solver::solver::{new_solver, Solver};
use powdr_constraint_solver::system_splitter::split_system;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PASSES: &[&str] = &["rules", "rulesdb", "inline", "exhaustive", "split", "disconnected", "range", "lowdegree", "search"];

type Sysm = ConstraintSystem<Fp, usize>;
fn id(i: usize) -> usize {
    i
}
fn own(x: &usize) -> usize {
    *x
}

pub struct Case {
    pub pass: &'static str,
    pub toy: Toy,
    pub nvars: usize,
    pub db: DegreeBound,
    /// the system handed to the pass
    pub orig: Sys,
    pub res: &'static str,
    pub msg: String,
    pub new: Sys,
    pub assign: Vec<(usize, E)>,
    /// range claims: variable, allowed values
    pub claims: Vec<(usize, Vec<u64>)>,
    /// variable sets of the parts of a split system
    pub parts: Vec<Vec<usize>>,
}

fn bounds(r: &mut Rng, s: &Sys) -> DegreeBound {
    let i = s.cons.iter().map(|e| e.degree()).max().unwrap_or(0).max(2) as u64;
    let b = s.bus.iter().flat_map(|b| b.args.iter().chain([&b.mult])).map(|e| e.degree()).max().unwrap_or(0).max(1) as u64;
    let i = r.range(i.max(b), i.max(b) + 1);
    DegreeBound { identities: i as usize, bus_interactions: r.range(b, i) as usize }
}

/// Memory-heavy system: few columns, many accesses at related addresses.
fn memory_system(r: &mut Rng, toy: &Toy) -> (Sys, usize) {
    let n = r.range(2, 4) as usize;
    let p = toy.p;
    let acc = r.range(2, 5) as usize;
    let mut g = Gen::new(r, toy.clone(), n, true);
    for _ in 0..g.r.below(4) {
        if g.r.chance(1, 2) {
            let x = g.var();
            let bits = g.r.range(1, 2);
            g.bus(RANGE, c(1), vec![v(x), c(bits)]);
        } else {
            g.gadget();
        }
    }
    if g.r.chance(1, 3) {
        g.stateful(0, acc);
    } else {
        // addresses: a small pool of base + offset, and of their algebraic variants
        let base: Vec<E> = (0..2).map(|_| if g.r.chance(1, 4) { c(g.r.below(4)) } else { let x = g.var(); if g.r.chance(1, 4) { let y = g.var(); v(x) + v(y) } else { v(x) } }).collect();
        let mut pend: Vec<(E, E, E, E)> = vec![];
        for i in 0..acc {
            let (asp, addr) = if !pend.is_empty() && g.r.chance(2, 5) {
                let q = g.r.pick(&pend).clone();
                (q.0, q.1)
            } else {
                let b = g.r.pick(&base).clone();
                let a = match g.r.below(4) {
                    0 => b,
                    1 => b + c(g.r.below(4)),
                    2 => c(g.r.range(1, 3)) * b + c(g.r.below(3)),
                    _ => b - c(g.r.below(3)),
                };
                (if g.r.chance(1, 8) { let x = g.var(); v(x) } else { c(g.r.range(1, 2)) }, a)
            };
            let pt = p;
            let val = |g: &mut Gen, e: &E| e.eval(pt, &g.wit);
            let (ka, kb) = (val(&mut g, &asp), val(&mut g, &addr));
            let prev = pend.iter().rev().find(|q| q.0.eval(p, &g.wit) == ka && q.1.eval(p, &g.wit) == kb).cloned();
            let (old, t0) = match prev {
                Some(q) if g.r.chance(9, 10) => {
                    let (d, t) = (val(&mut g, &q.2), val(&mut g, &q.3));
                    (g.expr_with(d), g.expr_with(t))
                }
                _ => (g.simple_or_lin(), g.simple_or_lin()),
            };
            let new = if g.r.chance(1, 2) { old.clone() } else { g.simple_or_lin() };
            let t1 = if g.r.chance(1, 2) { c(i as u64) } else { g.simple_or_lin() };
            let m = if g.r.chance(1, 10) && !g.bools.is_empty() { v(*g.r.pick(&g.bools.clone())) } else { c(1) };
            g.sys.bus.push(Bus { id: MEM, mult: if m == c(1) { c(p - 1) } else { -m.clone() }, args: vec![asp.clone(), addr.clone(), old, t0] });
            if g.r.chance(1, 12) {
                // another interaction in between
                let x = g.var();
                g.bus(RANGE, c(1), vec![v(x), c(2)]);
            }
            g.sys.bus.push(Bus { id: MEM, mult: m, args: vec![asp.clone(), addr.clone(), new.clone(), t1.clone()] });
            pend.push((asp, addr, new, t1));
        }
    }
    (g.sys.clone(), g.n)
}

/// A bitwise lookup that may be a low-degree function of few inputs.
fn small_lookup(g: &mut Gen) {
    let w = g.toy.w as u64;
    let scale = |g: &mut Gen, x: usize| match g.r.below(8) {
        0 => c(2) * v(x),
        1 => c(1) - v(x),
        2 => v(x) + c(1),
        _ => v(x),
    };
    let b = g.r.range(1, w);
    let x = g.small(b);
    let x = scale(g, x);
    let y = match g.r.below(6) {
        0 => c(0),
        1 => c(g.r.below(1 << w)),
        2 => x.clone(),
        _ => {
            let b = g.r.range(1, w);
            let y = g.small(b);
            scale(g, y)
        }
    };
    let (xv, yv) = (g.ev(&x), g.ev(&y));
    if xv >= 1 << w || yv >= 1 << w {
        return;
    }
    let out = xv ^ yv;
    let z = match g.r.below(4) {
        0 => c(out),
        1 => v(g.hidden(out)),
        _ => v(g.fresh(out)),
    };
    let m = match g.r.below(8) {
        0 => v(g.small(1)),
        1 => c(2),
        _ => c(1),
    };
    if g.r.chance(1, 6) {
        g.bus(BITW, m, vec![x, y, c(0), c(0)]);
    } else {
        g.bus(BITW, m, vec![x, y, z, c(1)]);
    }
}

pub fn make(r: &mut Rng, pass: &'static str) -> Case {
    let p = *r.pick(&[11u64, 11, 13, 19]);
    let toy = Toy::for_p(p);
    set_p(p);
    let (mut orig, nvars) = if pass == "memory" {
        memory_system(r, &toy)
    } else {
        let n = r.range(2, 6) as usize;
        let gadgets = r.range(1, 7) as usize;
        let steps = if pass == "exec" { r.range(1, 3) as usize } else { 0 };
        let mut g = Gen::new(r, toy.clone(), n, true);
        for _ in 0..gadgets {
            g.gadget();
        }
        if g.r.chance(1, 2) {
            g.special();
        }
        if pass == "lowdegree" {
            for _ in 0..g.r.range(1, 2) {
                small_lookup(&mut g);
            }
        }
        let a = g.r.below(3) as usize;
        g.stateful(steps, a);
        (g.sys.clone(), g.n)
    };
    // the state of the pipeline: sometimes the solver's conclusions have already been substituted
    let pre = pass == "lowdegree" || pass != "exec" && pass != "split" && r.chance(1, 2);
    if pass == "split" {
        // items without variables belong to no part
        orig = from_system(&to_system::<Fp, usize>(&orig, &id), &own);
        orig.cons.retain(|e| e.degree() > 0);
        orig.bus.retain(|b| b.args.iter().chain([&b.mult]).any(|e| e.degree() > 0));
    }
    let solved = pre || r.chance(1, 2);
    let h = ToyHandler(toy.clone());
    let mut case = Case { pass, toy: toy.clone(), nvars, db: bounds(r, &orig), orig: orig.clone(), res: "skip", msg: String::new(), new: Sys::default(), assign: vec![], claims: vec![], parts: vec![] };
    let mut solver = None;
    if pass != "exec" && pass != "split" && pass != "inline" && pass != "range" {
        let s0: Sysm = to_system(&orig, &id);
        match catch_unwind(AssertUnwindSafe(|| {
            let mut s = new_solver(s0.clone(), h.clone());
            let a = if solved { Some(s.solve()) } else { None };
            (s, a)
        })) {
            Ok((_, Some(Err(_)))) | Err(_) => return case,
            Ok((s, a)) => {
                if pre {
                    let s1 = apply_substitutions(s0, a.unwrap().unwrap());
                    orig = from_system(&s1, &own);
                    orig.cons.retain(|e| *e != c(0));
                    case.orig = orig.clone();
                    case.db = bounds(r, &orig);
                }
                solver = Some(s);
            }
        }
    }
    let sys: Sysm = to_system(&orig, &id);
    let db = case.db;
    if pass == "lowdegree" {
        // earlier passes replace fields the solver knows to be constant
        let s = solver.as_ref().unwrap();
        if sys.bus_interactions.iter().flat_map(|b| b.fields()).any(|f| f.try_to_number().is_none() && s.range_constraint_for_expression(f).try_to_single_value().is_some()) {
            return case;
        }
    }
    let mut next = nvars;
    let mut new_var = |_: &str| {
        next += 1;
        next - 1
    };
    let expr = |e: &GroupedExpression<Fp, usize>| from_grouped(e, &own);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Sys, String> {
        let out: Sysm = match pass {
            "rules" | "rulesdb" => {
                let (s, a) = rule_based_optimization(IndexedConstraintSystem::from(sys), solver.as_ref().unwrap(), h.clone(), &mut new_var, (pass == "rulesdb").then_some(db));
                case.assign = a.iter().map(|(x, e)| (*x, expr(e))).collect();
                s.into()
            }
            "inline" => {
                let (s, a) = replace_constrained_witness_columns(sys.into(), inline_everything_below_degree_bound(db));
                case.assign = a.iter().map(|(x, e)| (*x, expr(e))).collect();
                s.into()
            }
            "exhaustive" => simplify_constraints_using_exhaustive_search(sys.into(), solver.as_ref().unwrap()).into(),
            "disconnected" => remove_disconnected_columns(sys.into(), solver.as_mut().unwrap(), h.clone()).into(),
            "range" => optimize_range_constraints(sys, h.clone(), db),
            "lowdegree" => LowDegreeBusInteractionOptimizer::new(solver.as_mut().unwrap(), h.clone(), db).optimize(sys),
            "memory" => optimize_memory::<_, _, ToyMem<Fp, usize>>(sys, solver.as_mut().unwrap(), Some(MEM)),
            "split" => {
                let parts = split_system(sys.into());
                let mut all = Sys::default();
                for p in parts {
                    let s = from_system(&p, &own);
                    case.parts.push(s.vars().into_iter().collect());
                    all.cons.extend(s.cons);
                    all.bus.extend(s.bus);
                }
                return Ok(all);
            }
            "search" => {
                let ics = IndexedConstraintSystem::from(sys.clone());
                let sets: Vec<BTreeSet<usize>> = get_brute_force_candidates(&ics, solver.as_ref().unwrap()).collect();
                for set in sets.iter().take(6) {
                    let claims = exhaustive_search_on_variable_set(&ics, set, solver.as_ref().unwrap(), &h).map_err(|e| format!("{e:?}"))?;
                    for (x, rc) in claims {
                        case.claims.push((x, (0..p).filter(|k| rc.allows_value(Fp::from(*k))).collect()));
                    }
                }
                sys
            }
            "exec" => return Ok(from_machine(&optimize_exec_bus(to_machine::<Fp>(&orig), EXEC))),
            _ => unreachable!(),
        };
        Ok(from_system(&out, &own))
    }));
    match res {
        Ok(Ok(s)) => {
            case.new = s;
            case.res = "ok";
        }
        Ok(Err(m)) => {
            case.res = "err";
            case.msg = m;
        }
        Err(e) => {
            case.res = "panic";
            case.msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        }
    }
    case
}

pub struct Screen {
    pub clauses: Vec<String>,
    pub oorig: Vec<usize>,
    pub onew: Vec<usize>,
    pub nv: usize,
    pub size: Option<usize>,
    pub sat: bool,
}
fn maxdeg<'a>(it: impl Iterator<Item = &'a E>) -> usize {
    it.map(|e| e.degree()).max().unwrap_or(0)
}
fn fields(s: &Sys) -> impl Iterator<Item = &E> {
    s.bus.iter().flat_map(|b| b.args.iter().chain([&b.mult]))
}
/// Brute force, only to select cases.
pub fn screen(k: &Case) -> Screen {
    let t = &k.toy;
    let oorig = var_order(t, &k.orig);
    let onew = var_order(t, &k.new);
    let nv = k.new.all_vars().last().map_or(0, |x| x + 1).max(k.nvars);
    let mut res = Screen { clauses: vec![], oorig, onew, nv, size: None, sat: false };
    let Some(s1) = t.sols(&k.orig, &res.oorig, nv, 30_000) else { return res };
    res.sat = !s1.is_empty();
    if s1.is_empty() {
        return res;
    }
    if k.res != "ok" {
        res.size = Some(s1.len());
        res.clauses.push(format!("{} {}", k.res, k.msg));
        return res;
    }
    let Some(s2) = t.sols(&k.new, &res.onew, nv, 30_000) else { return res };
    res.size = Some(s1.len() + s2.len());
    let vis: Vec<usize> = if k.new.derived.len() > k.orig.derived.len() { vec![] } else { k.orig.vars().intersection(&k.new.vars()).copied().collect() };
    let key = |sys: &Sys, a: &Vec<u64>| (vis.iter().map(|x| a[*x]).collect::<Vec<_>>(), t.net(sys, a));
    for a in &s1 {
        if matches!(k.pass, "memory" | "exec") && !t.mem_ok(&k.orig, a) {
            continue;
        }
        let mut b = a.clone();
        t.derive(&k.new, &mut b);
        if !t.satisfies(&k.new, &b) || t.net(&k.orig, a) != t.net(&k.new, &b) {
            res.clauses.push(format!("incomplete {a:?}"));
            break;
        }
        if let Some((x, _)) = k.assign.iter().find(|(x, e)| e.eval(t.p, &b) != b[*x]) {
            res.clauses.push(format!("assignment {a:?} {x}"));
            break;
        }
        if k.claims.iter().any(|(x, vals)| !vals.contains(&a[*x])) {
            res.clauses.push(format!("claim {a:?}"));
            break;
        }
    }
    let old: BTreeSet<_> = s1.iter().map(|a| key(&k.orig, a)).collect();
    for b in &s2 {
        if !old.contains(&key(&k.new, b)) {
            res.clauses.push(format!("unsound {b:?}"));
            break;
        }
    }
    let lim = match k.pass {
        "rules" => Some((maxdeg(k.orig.cons.iter()), maxdeg(fields(&k.orig)))),
        "rulesdb" | "inline" | "range" | "lowdegree" => Some((k.db.identities, k.db.bus_interactions)),
        _ => None,
    };
    if let Some((a, b)) = lim {
        if maxdeg(k.new.cons.iter()) > a || maxdeg(fields(&k.new)) > b {
            res.clauses.push("degree".into());
        }
    }
    res
}
pub fn case_json(k: &Case, s: &Screen) -> Value {
    let one = |o: &[usize]| o.iter().map(|x| x + 1).collect::<Vec<_>>();
    json!({"pass": k.pass, "toy": k.toy.json(), "nv": s.nv.max(1), "db": [k.db.identities, k.db.bus_interactions],
        "orig": k.orig.json(), "new": k.new.json(), "oorig": one(&s.oorig), "onew": one(&s.onew), "res": k.res, "msg": k.msg,
        "assign": k.assign.iter().map(|(x, e)| json!({"v": x + 1, "e": e.json()})).collect::<Vec<_>>(),
        "claims": k.claims.iter().map(|(x, l)| json!({"v": x + 1, "vals": l})).collect::<Vec<_>>(),
        "parts": k.parts.iter().map(|l| one(l)).collect::<Vec<_>>(),
        "suspect": s.clauses,
        "text": format!("pass {} db {:?}\norig:\n{}new:\n{}assignments {:?}", k.pass, k.db, k.orig.show(), k.new.show(), k.assign.iter().map(|(x, e)| format!("v{} = {}", x + 1, e.show())).collect::<Vec<_>>())})
}
pub fn cases(seed: u64, n: u64, passes: &str, sample: usize, limit: usize, path: &str) {
    let passes: Vec<&'static str> = PASSES.iter().chain(&["memory", "exec"]).copied().filter(|p| passes == "all" || passes.split(',').any(|q| q == *p)).collect();
    let (mut sus, mut rest): (Vec<(usize, String)>, Vec<String>) = (vec![], vec![]);
    let mut per = vec![0usize; passes.len()];
    let (mut sat, mut changed, mut toobig) = (0u64, 0u64, 0u64);
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let pi = (i as usize) % passes.len();
        let k = make(&mut r, passes[pi]);
        if k.res == "skip" {
            continue;
        }
        let s = screen(&k);
        sat += s.sat as u64;
        toobig += s.size.is_none() as u64;
        let ch = k.orig != k.new || !k.claims.is_empty();
        changed += ch as u64;
        if !s.clauses.is_empty() {
            sus.push((s.size.unwrap_or(usize::MAX), case_json(&k, &s).to_string()));
        } else if ch && s.sat && per[pi] * passes.len() < sample && s.size.is_some_and(|x| x <= limit) {
            per[pi] += 1;
            rest.push(case_json(&k, &s).to_string());
        }
    }
    sus.sort();
    let w = rest.len() + sus.len().min(6);
    let f: String = sus.iter().take(6).map(|x| &x.1).chain(&rest).flat_map(|l| [l.as_str(), "\n"]).collect();
    std::fs::write(path, f).unwrap();
    println!("{}", json!({"cases": n, "satisfiable": sat, "changed": changed, "too_big": toobig, "suspicious": sus.len(), "written": w}));
}
