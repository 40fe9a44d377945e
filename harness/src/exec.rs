//! C09/C10: histories of the execution-time candidate tracker and of the assumption evaluator.
use crate::adapter::ToyState;
use crate::rng::Rng;
use powdr_autoprecompiles::execution::*;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Con = OptimisticConstraint<u8, u64>;
type Ex = OptimisticExpression<u8, u64>;

pub fn ex_json(e: &Ex) -> Value {
    match e {
        OptimisticExpression::Number(v) => json!([0, v, 0, 0]),
        OptimisticExpression::Literal(l) => match l.val {
            LocalOptimisticLiteral::Pc => json!([1, l.instr_idx, 0, 0]),
            LocalOptimisticLiteral::RegisterLimb(a, i) => json!([2, l.instr_idx, a, i]),
        },
    }
}
pub fn con_json(c: &Con) -> Value {
    json!([ex_json(&c.left), ex_json(&c.right)])
}
fn ex(r: &mut Rng, len: usize) -> Ex {
    let instr_idx = r.below(len as u64 + 1) as usize;
    match r.below(5) {
        0 => OptimisticExpression::Number(r.below(4)),
        1 => OptimisticExpression::Literal(OptimisticLiteral { instr_idx, val: LocalOptimisticLiteral::Pc }),
        _ => OptimisticExpression::Literal(OptimisticLiteral {
            instr_idx,
            val: LocalOptimisticLiteral::RegisterLimb(r.below(2) as u8, r.below(2) as usize),
        }),
    }
}
fn eval(e: &Ex, h: &[ToyState]) -> u64 {
    match e {
        OptimisticExpression::Number(v) => *v,
        OptimisticExpression::Literal(l) => match l.val {
            LocalOptimisticLiteral::Pc => h[l.instr_idx].pc,
            LocalOptimisticLiteral::RegisterLimb(a, i) => ToyState::value_limb(h[l.instr_idx].regs[a as usize], i),
        },
    }
}
/// Mostly constraints that hold on the window starting at `at` (so that candidates survive for a while).
pub fn cons(r: &mut Rng, len: usize, run: &[ToyState], at: usize) -> Vec<Con> {
    let mut out = vec![];
    for _ in 0..r.below(5) {
        let mut c = Con { left: ex(r, len), right: ex(r, len) };
        if at + len < run.len() && r.chance(7, 8) {
            let w = &run[at..=at + len];
            for _ in 0..20 {
                if eval(&c.left, w) == eval(&c.right, w) {
                    break;
                }
                c = Con { left: ex(r, len), right: ex(r, len) };
            }
            if eval(&c.left, w) != eval(&c.right, w) {
                c.right = OptimisticExpression::Number(eval(&c.left, w));
            }
        }
        out.push(c);
    }
    out
}
pub fn run(r: &mut Rng, n: usize) -> Vec<ToyState> {
    let clk = r.below(50) as usize;
    let mut regs = [r.below(16), r.below(16)];
    let mut pc = r.below(4);
    (0..n)
        .map(|i| {
            if r.chance(1, 2) {
                regs[r.below(2) as usize] = r.below(16);
            }
            pc = if r.chance(1, 3) { r.below(4) } else { (pc + 1) % 4 };
            ToyState { pc, regs, clk: clk + i }
        })
        .collect()
}
fn st_json(s: &ToyState) -> Value {
    json!([s.pc, s.regs[0], s.regs[1]])
}

pub fn evaluator(seed: u64, n: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let (mut ok, mut bad) = (0, 0);
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let r = &mut r;
        let len = r.below(6) as usize;
        let states = run(r, len + 1);
        let cs = cons(r, len, &states, 0);
        let mut res = vec![];
        let panicked = catch_unwind(AssertUnwindSafe(|| {
            let o = OptimisticConstraints::from_constraints(cs.clone());
            let mut e = OptimisticConstraintEvaluator::new();
            for s in &states {
                match e.try_next_execution_step(s, &o) {
                    Ok(()) => res.push(e.instruction_index() as i64),
                    Err(_) => {
                        res.push(-1);
                        break;
                    }
                }
            }
        }))
        .is_err();
        if panicked {
            res.push(-2);
        }
        if res.last() == Some(&-1) { bad += 1 } else { ok += 1 }
        let line = json!({"cons": cs.iter().map(con_json).collect::<Vec<_>>(),
            "states": states.iter().map(st_json).collect::<Vec<_>>(), "res": res});
        writeln!(f, "{line}").unwrap();
    }
    println!("{}", json!({"cases": n, "accepted": ok, "rejected": bad}));
}

#[derive(Clone)]
struct TApc {
    len: usize,
    prio: usize,
    cons: Vec<Con>,
    oc: OptimisticConstraints<u8, u64>,
}
impl Apc<ToyState> for TApc {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u8, u64> {
        &self.oc
    }
    fn cycle_count(&self) -> usize {
        self.len
    }
    fn priority(&self) -> usize {
        self.prio
    }
}

pub fn candidates(seed: u64, n: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut tot = [0u64; 6];
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let r = &mut r;
        let steps = r.range(3, 14) as usize;
        let states = run(r, steps);
        let prios = r.range(1, 3);
        let apcs: Vec<TApc> = (0..r.range(1, 4))
            .map(|_| {
                let len = r.range(1, 5) as usize;
                let at = r.below(steps as u64) as usize;
                let cons = if r.chance(1, 2) { vec![] } else { cons(r, len, &states, at) };
                TApc { len, prio: r.below(prios) as usize, oc: OptimisticConstraints::from_constraints(cons.clone()), cons }
            })
            .collect();
        let mut t: ApcCandidates<ToyState, TApc, usize> = ApcCandidates::new(apcs.clone());
        let mut ev: Vec<Value> = vec![];
        let insert_rate = r.range(1, 3);
        let extract_rate = r.range(1, 6);
        let abort_rate = r.below(2);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut id = 0usize; // every event is a distinct moment: its number is the snapshot
            for (k, s) in states.iter().enumerate() {
                if k > 0 {
                    id += 1;
                    let mut called = 0;
                    let calls = std::cell::RefCell::new(&mut called);
                    t.check_conditions(s, || {
                        **calls.borrow_mut() += 1;
                        id
                    });
                    ev.push(json!({"t": "check", "st": st_json(s), "id": id}));
                }
                let end = k + 1 == states.len();
                for _ in 0..r.below(4) {
                    id += 1;
                    match r.below(8) {
                        x if x < 1 + insert_rate => {
                            let a = r.below(apcs.len() as u64) as usize;
                            let ok = t.try_insert(s, a, || id).is_ok();
                            tot[if ok { 0 } else { 1 }] += 1;
                            ev.push(json!({"t": "insert", "st": st_json(s), "id": id, "apc": a + 1, "ok": ok}));
                        }
                        x if x < 1 + insert_rate + extract_rate.min(3) => {
                            let c = t.extract_calls();
                            tot[2] += 1;
                            tot[3] += c.len() as u64;
                            ev.push(json!({"t": "extract", "id": id,
                                "calls": c.iter().map(|c| json!([c.apc_id + 1, c.from, c.to])).collect::<Vec<_>>()}));
                        }
                        7 if abort_rate == 1 => {
                            let ids = t.abort_in_progress();
                            tot[4] += ids.len() as u64;
                            ev.push(json!({"t": "abort", "id": id, "ids": ids.iter().map(|x| x + 1).collect::<Vec<_>>()}));
                        }
                        _ => {}
                    }
                }
                if end {
                    id += 1;
                    let ids = t.abort_in_progress();
                    tot[4] += ids.len() as u64;
                    ev.push(json!({"t": "abort", "id": id, "ids": ids.iter().map(|x| x + 1).collect::<Vec<_>>()}));
                    id += 1;
                    let c = t.extract_calls();
                    tot[2] += 1;
                    tot[3] += c.len() as u64;
                    ev.push(json!({"t": "extract", "id": id,
                        "calls": c.iter().map(|c| json!([c.apc_id + 1, c.from, c.to])).collect::<Vec<_>>()}));
                }
            }
        }));
        if res.is_err() {
            ev.push(json!({"t": "panic", "id": 0}));
        }
        tot[5] += ev.len() as u64;
        let line = json!({"apcs": apcs.iter().map(|a| json!({"len": a.len, "prio": a.prio,
            "cons": a.cons.iter().map(con_json).collect::<Vec<_>>()})).collect::<Vec<_>>(), "ev": ev});
        writeln!(f, "{line}").unwrap();
    }
    println!("{}", json!({"cases": n, "started": tot[0], "refused": tot[1], "extractions": tot[2],
        "calls": tot[3], "aborted": tot[4], "events": tot[5]}));
}
