//! C27: execution profiles and the cost figures of a built precompile.
use crate::adapter::*;
use crate::build;
use crate::rng::Rng;
use crate::sys::*;
use powdr_autoprecompiles::evaluation::evaluate_apc;
use powdr_autoprecompiles::execution_profile::execution_profile;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One thing the program under profile reports; only instructions carry a `pc`.
#[derive(Clone, Copy)]
enum Ev {
    Instr(u8, u64, u64),
    Other(u8, u64),
    Span(u64, u64),
    Thread(u64),
}
fn emit(e: Ev) {
    match e {
        Ev::Instr(0, pc, _) => tracing::trace!(pc = pc),
        Ev::Instr(1, pc, x) => tracing::trace!(pc = pc, opcode = x, "executed"),
        Ev::Instr(2, pc, x) => tracing::debug!(clk = x, pc = pc),
        Ev::Instr(3, pc, _) => tracing::info!(opcode = "add", pc = pc, taken = true),
        Ev::Instr(4, pc, x) => tracing::trace!(target: "vm", next_pc = x, pc = pc),
        Ev::Instr(_, pc, x) => tracing::event!(tracing::Level::TRACE, pc, next_pc = x),
        Ev::Other(0, x) => tracing::trace!(next_pc = x),
        Ev::Other(1, x) => tracing::trace!("pc {}", x),
        Ev::Other(2, x) => tracing::info!(clk = x, opcode = x),
        Ev::Other(_, x) => tracing::warn!(pc_min = x, PC = x),
        Ev::Span(x, pc) => {
            let s = tracing::trace_span!("segment", clk = x);
            let _g = s.enter();
            tracing::trace!(pc = pc);
        }
        // another thread's events belong to another run
        Ev::Thread(x) => std::thread::spawn(move || tracing::trace!(pc = x)).join().unwrap(),
    }
}
fn ev_json(e: Ev) -> Value {
    match e {
        Ev::Instr(_, pc, _) | Ev::Span(_, pc) => json!([1, pc]),
        Ev::Other(_, x) => json!([0, x]),
        Ev::Thread(x) => json!([2, x]),
    }
}

pub fn cases(seed: u64, n: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let (mut events, mut apcs) = (0u64, 0u64);
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let big = r.chance(1, 6);
        let pcs = r.range(1, 6);
        let base = if big { 1u64 << r.range(20, 30) } else { 0 };
        let mut evs: Vec<Ev> = (0..r.below(24))
            .map(|_| {
                let (pc, x) = (base + 4 * r.below(pcs), r.below(9));
                match r.below(12) {
                    0 => Ev::Other(r.below(4) as u8, pc),
                    1 => Ev::Span(x, pc),
                    2 if r.chance(1, 3) => Ev::Thread(pc),
                    _ => Ev::Instr(r.below(6) as u8, pc, x),
                }
            })
            .collect();
        let at = r.below(evs.len() as u64 + 1) as usize;
        evs.insert(at, Ev::Instr(0, base, 0));
        let prog = ToyProgram { base, instrs: vec![] };
        let before = r.chance(1, 2);
        let res = catch_unwind(AssertUnwindSafe(|| {
            if before {
                emit(Ev::Instr(0, 4242, 0)); // not part of the profiled run
            }
            let p = execution_profile::<ToyAdapter>(&prog, || evs.iter().for_each(|e| emit(*e)));
            emit(Ev::Instr(0, 4242, 0));
            p
        }));
        events += evs.len() as u64;
        let mut line = json!({"k": "profile", "ev": evs.iter().map(|e| ev_json(*e)).collect::<Vec<_>>(), "ok": res.is_ok()});
        if let Ok(p) = res {
            let o = line.as_object_mut().unwrap();
            let mut c: Vec<_> = p.pc_count.iter().map(|(a, b)| (*a, *b)).collect();
            c.sort();
            o.insert("list".into(), json!(p.pc_list));
            o.insert("count".into(), json!(c));
        }
        writeln!(f, "{line}").unwrap();
        if i % 4 == 0 {
            let k = build::gen_case(r, true, 5);
            if let build::Out::Ok(apc) = build::run(&k, None) {
                apcs += 1;
                let new = from_machine(&apc.machine);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let s = evaluate_apc::<ToyAdapter>(&k.handler, apc);
                    let e = s.evaluation_result();
                    [e.before, e.after].map(|a| [a.main_columns, a.constraints, a.bus_interactions])
                }));
                let line = json!({"k": "cost", "ok": res.is_ok(), "airs": k.air_of.iter().map(|a| a + 1).collect::<Vec<_>>(),
                    "circuits": k.airs.iter().map(|a| a.sys.json()).collect::<Vec<_>>(), "new": new.json(), "res": res.ok()});
                writeln!(f, "{line}").unwrap();
            }
        }
    }
    println!("{}", json!({"cases": n, "events": events, "precompiles": apcs}));
}
