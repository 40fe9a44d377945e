//! C11, C12, C13, C23: block detection, execution statistics, selection, program-counter assumptions.
use crate::adapter::*;
use crate::fp::{set_p, Fp};
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::{bus_map, ToyHandler};
use powdr_autoprecompiles::adapter::PgoAdapter;
use powdr_autoprecompiles::blocks::{collect_basic_blocks, detect_superblocks, BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::execution::{OptimisticConstraintEvaluator, OptimisticConstraints};
use powdr_autoprecompiles::execution_profile::ExecutionProfile;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::pgo::{CellPgo, InstructionPgo, NonePgo};
use powdr_autoprecompiles::{build, DegreeBound, PowdrConfig, VmConfig};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn instr(i: usize, branching: bool, allowed: bool) -> ToyInstr {
    ToyInstr { op: 0, args: vec![i as u64], branching, allowed }
}

fn block_json(b: &BasicBlock<ToyInstr>) -> Value {
    json!({"pc": b.start_pc, "ids": b.instructions.iter().map(|i| i.args[0]).collect::<Vec<_>>(),
           "pcs": b.pcs().collect::<Vec<_>>(),
           "ipcs": b.instructions().map(|(p, _)| p).collect::<Vec<_>>()})
}

/// flags per instruction: bit 0 allowed, bit 1 branching, bit 2 jump target
fn block_case(base: u64, step: u32, flags: &[u64], extra: &[u64]) -> Value {
    set_pc_step(step);
    let prog = ToyProgram {
        base,
        instrs: flags.iter().enumerate().map(|(i, f)| instr(i + 1, f & 2 != 0, f & 1 != 0)).collect(),
    };
    let mut t: BTreeSet<u64> = extra.iter().copied().collect();
    for (i, f) in flags.iter().enumerate() {
        let pc = base + i as u64 * step as u64;
        t.remove(&pc);
        if f & 4 != 0 {
            t.insert(pc);
        }
    }
    let out = catch_unwind(AssertUnwindSafe(|| collect_basic_blocks::<ToyAdapter>(&prog, &t)));
    let (ok, blocks) = match out {
        Ok(b) => (true, b.iter().map(block_json).collect()),
        Err(_) => (false, vec![]),
    };
    json!({"base": base, "step": step, "flags": flags, "ok": ok, "blocks": blocks})
}

pub fn basic(seed: u64, n: u64, shard: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut count = 0;
    // every program of up to 4 instructions (first shard of each run splits them)
    let mut idx = 0u64;
    for len in 0..=4u32 {
        for code in 0..8u64.pow(len) {
            idx += 1;
            if idx % 8 != shard {
                continue;
            }
            let flags: Vec<u64> = (0..len).map(|i| code >> (3 * i) & 7).collect();
            writeln!(f, "{}", block_case(8, 4, &flags, &[4, 7, 9])).unwrap();
            count += 1;
        }
    }
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let len = r.range(5, 24);
        let (pa, pb, pt) = (r.range(1, 12), r.below(8), r.below(8));
        let flags: Vec<u64> = (0..len)
            .map(|_| {
                (r.below(12) < pa) as u64 | ((r.below(12) < pb) as u64) << 1 | ((r.below(12) < pt) as u64) << 2
            })
            .collect();
        let step = *r.pick(&[1u32, 2, 4, 4, 8]);
        let base = r.below(100) * 4;
        let extra: Vec<u64> = (0..r.below(4)).map(|_| r.below(200)).collect();
        writeln!(f, "{}", block_case(base, step, &flags, &extra)).unwrap();
        count += 1;
    }
    println!("{}", json!({"cases": count}));
}

struct Run {
    blocks: Vec<BasicBlock<ToyInstr>>,
    /// executed blocks, in order
    exec: Vec<usize>,
    pcs: Vec<u64>,
    cfg: PowdrConfig,
}
fn bound() -> DegreeBound {
    DegreeBound { identities: 3, bus_interactions: 2 }
}
fn gen_run(r: &mut Rng, max_bb: u64) -> Run {
    let step = *r.pick(&[1u32, 4]);
    set_pc_step(step);
    let nb = r.range(1, 5) as usize;
    let mut pc = r.below(5) * 4;
    let mut id = 0;
    let mut blocks = vec![];
    for _ in 0..nb {
        let len = if r.chance(1, 4) { 1 } else { r.range(2, 4) as usize };
        let b = BasicBlock {
            start_pc: pc,
            instructions: (0..len)
                .map(|_| {
                    id += 1;
                    instr(id, false, true)
                })
                .collect(),
        };
        pc += len as u64 * step as u64;
        blocks.push(b);
    }
    // executions with repetitive structure
    let mut exec: Vec<usize> = vec![];
    let len = r.below(16) as usize;
    while exec.len() < len {
        if exec.len() >= 2 && r.chance(1, 3) {
            let k = r.range(1, exec.len().min(4) as u64) as usize;
            let t = exec[exec.len() - k..].to_vec();
            exec.extend(t);
        } else {
            exec.push(r.below(nb as u64) as usize);
        }
    }
    let pcs = exec.iter().flat_map(|b| blocks[*b].pcs().collect::<Vec<_>>()).collect();
    for i in (1..blocks.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        if i != j {
            blocks.swap(i, j);
            exec.iter_mut().for_each(|x| *x = if *x == i { j } else if *x == j { i } else { *x });
        }
    }
    let mut cfg = PowdrConfig::new(r.below(5), r.below(3), bound()).with_superblocks(
        r.range(1, max_bb) as u8,
        r.chance(1, 3).then(|| r.range(1, 9) as u32),
        r.chance(1, 3).then(|| r.below(5) as u32),
    );
    cfg.apc_candidates_dir_path = None;
    Run { blocks, exec, pcs, cfg }
}
fn run_json(k: &Run) -> serde_json::Map<String, Value> {
    let v = json!({
        "blocks": k.blocks.iter().map(block_json).collect::<Vec<_>>(),
        "exec": k.exec.iter().map(|x| x + 1).collect::<Vec<_>>(),
        "maxbb": k.cfg.superblock_max_bb_count, "maxin": k.cfg.apc_max_instructions.min(1_000_000),
        "cutoff": k.cfg.apc_exec_count_cutoff, "n": k.cfg.autoprecompiles, "skip": k.cfg.skip_autoprecompiles});
    v.as_object().unwrap().clone()
}

pub fn superblocks(seed: u64, n: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut found = 0;
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let k = gen_run(r, 4);
        let out = catch_unwind(AssertUnwindSafe(|| detect_superblocks(&k.cfg, &k.pcs, k.blocks.clone())));
        let mut line = run_json(&k);
        match out {
            Ok(e) => {
                found += e.blocks.len();
                line.insert("ok".into(), json!(true));
                line.insert("runs".into(), json!(e.execution_bb_runs.iter().map(|(r, c)| json!({"pcs": r.0, "n": c})).collect::<Vec<_>>()));
                line.insert("found".into(), json!(e.blocks.iter().map(|b| json!({
                    "pcs": b.block.start_pcs(), "n": b.count,
                    "ipcs": b.block.pcs().collect::<Vec<_>>(),
                    "ids": b.block.instructions().map(|(_, i)| i.args[0]).collect::<Vec<_>>(),
                    "iipcs": b.block.instructions().map(|(p, _)| p).collect::<Vec<_>>(),
                    "offs": b.block.instruction_indexed_start_pcs().iter().map(|(i, p)| json!([i, p])).collect::<Vec<_>>(),
                })).collect::<Vec<_>>()));
            }
            Err(_) => {
                line.insert("ok".into(), json!(false));
                line.insert("runs".into(), json!([]));
                line.insert("found".into(), json!([]));
            }
        }
        writeln!(f, "{}", Value::Object(line)).unwrap();
    }
    println!("{}", json!({"cases": n, "found": found}));
}

/// The smallest instruction circuit the builder accepts.
pub fn tiny_air() -> Sys {
    let p = crate::fp::p();
    let (valid, pc, ts, op, arg) = (E::V(0), E::V(1), E::V(2), E::V(3), E::V(4));
    let neg = E::Neg(Box::new(valid.clone()));
    let add = |a: &E, n: u64| E::Add(Box::new(a.clone()), Box::new(E::C(n % p)));
    let mut s = Sys::default();
    s.bus.push(Bus { id: EXEC, mult: neg, args: vec![pc.clone(), ts.clone()] });
    s.bus.push(Bus { id: EXEC, mult: valid.clone(), args: vec![E::V(5), add(&ts, 1)] });
    s.bus.push(Bus { id: PC, mult: valid.clone(), args: vec![pc, op, arg] });
    s.cons.push(E::Mul(Box::new(valid.clone()), Box::new(add(&valid, p - 1))));
    s
}
fn tiny_airs() -> ToyAirs {
    ToyAirs { machines: vec![to_machine::<Fp>(&tiny_air())], air_of_op: vec![0], stats: HashMap::new(), bound: Some(bound()) }
}

pub fn pgo(seed: u64, n: u64, path: &str) {
    set_p(13);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut chosen = 0;
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let kind = r.below(6).min(2); // 0 none, 1 instruction, 2 cell
        let mut k = gen_run(r, if kind == 2 { 3 } else { 1 });
        if r.chance(1, 2) {
            k.cfg.autoprecompiles = 10;
        }
        let mut airs = tiny_airs();
        // made-up costs and values for every block sequence that can occur
        let mut seqs: BTreeSet<Vec<usize>> = BTreeSet::new();
        for len in 1..=3 {
            seqs.extend(k.exec.windows(len).map(|w| w.to_vec()));
        }
        let scale = r.range(1, 9);
        let mut stats = vec![];
        for s in &seqs {
            let st = ToyStats { before: r.range(1, 40) as usize, after: r.range(1, scale) as usize, value: r.below(8) as usize };
            let pcs: Vec<u64> = s.iter().map(|x| k.blocks[*x].start_pc).collect();
            stats.push(json!({"pcs": pcs, "cost": st.after, "value": st.value}));
            airs.stats.insert(pcs, st);
        }
        let budget = r.chance(2, 3).then(|| r.below(scale * 4) as usize);
        let prof = ExecutionProfile {
            pc_count: k.pcs.iter().fold(HashMap::new(), |mut m, p| {
                *m.entry(*p).or_insert(0) += 1;
                m
            }),
            pc_list: k.pcs.clone(),
        };
        let vm = VmConfig { instruction_handler: &airs, bus_interaction_handler: ToyHandler(Toy::for_p(13)), bus_map: bus_map() };
        let out = catch_unwind(AssertUnwindSafe(|| {
            let (l, e) = (Default::default(), EmpiricalConstraints::default());
            let b = k.blocks.clone();
            let res = match kind {
                0 => NonePgo::<ToyAdapter>::default().filter_blocks_and_create_apcs_with_pgo(b, &k.cfg, vm, l, e),
                1 => InstructionPgo::<ToyAdapter>::with_pgo_data(prof).filter_blocks_and_create_apcs_with_pgo(b, &k.cfg, vm, l, e),
                _ => CellPgo::<ToyAdapter, ToyCandidate>::with_pgo_data_and_max_columns(prof, budget)
                    .filter_blocks_and_create_apcs_with_pgo(b, &k.cfg, vm, l, e),
            };
            res.iter().map(|a| a.apc().start_pcs()).collect::<Vec<_>>()
        }));
        let mut line = run_json(&k);
        line.insert("kind".into(), json!(["none", "instruction", "cell"][kind as usize]));
        line.insert("stats".into(), json!(stats));
        line.insert("budget".into(), json!(budget.unwrap_or(1_000_000)));
        line.insert("ok".into(), json!(out.is_ok()));
        let out = out.unwrap_or_default();
        chosen += out.len();
        line.insert("out".into(), json!(out));
        writeln!(f, "{}", Value::Object(line)).unwrap();
    }
    println!("{}", json!({"cases": n, "chosen": chosen}));
}

/// Windows of executed program counters against the assumptions of a built precompile.
pub fn windows(seed: u64, n: u64, path: &str) {
    set_p(13);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let (mut acc, mut rej, mut unbuilt) = (0, 0, 0);
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let step = *r.pick(&[1u32, 4]);
        set_pc_step(step);
        let nb = r.range(1, 4) as usize;
        let mut id = 0;
        let pool: Vec<BasicBlock<ToyInstr>> = (0..nb)
            .map(|j| BasicBlock {
                start_pc: 100 + 40 * j as u64,
                instructions: (0..r.range(1, 3))
                    .map(|_| {
                        id += 1;
                        instr(id, false, true)
                    })
                    .collect(),
            })
            .collect();
        let seq: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(nb as u64) as usize).collect();
        let sb: SuperBlock<ToyInstr> = seq.iter().map(|x| pool[*x].clone()).collect::<Vec<_>>().into();
        let total = sb.instructions().count();
        let good: Vec<u64> = sb.pcs().chain([r.below(300)]).collect();
        let airs = tiny_airs();
        let vm = VmConfig { instruction_handler: &airs, bus_interaction_handler: ToyHandler(Toy::for_p(13)), bus_map: bus_map() };
        let apc = match catch_unwind(AssertUnwindSafe(|| {
            build::<ToyAdapter>(sb, vm, bound(), ExportOptions::default(), &EmpiricalConstraints::default())
        })) {
            Ok(Ok(a)) => a,
            _ => {
                unbuilt += 1;
                writeln!(f, "{}", json!({"step": step, "blocks": [[0, 1]], "starts": [], "windows": []})).unwrap();
                continue;
            }
        };
        // the assumptions must survive being saved
        let oc: OptimisticConstraints<u8, u64> = if r.chance(1, 2) {
            apc.optimistic_constraints.clone()
        } else {
            serde_json::from_str(&serde_json::to_string(&apc.optimistic_constraints).unwrap()).unwrap()
        };
        let mut ws = vec![];
        for _ in 0..5 {
            let mut w = good.clone();
            match r.below(5) {
                0 => {}
                1 => {
                    let j = r.below(total as u64 + 1) as usize;
                    w[j] = r.below(300);
                }
                2 => {
                    let j = r.below(total as u64) as usize;
                    w[j] = pool[r.below(nb as u64) as usize].start_pc;
                }
                3 => {
                    // another block sequence
                    let mut x: Vec<u64> = vec![];
                    while x.len() < w.len() {
                        x.extend(pool[r.below(nb as u64) as usize].pcs());
                    }
                    x.truncate(w.len());
                    w = x;
                }
                _ => w.iter_mut().for_each(|x| *x += 1),
            }
            let mut e = OptimisticConstraintEvaluator::new();
            let mut res = 0i64;
            for (j, pc) in w.iter().enumerate() {
                let s = ToyState { pc: *pc, regs: [0, 0], clk: j };
                if e.try_next_execution_step(&s, &oc).is_err() {
                    res = -1;
                    break;
                }
                res = j as i64 + 1;
            }
            if res < 0 { rej += 1 } else { acc += 1 }
            ws.push(json!({"pcs": w, "res": res}));
        }
        let line = json!({"step": step, "blocks": seq.iter().map(|x| json!([pool[*x].start_pc, pool[*x].instructions.len()])).collect::<Vec<_>>(),
            "starts": apc.start_pcs(), "windows": ws});
        writeln!(f, "{line}").unwrap();
    }
    println!("{}", json!({"cases": n, "accepted": acc, "rejected": rej, "unbuilt": unbuilt}));
}
