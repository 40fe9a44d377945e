//! C26: which columns of a block can be checked at run time, and what the builder assumes about a block.
use crate::adapter::*;
use crate::fp::{set_p, Fp};
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::*;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::*;
use powdr_autoprecompiles::execution::*;
use powdr_autoprecompiles::export::{ExportLevel, ExportOptions};
use powdr_autoprecompiles::optimistic::execution_constraint_generator::generate_execution_constraints;
use powdr_autoprecompiles::optimistic::execution_literals::optimistic_literals;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{build, DegreeBound, VmConfig};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

const REGS: u64 = 4;

/// How an honest prover fills a column (columns are filled in order).
#[derive(Clone)]
enum Fill {
    Flag(usize),
    Pc,
    Ts,
    Arg(usize),
    /// limb of what the access reads (the last one is the time it was written)
    Old(usize, usize),
    Expr(E),
    /// 1 if the expression is zero
    IsZero(E),
    /// inverse of the expression, 0 if zero
    Inv(E),
}
#[derive(Clone)]
struct Access {
    space: u64,
    addr: E,
    new: Vec<E>,
}
struct Air {
    sys: Sys,
    fill: Vec<Fill>,
    acc: Vec<Access>,
    nargs: usize,
    ops: Vec<usize>,
}

fn gen_air(r: &mut Rng, p: u64, first_op: usize, step: u64, limbs: usize) -> Air {
    let two = r.chance(1, 3);
    let nargs = r.range(2, 4) as usize;
    let mut fill: Vec<Fill> = vec![];
    let mut s = Sys::default();
    macro_rules! col {
        ($f:expr) => {{
            fill.push($f);
            fill.len() - 1
        }};
    }
    let flags: Vec<usize> = (0..if two { 2 } else { 1 }).map(|i| col!(Fill::Flag(i))).collect();
    let valid = || if two { v(0) + v(1) } else { v(0) };
    for f in &flags {
        s.cons.push(v(*f) * (v(*f) - c(1)));
    }
    let ops: Vec<usize> = (0..flags.len()).map(|i| first_op + i).collect();
    let op = if two { c(ops[0] as u64) * v(0) + c(ops[1] as u64) * v(1) } else { c(ops[0] as u64) };
    let pc = col!(Fill::Pc);
    let ts = col!(Fill::Ts);
    let args: Vec<usize> = (0..nargs).map(|i| col!(Fill::Arg(i))).collect();
    let mut row = vec![v(pc), op];
    row.extend(args.iter().map(|a| v(*a)));
    let lookup = Bus { id: PC, mult: valid(), args: row };
    let recv = Bus { id: EXEC, mult: -valid(), args: vec![v(pc), v(ts)] };
    let nacc = r.range(1, 4) as usize;
    let send = Bus { id: EXEC, mult: valid(), args: vec![v(pc) + c(step % p), v(ts) + c(nacc as u64)] };
    let mut head = vec![recv, lookup, send];
    if r.chance(1, 2) {
        head.swap(1, 2);
    }
    s.bus.extend(head);
    let mut acc = vec![];
    let mut vals: Vec<usize> = vec![]; // columns holding data
    let mut unknown_used = false;
    for i in 0..nacc {
        let mem = !vals.is_empty() && !unknown_used && r.chance(1, 3);
        let (space, addr) = if mem {
            unknown_used = true;
            (2, v(*r.pick(&vals)) + v(*r.pick(&args)))
        } else {
            (1, if r.chance(1, 8) { c(r.below(REGS)) } else { v(args[i % nargs]) })
        };
        let old: Vec<usize> = (0..limbs).map(|l| col!(Fill::Old(i, l))).collect();
        let old_e: Vec<E> = old.iter().map(|x| v(*x)).collect();
        let t0 = v(col!(Fill::Old(i, limbs)));
        let write = i + 1 == nacc && r.chance(3, 4) || r.chance(1, 8);
        if !write {
            vals.extend(&old);
        }
        let new: Vec<E> = if write {
            (0..limbs)
                .map(|_| {
                    let a = |r: &mut Rng| if vals.is_empty() || r.chance(1, 4) { v(*r.pick(&args)) } else { v(*r.pick(&vals)) };
                    let e = match r.below(8) {
                        0 => c(r.below(p)),
                        1 => a(r) + a(r),
                        2 => a(r) * a(r),
                        3 => a(r) + c(1),
                        4 | 5 => a(r),
                        6 if two => v(0) * a(r) + v(1) * a(r),
                        _ => {
                            // equality with an inverse hint
                            let d = a(r) - a(r);
                            let z = col!(Fill::IsZero(d.clone()));
                            let h = col!(Fill::Inv(d.clone()));
                            s.cons.push(v(z) * d.clone());
                            s.cons.push(d * v(h) + v(z) - c(1));
                            v(z)
                        }
                    };
                    if r.chance(2, 3) {
                        let z = col!(Fill::Expr(e.clone()));
                        s.cons.push(if r.chance(1, 3) { valid() * (v(z) - e) } else { v(z) - e });
                        v(z)
                    } else {
                        e
                    }
                })
                .collect()
        } else {
            old_e.clone()
        };
        let m = |e: Vec<E>, t: E| {
            let mut a = vec![c(space), addr.clone()];
            a.extend(e);
            a.push(t);
            a
        };
        s.bus.push(Bus { id: MEM, mult: -valid(), args: m(old_e, t0) });
        s.bus.push(Bus { id: MEM, mult: valid(), args: m(new.clone(), v(ts) + c(i as u64)) });
        acc.push(Access { space, addr, new });
    }
    Air { sys: s, fill, acc, nargs, ops }
}

type Mem = BTreeMap<(u64, u64), Vec<u64>>;
impl Air {
    fn run(&self, p: u64, mem: &mut Mem, pc: u64, ts: u64, i: &ToyInstr) -> Vec<u64> {
        let mut row: Vec<u64> = vec![];
        let mut done = 0;
        let at = |row: &[u64], a: &Access| (a.space, a.addr.eval(p, row));
        for f in &self.fill {
            let x = match f {
                Fill::Flag(j) => (i.op == self.ops[*j]) as u64,
                Fill::Pc => pc % p,
                Fill::Ts => ts % p,
                Fill::Arg(j) => i.args[*j],
                Fill::Old(a, l) => {
                    // earlier accesses have all their columns by now
                    while done < *a {
                        let k = at(&row, &self.acc[done]);
                        let new = self.acc[done].new.iter().map(|e| e.eval(p, &row)).chain([(ts + done as u64) % p]).collect();
                        mem.insert(k, new);
                        done += 1;
                    }
                    let k = at(&row, &self.acc[*a]);
                    mem[&k][*l]
                }
                Fill::Expr(e) => e.eval(p, &row),
                Fill::IsZero(e) => (e.eval(p, &row) == 0) as u64,
                Fill::Inv(e) => {
                    let k = e.eval(p, &row);
                    (0..p).find(|x| x * k % p == 1).unwrap_or(0)
                }
            };
            row.push(x);
        }
        while done < self.acc.len() {
            let k = at(&row, &self.acc[done]);
            let new = self.acc[done].new.iter().map(|e| e.eval(p, &row)).chain([(ts + done as u64) % p]).collect();
            mem.insert(k, new);
            done += 1;
        }
        row
    }
}

pub fn cases(seed: u64, n: u64, path: &str) {
    let mut out = String::new();
    let dir = std::path::PathBuf::from(format!("{path}.exp"));
    let mut tot = [0u64; 5];
    for ci in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + ci);
        let p = *r.pick(&[11u64, 13, 19]);
        set_p(p);
        let toy = Toy::for_p(p);
        let step = *r.pick(&[1u32, 4]);
        set_pc_step(step);
        let limbs = r.range(1, 3) as usize;
        let mut airs: Vec<Air> = vec![];
        let mut ops = 0;
        for _ in 0..r.range(1, 3) {
            let a = gen_air(r, p, ops, step as u64, limbs);
            ops += a.ops.len();
            airs.push(a);
        }
        let air_of_op: Vec<usize> = airs.iter().enumerate().flat_map(|(i, a)| a.ops.iter().map(move |_| i)).collect();
        // a small program of basic blocks and a sequence of them
        let mut pc = r.below(8);
        let blocks: Vec<BasicBlock<ToyInstr>> = (0..r.range(1, 3))
            .map(|_| {
                let len = r.range(1, 3);
                let b = BasicBlock {
                    start_pc: pc,
                    instructions: (0..len)
                        .map(|_| {
                            let op = r.below(ops as u64) as usize;
                            ToyInstr { op, args: (0..airs[air_of_op[op]].nargs).map(|_| r.below(REGS)).collect(), branching: false, allowed: true }
                        })
                        .collect(),
                };
                pc += len * step as u64 + r.below(2) * step as u64;
                b
            })
            .collect();
        let seq: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(blocks.len() as u64) as usize).collect();
        let block: SuperBlock<ToyInstr> = seq.iter().map(|i| blocks[*i].clone()).collect::<Vec<_>>().into();
        let pcs: Vec<u64> = block.pcs().collect();
        let instrs: Vec<ToyInstr> = seq.iter().flat_map(|i| blocks[*i].instructions.clone()).collect();
        let air_of: Vec<usize> = instrs.iter().map(|i| air_of_op[i.op]).collect();
        let offs: Vec<usize> = air_of.iter().scan(0, |o, a| { let x = *o; *o += airs[*a].fill.len(); Some(x) }).collect();
        let width: usize = air_of.iter().map(|a| airs[*a].fill.len()).sum();
        let db = DegreeBound { identities: 4, bus_interactions: r.range(2, 3) as usize };
        let handler = ToyAirs { machines: airs.iter().map(|a| to_machine::<Fp>(&a.sys)).collect(), air_of_op, stats: HashMap::new(), bound: Some(db) };
        // honest executions of the block (starting from different memories)
        let few = r.chance(1, 2);
        let runs: Vec<(Mem, Vec<u64>)> = (0..r.range(2, 5))
            .map(|_| {
                let mut mem: Mem = BTreeMap::new();
                for a in 0..REGS {
                    mem.insert((1, a), (0..=limbs).map(|_| r.below(if few { 2 } else { p })).collect());
                }
                for a in 0..p {
                    mem.insert((2, a), (0..=limbs).map(|_| r.below(if few { 2 } else { p })).collect());
                }
                let start = mem.clone();
                let ts = r.below(p);
                let mut t = ts;
                let mut row = vec![];
                for (i, ins) in instrs.iter().enumerate() {
                    let a = &airs[air_of[i]];
                    row.extend(a.run(p, &mut mem, pcs[i], t, ins));
                    t += a.acc.len() as u64;
                }
                (start, row)
            })
            .collect();
        // what would be observed about the first of these runs
        let ntrain = r.range(1, runs.len() as u64) as usize;
        let mut e = EmpiricalConstraints::default();
        for (i, pc) in pcs.iter().enumerate() {
            let w = airs[air_of[i]].fill.len();
            for (_, row) in &runs[..ntrain] {
                let cells = &row[offs[i]..offs[i] + w];
                let ranges = e.column_ranges_by_pc.entry(*pc as u32).or_insert_with(|| cells.iter().map(|x| (*x as u32, *x as u32)).collect());
                for (q, x) in ranges.iter_mut().zip(cells) {
                    *q = (q.0.min(*x as u32), q.1.max(*x as u32));
                }
                *e.pc_counts.entry(*pc as u32).or_insert(0) += 1;
            }
        }
        for (bi, b) in blocks.iter().enumerate() {
            // all executions of this basic block
            let starts: Vec<usize> = (0..seq.len()).filter(|i| seq[*i] == bi).map(|i| seq[..i].iter().map(|x| blocks[*x].instructions.len()).sum()).collect();
            let Some(s0) = starts.first() else { continue };
            let len = b.instructions.len();
            let cells: Vec<(usize, usize)> = (0..len).flat_map(|i| (0..airs[air_of[s0 + i]].fill.len()).map(move |c| (i, c))).collect();
            let sig = |(i, c): &(usize, usize)| -> Vec<u64> { runs[..ntrain].iter().flat_map(|(_, row)| starts.iter().map(|s| row[offs[s + i] + c]).collect::<Vec<_>>()).collect() };
            let mut cl: BTreeMap<Vec<u64>, Vec<BlockCell>> = BTreeMap::new();
            for k in &cells {
                cl.entry(sig(k)).or_default().push(BlockCell::new(k.0, k.1));
            }
            e.equivalence_classes_by_block.insert(b.start_pc, cl.into_values().collect());
        }
        let mut line = json!({"toy": toy.json(), "limbs": limbs, "offs": offs, "n": instrs.len(), "width": width, "train": ntrain,
            "airs": air_of.iter().map(|a| a + 1).collect::<Vec<_>>(),
            "circuits": airs.iter().map(|a| a.sys.json()).collect::<Vec<_>>(),
            "rows": runs.iter().map(|(m, row)| json!({"row": row,
                "regs": (0..REGS).map(|a| m[&(1, a)].clone()).collect::<Vec<_>>(),
                "mem": (0..p).map(|a| m[&(2, a)].clone()).collect::<Vec<_>>()})).collect::<Vec<_>>()});
        let vm = || VmConfig { instruction_handler: &handler, bus_interaction_handler: ToyHandler(toy.clone()), bus_map: bus_map() };
        let o = line.as_object_mut().unwrap();
        let mut text = String::new();
        for (i, a) in airs.iter().enumerate() {
            text += &format!("air {i} ops {:?}\n{}", a.ops, a.sys.show());
        }
        text += &format!("instructions {:?} pcs {pcs:?} db {db:?}", instrs.iter().map(|i| format!("{i}")).collect::<Vec<_>>());
        o.insert("text".into(), json!(text));
        let res = catch_unwind(AssertUnwindSafe(|| {
            let lits = optimistic_literals::<ToyAdapter>(&block, &vm(), &db);
            let lj: Vec<Value> = lits.iter().map(|(x, l)| match &l.val {
                LocalOptimisticLiteral::RegisterLimb(a, i) => json!([x.id + 1, l.instr_idx, a[0].0, a[1].0, i + 1]),
                LocalOptimisticLiteral::Pc => json!([x.id + 1, l.instr_idx, 0, 0, 0]),
            }).collect();
            // equalities over such columns, turned into conditions on execution states
            let refs: Vec<_> = lits.keys().cloned().collect();
            let mut eqs: Vec<EqualityConstraint<Fp>> = vec![];
            for _ in 0..if refs.is_empty() { 0 } else { r.below(5) } {
                let mut side = || if r.chance(1, 3) { EqualityExpression::Number(Fp::new(r.below(p))) } else { EqualityExpression::Reference(r.pick(&refs).clone()) };
                eqs.push(EqualityConstraint { left: side(), right: side() });
            }
            let side = |e: &EqualityExpression<Fp>| match e {
                EqualityExpression::Number(k) => json!([0, k.0]),
                EqualityExpression::Reference(x) => json!([1, x.id + 1]),
            };
            let ej: Vec<Value> = eqs.iter().map(|q| json!([side(&q.left), side(&q.right)])).collect();
            let cons = generate_execution_constraints(&eqs, &lits);
            let oside = |e: &OptimisticExpression<Vec<Fp>, u32>| match e {
                OptimisticExpression::Number(k) => json!([0, k, 0, 0, 0]),
                OptimisticExpression::Literal(l) => match &l.val {
                    LocalOptimisticLiteral::RegisterLimb(a, i) => json!([1, l.instr_idx, a[0].0, a[1].0, i + 1]),
                    LocalOptimisticLiteral::Pc => json!([2, l.instr_idx, 0, 0, 0]),
                },
            };
            let cj: Vec<Value> = cons.iter().map(|q| json!([oside(&q.left), oside(&q.right)])).collect();
            (lj, ej, cj)
        }));
        let Ok((lj, ej, cj)) = res else {
            tot[4] += 1;
            o.insert("res".into(), json!("panic"));
            out += &line.to_string();
            out.push('\n');
            continue;
        };
        tot[0] += 1;
        tot[1] += lj.len() as u64;
        tot[2] += cj.len() as u64;
        o.insert("lits".into(), json!(lj));
        o.insert("eqs".into(), json!(ej));
        o.insert("conds".into(), json!(cj));
        // what the builder assumes about the block, with and without the restriction to checkable columns
        let mut assumed = vec![];
        let none = EmpiricalConstraints::default();
        let mut own: Vec<String> = vec![];
        for (restricted, e) in [("0", &none), ("0", &e), ("1", &e)] {
            std::env::set_var("POWDR_RESTRICTED_OPTIMISTIC_PRECOMPILES", restricted);
            let _ = std::fs::remove_dir_all(&dir);
            let exp = ExportOptions::new(Some(dir.clone()), &block.start_pcs(), ExportLevel::OnlyAPC);
            let built = catch_unwind(AssertUnwindSafe(|| build::<ToyAdapter>(block.clone(), vm(), db, exp, e)));
            // the first precompile written is the one before optimization
            let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| Some(e.ok()?.path())).filter(|p| p.extension().is_some_and(|x| x == "json")).collect()).unwrap_or_default();
            files.sort();
            let m: Option<SymbolicMachine<Fp>> = files.iter().find_map(|f| {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok()?;
                serde_json::from_value(v["apc"]["machine"].clone()).or_else(|_| serde_json::from_value(v["machine"].clone())).ok()
            });
            let status = match (&m, &built) {
                (None, _) => "no-machine",
                // the optimizer may refuse the block later on; what was assumed is already known
                (Some(_), _) => "ok",
            };
            let cons = m.map(|m| from_machine(&m).cons).unwrap_or_default();
            if std::ptr::eq(e, &none) {
                own = cons.iter().map(|e| e.show()).collect();
                continue;
            }
            let extra: Vec<Value> = cons.iter().filter(|e| !own.contains(&e.show())).map(|e| e.json()).collect();
            tot[3] += extra.len() as u64;
            assumed.push(json!({"res": status, "cons": extra}));
        }
        std::env::set_var("POWDR_RESTRICTED_OPTIMISTIC_PRECOMPILES", "0");
        o.insert("assumed".into(), json!(assumed));
        o.insert("res".into(), json!("ok"));
        out += &line.to_string();
        out.push('\n');
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::write(path, out).unwrap();
    println!("{}", json!({"cases": n, "done": tot[0], "checkable_columns": tot[1], "conditions": tot[2], "assumptions": tot[3], "failed": tot[4]}));
}
