//! C14, C15: partitions and empirical constraints.
use crate::adapter::*;
use crate::fp::{set_p, Fp};
use crate::rng::Rng;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::*;
use powdr_autoprecompiles::equivalence_classes::Partition;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::optimistic::algebraic_references::BlockCellAlgebraicReferenceMapper;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

fn classes(r: &mut Rng, univ: &[u64], k: u64, junk: bool) -> Vec<Vec<u64>> {
    let mut m: Vec<Vec<u64>> = vec![vec![]; k as usize + 1];
    for x in univ {
        m[r.below(k + 1) as usize].push(*x);
    }
    m.pop();
    if !junk {
        m.retain(|c| c.len() > 1);
    }
    m
}
fn part(c: &[Vec<u64>]) -> Partition<u64> {
    c.iter().cloned().collect()
}
fn out(p: &Partition<u64>) -> Vec<Vec<u64>> {
    let mut c = p.to_classes();
    c.iter_mut().for_each(|x| x.sort());
    c.sort();
    c
}

pub fn partitions(seed: u64, n: u64, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut merged = 0u64;
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let univ: Vec<u64> = (0..r.range(2, 8)).collect();
        let bank_n = r.range(1, 4);
        let coarse = r.chance(1, 2);
        let bank: Vec<Vec<Vec<u64>>> = (0..bank_n)
            .map(|_| {
                let k = if coarse { r.range(1, 2) } else { r.range(1, 4) };
                classes(r, &univ, k, true)
            })
            .collect();
        let mut op = *r.pick(&["many", "pair", "par", "combine", "map", "json", "tree"]);
        let many = if op == "par" {
            match r.below(8) {
                0..=3 => r.range(62, 67),
                4 | 5 => r.range(1, 10),
                6 => r.range(127, 131),
                _ => if r.chance(1, 8) { r.range(4090, 4230) } else { r.range(180, 260) },
            }
        } else {
            r.range(1, 5)
        };
        let mut idx: Vec<usize> = (0..many)
            .map(|_| if r.chance(3, 4) { 0 } else { r.below(bank_n) as usize })
            .collect();
        let mut bank = bank;
        if op == "par" && r.chance(1, 2) && bank.len() > 1 {
            // all the same but for one, which alone separates some elements, at an interesting position
            bank[0] = vec![univ.clone()];
            let k = r.range(1, 3);
            bank[1] = classes(r, &univ, k, true);
            idx.iter_mut().for_each(|x| *x = 0);
            let n = idx.len();
            let at = match r.below(6) {
                0 | 1 => n - 1,
                2 => 0,
                3 => n / 64 * 64,
                4 => (n / 64 * 64).saturating_sub(1),
                _ => r.below(n as u64) as usize,
            };
            idx[at.min(n - 1)] = 1;
        }
        let bank = bank;
        let mut args: Vec<Vec<Vec<u64>>> = bank.clone();
        let bank_n = bank.len() as u64;
        let mut perm: Vec<u64> = vec![];
        let mut used: BTreeSet<usize> = idx.iter().copied().collect();
        let res = catch_unwind(AssertUnwindSafe(|| match op {
            "many" => out(&Partition::intersect_many(idx.iter().map(|j| part(&bank[*j])))),
            "pair" => {
                let (a, b) = (idx[0], r.below(bank_n) as usize);
                used = [a, b].into_iter().collect();
                out(&part(&bank[a]).intersected_with(part(&bank[b])))
            }
            "tree" => {
                let mut v: Vec<Partition<u64>> = idx.iter().map(|j| part(&bank[*j])).collect();
                while v.len() > 1 {
                    let a = v.swap_remove(r.below(v.len() as u64) as usize);
                    let b = v.swap_remove(r.below(v.len() as u64) as usize);
                    v.push(a.intersected_with(b));
                }
                out(&v[0])
            }
            "par" => {
                let v: Vec<Partition<u64>> = idx.iter().map(|j| part(&bank[*j])).collect();
                out(&Partition::parallel_intersect(v.into_par_iter()))
            }
            "combine" => {
                let second: Vec<Vec<u64>> = bank[0].iter().map(|c| c.iter().map(|x| x + 100).collect()).collect();
                let first = bank[bank.len() - 1].clone();
                args = vec![first.clone(), second.clone()];
                out(&part(&first).combine(part(&second)))
            }
            "map" => {
                perm = univ.clone();
                for a in (1..perm.len()).rev() {
                    let b = r.below(a as u64 + 1) as usize;
                    perm.swap(a, b);
                }
                let off = r.below(3) * 10;
                perm.iter_mut().for_each(|x| *x += off);
                args = vec![bank[0].clone()];
                out(&part(&bank[0]).map_elements(|x| perm[x as usize]))
            }
            _ => {
                args = vec![bank[0].clone()];
                let a = part(&bank[0]);
                let s = serde_json::to_string(&a).unwrap();
                let b: Partition<u64> = serde_json::from_str(&s).unwrap();
                if a != b {
                    vec![vec![]]
                } else {
                    out(&b)
                }
            }
        }));
        if matches!(op, "many" | "pair" | "par" | "tree") {
            args = used.iter().map(|j| bank[*j].clone()).collect();
            op = "intersect";
        } else if op == "map" {
        } else {
            op = if op == "combine" { "combine" } else { "same" };
        }
        let (ok, o) = match res {
            Ok(o) => (true, o),
            Err(_) => (false, vec![]),
        };
        merged += o.len() as u64;
        writeln!(f, "{}", json!({"op": op, "args": args, "perm": perm, "out": o, "ok": ok, "n": idx.len()})).unwrap();
    }
    println!("{}", json!({"cases": n, "classes": merged}));
}

// ------------------------------------------------------------------ empirical constraints

fn cell(v: &Value) -> (u64, u64) {
    (v["instruction_idx"].as_u64().unwrap(), v["column_idx"].as_u64().unwrap())
}
pub fn cells_json(p: &Partition<BlockCell>) -> Value {
    let v = serde_json::to_value(p.to_classes()).unwrap();
    json!(v.as_array().unwrap().iter().map(|c| c.as_array().unwrap().iter().map(|x| { let (a, b) = cell(x); json!([a, b]) }).collect::<Vec<_>>()).collect::<Vec<_>>())
}
pub fn emp_json(e: &EmpiricalConstraints) -> Value {
    json!({
        "ranges": e.column_ranges_by_pc.iter().map(|(pc, v)| json!({"pc": pc, "r": v.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "classes": e.equivalence_classes_by_block.iter().map(|(pc, p)| json!({"pc": pc, "c": cells_json(p)})).collect::<Vec<_>>(),
        "counts": e.pc_counts.iter().map(|(pc, n)| json!([pc, n])).collect::<Vec<_>>(),
        "airs": e.debug_info.air_id_by_pc.iter().map(|(pc, n)| json!([pc, n])).collect::<Vec<_>>(),
    })
}
fn blk_json(b: &BlockEmpiricalConstraints) -> Value {
    json!({
        "ranges": b.column_ranges_by_pc.iter().flat_map(|(pc, m)| m.iter().map(move |(c, (lo, hi))| json!([pc, c, lo, hi]))).collect::<Vec<_>>(),
        "classes": cells_json(&b.equivalence_classes),
    })
}

pub struct World {
    blocks: Vec<BasicBlock<ToyInstr>>,
    width: BTreeMap<u32, usize>,
}
pub fn world(r: &mut Rng) -> World {
    let step = *r.pick(&[1u32, 4]);
    set_pc_step(step);
    let mut pc = 4 * r.below(4);
    let mut width = BTreeMap::new();
    let blocks = (0..r.range(1, 3))
        .map(|_| {
            let b = BasicBlock {
                start_pc: pc,
                instructions: (0..r.range(1, 3)).map(|i| ToyInstr { op: 0, args: vec![i], branching: false, allowed: true }).collect::<Vec<_>>(),
            };
            for p in b.pcs() {
                width.insert(p as u32, r.range(1, 3) as usize);
            }
            pc += b.instructions.len() as u64 * step as u64;
            b
        })
        .collect();
    World { blocks, width }
}
pub fn stats(r: &mut Rng, w: &World) -> EmpiricalConstraints {
    let mut e = EmpiricalConstraints::default();
    for b in &w.blocks {
        if r.chance(1, 4) {
            continue; // this run never executed the block
        }
        let times = r.range(1, 6);
        let mut cells = vec![];
        for (i, pc) in b.pcs().enumerate() {
            let pc = pc as u32;
            let n = w.width[&pc];
            e.column_ranges_by_pc.insert(
                pc,
                (0..n)
                    .map(|_| {
                        let lo = r.below(4) as u32;
                        (lo, if r.chance(1, 2) { lo } else { lo + r.below(3) as u32 })
                    })
                    .collect(),
            );
            e.pc_counts.insert(pc, times);
            e.debug_info.air_id_by_pc.insert(pc, pc as usize % 5);
            cells.extend((0..n).map(|c| BlockCell::new(i, c)));
        }
        let k = r.range(1, 2) as usize;
        let mut cl: Vec<Vec<BlockCell>> = vec![vec![]; k + 1];
        for c in cells {
            cl[r.below(k as u64 + 1) as usize].push(c);
        }
        cl.pop();
        e.equivalence_classes_by_block.insert(b.start_pc, cl.into_iter().collect());
    }
    e
}
fn copy(e: &EmpiricalConstraints) -> EmpiricalConstraints {
    EmpiricalConstraints {
        column_ranges_by_pc: e.column_ranges_by_pc.clone(),
        equivalence_classes_by_block: e.equivalence_classes_by_block.clone(),
        debug_info: e.debug_info.clone(),
        pc_counts: e.pc_counts.clone(),
    }
}

pub fn empirical(seed: u64, n: u64, path: &str) {
    set_p(13);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut gen = 0u64;
    for i in 0..n {
        let r = &mut Rng::new(seed * 1_000_003 + i);
        let w = world(r);
        let runs: Vec<EmpiricalConstraints> = (0..r.range(1, 4)).map(|_| stats(r, &w)).collect();
        let threshold = r.below(8);
        let seq: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(w.blocks.len() as u64) as usize).collect();
        let blocks: Vec<BasicBlock<ToyInstr>> = seq.iter().map(|x| w.blocks[*x].clone()).collect();
        let total: usize = blocks.iter().map(|b| b.instructions.len()).sum();
        let filters: Vec<BTreeSet<(usize, usize)>> = (0..r.below(3))
            .map(|_| (0..total).flat_map(|a| (0..3).map(move |b| (a, b))).filter(|_| r.chance(2, 3)).collect())
            .collect();
        let mut line = json!({"runs": runs.iter().map(emp_json).collect::<Vec<_>>(), "threshold": threshold,
            "blocks": blocks.iter().map(|b| json!({"pc": b.start_pc, "pcs": b.pcs().collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "filters": filters.iter().map(|s| s.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()).collect::<Vec<_>>()});
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut v: Vec<EmpiricalConstraints> = runs.iter().map(copy).collect();
            while v.len() > 1 {
                let mut a = v.swap_remove(r.below(v.len() as u64) as usize);
                let b = v.swap_remove(r.below(v.len() as u64) as usize);
                a.combine_with(b);
                v.push(a);
            }
            let mut m = v.pop().unwrap();
            if r.chance(1, 3) {
                m = serde_json::from_str(&serde_json::to_string(&m).unwrap()).unwrap();
            }
            let merged = emp_json(&m);
            std::env::set_var("POWDR_OP_EXECUTION_COUNT_THRESHOLD", threshold.to_string());
            let t = copy(&m).apply_pc_threshold();
            let thr = emp_json(&t);
            let sb: SuperBlock<ToyInstr> = blocks.clone().into();
            let mut b = m.for_block(&sb);
            let mut steps = vec![blk_json(&b)];
            for s in &filters {
                let keep: std::collections::HashSet<BlockCell> = s.iter().map(|(a, b)| BlockCell::new(*a, *b)).collect();
                b = b.filtered(|c| keep.contains(c));
                steps.push(blk_json(&b));
            }
            // columns of the block: ids in a scrambled order
            let cells: Vec<(usize, usize)> = sb.pcs().enumerate().flat_map(|(i, pc)| (0..w.width[&(pc as u32)]).map(move |c| (i, c))).collect();
            let off = r.below(4);
            let mut subs: Vec<Vec<u64>> = vec![vec![]; total];
            let mut cols = vec![];
            let mut back: HashMap<u64, (usize, usize)> = HashMap::new();
            for (j, (a, c)) in cells.iter().enumerate() {
                let id = off + j as u64;
                subs[*a].push(id);
                back.insert(id, (*a, *c));
                cols.push(AlgebraicReference { name: Arc::new(format!("c{id}")), id });
            }
            let mapper = BlockCellAlgebraicReferenceMapper::new(&subs, cols.into_iter());
            let g = ConstraintGenerator::<ToyAdapter>::new(b, mapper, &sb).generate_constraints();
            let cs: Vec<Value> = g
                .iter()
                .map(|c| {
                    let side = |e: &EqualityExpression<Fp>| match e {
                        EqualityExpression::Reference(x) => {
                            let (a, b) = back[&x.id];
                            json!([1, a, b])
                        }
                        EqualityExpression::Number(n) => json!([0, n.0, 0]),
                    };
                    json!([side(&c.left), side(&c.right)])
                })
                .collect();
            (merged, thr, steps, cs)
        }));
        let o = line.as_object_mut().unwrap();
        o.insert("ok".into(), json!(res.is_ok()));
        if let Ok((m, t, s, c)) = res {
            gen += c.len() as u64;
            o.insert("merged".into(), m);
            o.insert("thr".into(), t);
            o.insert("steps".into(), json!(s));
            o.insert("cons".into(), json!(c));
        }
        writeln!(f, "{line}").unwrap();
    }
    println!("{}", json!({"cases": n, "constraints": gen}));
}
