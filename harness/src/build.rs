//! C07, C18, C22: whole precompiles built from instruction circuits of the toy VM.
use crate::adapter::*;
use crate::fp::{set_p, Fp};
use crate::gen::Gen;
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::*;
use powdr_autoprecompiles::adapter::AdapterApc;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::export::{ExportLevel, ExportOptions};
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::trace_handler::{generate_trace, TraceTrait};
use powdr_autoprecompiles::{build, DegreeBound, VmConfig};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An instruction circuit; its opcodes select a flag.
pub struct Air {
    pub sys: Sys,
    pub width: usize,
    pub nargs: usize,
    /// opcode numbers this circuit implements
    pub ops: Vec<usize>,
}

fn shift(e: &E, d: usize) -> E {
    ren(e, &|x| x + d)
}
pub fn ren(e: &E, f: &impl Fn(usize) -> usize) -> E {
    let g = |e: &E| Box::new(ren(e, f));
    match e {
        E::C(k) => E::C(*k),
        E::V(x) => E::V(f(*x)),
        E::Add(a, b) => E::Add(g(a), g(b)),
        E::Sub(a, b) => E::Sub(g(a), g(b)),
        E::Mul(a, b) => E::Mul(g(a), g(b)),
        E::Neg(a) => E::Neg(g(a)),
    }
}
pub fn ren_sys(s: &Sys, f: &impl Fn(usize) -> usize) -> Sys {
    Sys {
        cons: s.cons.iter().map(|e| ren(e, f)).collect(),
        bus: s.bus.iter().map(|b| Bus { id: b.id, mult: ren(&b.mult, f), args: b.args.iter().map(|e| ren(e, f)).collect() }).collect(),
        derived: s
            .derived
            .iter()
            .map(|(x, m)| {
                (f(*x), match m {
                    Method::Const(k) => Method::Const(*k),
                    Method::Quot(a, b) => Method::Quot(ren(a, f), ren(b, f)),
                })
            })
            .collect(),
    }
}

/// `rich`: more columns (when rows are only sampled)
pub fn gen_air(r: &mut Rng, toy: &Toy, first_op: usize, step: u64, rich: bool) -> Air {
    let p = toy.p;
    let two = r.chance(1, 2);
    let nargs = r.range(1, 2) as usize;
    let mut s = Sys::default();
    let flags: Vec<usize> = if two { vec![0, 1] } else { vec![0] };
    let valid = || if two { v(0) + v(1) } else { v(0) };
    let mut next = flags.len();
    let mut col = || {
        next += 1;
        next - 1
    };
    let (pc, ts) = (col(), col());
    let args: Vec<usize> = (0..nargs).map(|_| col()).collect();
    for f in &flags {
        s.cons.push(v(*f) * (v(*f) - c(1)));
    }
    if two {
        s.cons.push(valid() * (valid() - c(1)));
    }
    let ops: Vec<usize> = flags.iter().map(|f| first_op + f).collect();
    let op = if two { c(ops[0] as u64) * v(0) + c(ops[1] as u64) * v(1) } else { c(ops[0] as u64) };
    // execution bridge and program lookup
    let npc = match r.below(4) {
        0 => {
            let n = col();
            if r.chance(1, 2) {
                // conditional jump by a flag column
                let b = col();
                s.cons.push(v(b) * (v(b) - c(1)));
                let d = r.below(p);
                s.cons.push(v(n) - (v(pc) + c(step % p) + v(b) * c(d)));
            }
            v(n)
        }
        _ => v(pc) + c(step % p),
    };
    let dt = r.range(1, 3);
    s.bus.push(Bus { id: EXEC, mult: -valid(), args: vec![v(pc), v(ts)] });
    let send = Bus { id: EXEC, mult: valid(), args: vec![npc, v(ts) + c(dt)] };
    let mut row = vec![v(pc), op];
    row.extend(args.iter().map(|a| v(*a)));
    let lookup = Bus { id: PC, mult: valid(), args: row };
    if r.chance(1, 2) {
        s.bus.push(send.clone());
        s.bus.push(lookup);
    } else {
        s.bus.push(lookup);
        s.bus.push(send.clone());
    }
    // body: values
    let x = col();
    let z = if r.chance(3, 4) { col() } else { x };
    let arg = |r: &mut Rng| v(*r.pick(&args));
    let value = |r: &mut Rng| -> E {
        match r.below(8) {
            0 => v(x) + arg(r),
            1 => v(x) * arg(r),
            2 => c(1) - v(x),
            3 => v(x) * v(x),
            4 => c(r.below(p)),
            5 => arg(r),
            6 => v(x) * c(r.range(1, p - 1)) - arg(r),
            _ => v(x),
        }
    };
    if z != x {
        match r.below(5) {
            0 => {
                // z = (x == arg) with an inverse hint
                let h = col();
                let a = arg(r);
                s.cons.push(v(z) * (v(x) - a.clone()));
                s.cons.push((v(x) - a) * v(h) + v(z) - c(1));
            }
            1 => {
                let y = arg(r);
                s.bus.push(Bus { id: BITW, mult: valid(), args: vec![v(x), y, v(z), c(1)] });
            }
            2 => {
                s.cons.push(valid() * (v(z) - value(r)));
            }
            _ if two => {
                let (a, b) = (value(r), value(r));
                s.cons.push(v(0) * (v(z) - a));
                s.cons.push(v(1) * (v(z) - b));
            }
            _ => {
                let e = value(r);
                s.cons.push(v(z) - e);
            }
        }
    }
    if r.chance(1, 2) {
        let m = match r.below(4) {
            0 => v(0),
            1 => v(*r.pick(&flags)),
            _ => valid(),
        };
        let b = r.range(1, toy.max_bits.min(2) as u64);
        s.bus.push(Bus { id: RANGE, mult: m, args: vec![v(*r.pick(&[x, z])), c(b)] });
    }
    if r.chance(1, 4) {
        // conditional lookup with a multiplicity column
        let m = col();
        s.cons.push(v(m) * (v(m) - c(1)));
        let b = r.range(1, 2);
        let e = if r.chance(1, 2) { v(x) } else { v(x) - arg(r) };
        s.bus.push(Bus { id: RANGE, mult: v(m), args: vec![e, c(b)] });
        if r.chance(1, 2) {
            s.cons.push(v(m) - (c(1) - v(z)));
        }
    }
    // memory accesses
    let acc = r.range(if rich { 1 } else { 0 }, 2);
    for i in 0..acc {
        let asp = c(r.range(1, 2));
        let addr = match r.below(5) {
            0 => c(r.below(3)),
            1 => v(x) + arg(r),
            _ => arg(r),
        };
        let old = match r.below(4) {
            0 if rich => v(col()),
            _ => v(x),
        };
        let t0 = match r.below(4) {
            0 | 1 => {
                if rich {
                    v(col())
                } else {
                    c(r.below(3))
                }
            }
            2 => v(ts) - c(1),
            _ => c(0),
        };
        let m = if two && r.chance(1, 8) { v(1) } else { valid() };
        s.bus.push(Bus { id: MEM, mult: -m.clone(), args: vec![asp.clone(), addr.clone(), old.clone(), t0] });
        let new = if i + 1 == acc && r.chance(3, 4) { v(z) } else { old };
        s.bus.push(Bus { id: MEM, mult: m, args: vec![asp, addr, new, v(ts) + c(i)] });
    }
    // extra gadgets over body columns
    if r.chance(1, 3) {
        let d = next;
        let n = r.range(1, 2) as usize;
        let mut g = Gen::new(r, toy.clone(), n, true);
        for _ in 0..g.r.range(1, 2) {
            g.gadget();
        }
        if g.r.chance(1, 3) {
            g.special();
        }
        let (sub, w0, n) = (g.sys.clone(), g.wit[0], g.n);
        for e in &sub.cons {
            s.cons.push(shift(e, d));
        }
        for b in &sub.bus {
            let m = if b.mult == c(1) { valid() } else { shift(&b.mult, d) };
            s.bus.push(Bus { id: b.id, mult: m, args: b.args.iter().map(|e| shift(e, d)).collect() });
        }
        if r.chance(1, 2) {
            s.cons.push(valid() * (v(x) - v(d) + c(w0) - c(1)) * v(d));
        }
        next = d + n;
    }
    // column numbers must be contiguous
    let used: Vec<usize> = s.vars().into_iter().collect();
    let _ = next;
    let map: BTreeMap<usize, usize> = used.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let sys = ren_sys(&s, &|x| map[&x]);
    Air { sys, width: used.len(), nargs, ops }
}

pub struct Case {
    pub toy: Toy,
    pub airs: Vec<Air>,
    pub instrs: Vec<ToyInstr>,
    pub pcs: Vec<u64>,
    pub air_of: Vec<usize>,
    pub block: SuperBlock<ToyInstr>,
    pub db: DegreeBound,
    pub handler: ToyAirs,
}
fn maxdeg(s: &Sys) -> (usize, usize) {
    (
        s.cons.iter().map(|e| e.degree()).max().unwrap_or(0),
        s.bus.iter().flat_map(|b| b.args.iter().chain([&b.mult])).map(|e| e.degree()).max().unwrap_or(0),
    )
}

pub fn gen_case(r: &mut Rng, rich: bool, max_instr: u64) -> Case {
    let p = *r.pick(&[11u64, 11, 13, 19]);
    let toy = Toy::for_p(p);
    set_p(p);
    let step = *r.pick(&[1u32, 4]);
    set_pc_step(step);
    let mut airs: Vec<Air> = vec![];
    let mut ops = 0;
    for _ in 0..r.range(1, 3) {
        let a = gen_air(r, &toy, ops, step as u64, rich);
        ops += a.ops.len();
        airs.push(a);
    }
    let air_of_op: Vec<usize> = airs.iter().enumerate().flat_map(|(i, a)| a.ops.iter().map(move |_| i)).collect();
    let n = r.range(1, max_instr) as usize;
    let instrs: Vec<ToyInstr> = (0..n)
        .map(|_| {
            let op = r.below(ops as u64) as usize;
            let nargs = airs[air_of_op[op]].nargs;
            ToyInstr { op, args: (0..nargs).map(|_| r.below(3)).collect(), branching: false, allowed: true }
        })
        .collect();
    let mut blocks: Vec<BasicBlock<ToyInstr>> = vec![];
    let mut start = r.below(p);
    let mut i = 0;
    while i < n {
        let len = if r.chance(1, 4) { r.range(1, (n - i) as u64) as usize } else { n - i };
        blocks.push(BasicBlock { start_pc: start, instructions: instrs[i..i + len].to_vec() });
        start = r.below(2 * p);
        i += len;
    }
    let block: SuperBlock<ToyInstr> = blocks.into();
    let pcs: Vec<u64> = block.pcs().collect();
    let air_of: Vec<usize> = instrs.iter().map(|i| air_of_op[i.op]).collect();
    let (dc, dbus) = airs.iter().map(|a| maxdeg(&a.sys)).fold((2, 1), |a, b| (a.0.max(b.0), a.1.max(b.1)));
    let dc = dc.max(dbus) as u64 + r.below(2);
    let db = DegreeBound { identities: dc as usize, bus_interactions: r.range(dbus as u64, dc) as usize };
    let handler = ToyAirs { machines: airs.iter().map(|a| to_machine::<Fp>(&a.sys)).collect(), air_of_op, stats: HashMap::new(), bound: Some(db) };
    Case { toy, airs, instrs, pcs, air_of, block, db, handler }
}

impl Case {
    /// The instruction's circuit with the facts that hold for this instruction in an active row.
    fn pinned(&self, i: usize) -> Sys {
        let a = &self.airs[self.air_of[i]];
        let mut s = a.sys.clone();
        let p = self.toy.p;
        let recv = s.bus.iter().find(|b| b.id == EXEC).unwrap().mult.clone();
        s.cons.push(recv + c(1));
        let row: Vec<u64> = [self.pcs[i], self.instrs[i].op as u64].into_iter().chain(self.instrs[i].args.iter().copied()).collect();
        let lookup = s.bus.iter().find(|b| b.id == PC).unwrap().args.clone();
        for (e, k) in lookup.into_iter().zip(row) {
            s.cons.push(e - c(k % p));
        }
        s
    }
    fn offsets(&self) -> Vec<usize> {
        self.air_of
            .iter()
            .scan(0, |o, a| {
                let x = *o;
                *o += self.airs[*a].width;
                Some(x)
            })
            .collect()
    }
    /// The first n instructions' circuits side by side.
    pub fn concat(&self, n: usize) -> Sys {
        let offs = self.offsets();
        let mut out = Sys::default();
        for i in 0..n {
            let s = ren_sys(&self.pinned(i), &|x| x + offs[i]);
            out.cons.extend(s.cons);
            out.bus.extend(s.bus);
        }
        out
    }
    pub fn width(&self) -> usize {
        self.air_of.iter().map(|a| self.airs[*a].width).sum()
    }
    /// Rows of a memory-consistent execution of the block, one per instruction, concatenated.
    fn sample_rows(&self, r: &mut Rng, calls: usize) -> Option<Vec<Vec<u64>>> {
        let mut per = vec![];
        for i in 0..self.instrs.len() {
            let s = self.pinned(i);
            let w = self.airs[self.air_of[i]].width;
            let rows = self.toy.sols(&s, &var_order(&self.toy, &s), w, 6000)?;
            if rows.is_empty() {
                return None;
            }
            per.push(rows);
        }
        let prefixes: Vec<Sys> = (1..=self.instrs.len()).map(|n| self.concat(n)).collect();
        let mut out = vec![];
        for _ in 0..calls * 2 {
            if out.len() == calls {
                break;
            }
            let mut row: Vec<u64> = vec![];
            let mut ok = true;
            for (i, rows) in per.iter().enumerate() {
                let st = r.below(rows.len() as u64) as usize;
                let hit = (0..rows.len()).map(|j| &rows[(st + j) % rows.len()]).find(|cand| {
                    let mut x = row.clone();
                    x.extend(cand.iter());
                    self.toy.mem_ok(&prefixes[i], &x)
                });
                match hit {
                    Some(h) => row.extend(h.iter()),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                out.push(row);
            }
        }
        (!out.is_empty()).then_some(out)
    }
}

pub enum Out {
    Ok(AdapterApc<ToyAdapter>),
    Err(String),
    Panic(String),
}
pub fn run(k: &Case, export: Option<&std::path::Path>) -> Out {
    set_p(k.toy.p);
    let vm = VmConfig { instruction_handler: &k.handler, bus_interaction_handler: ToyHandler(k.toy.clone()), bus_map: bus_map() };
    let exp = match export {
        Some(p) => ExportOptions::new(Some(p.to_path_buf()), &k.block.start_pcs(), ExportLevel::APCAndOptimizerLoop),
        None => ExportOptions::default(),
    };
    match catch_unwind(AssertUnwindSafe(|| build::<ToyAdapter>(k.block.clone(), vm, k.db, exp, &EmpiricalConstraints::default()))) {
        Ok(Ok(a)) => Out::Ok(a),
        Ok(Err(e)) => Out::Err(format!("{e:?}")),
        Err(e) => Out::Panic(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
/// The last machine the optimizer exported, i.e. the optimized circuit before it is guarded.
fn unguarded(dir: &std::path::Path) -> Option<Sys> {
    let mut files: Vec<_> = std::fs::read_dir(dir).ok()?.filter_map(|e| Some(e.ok()?.path())).filter(|p| p.extension().is_some_and(|x| x == "json")).collect();
    files.sort();
    files.iter().rev().find_map(|p| serde_json::from_str::<SymbolicMachine<Fp>>(&std::fs::read_to_string(p).ok()?).ok()).map(|m| from_machine(&m))
}

struct Dummy {
    width: usize,
    data: Vec<u64>,
}
impl TraceTrait<Fp> for Dummy {
    type Values = Vec<u64>;
    fn width(&self) -> usize {
        self.width
    }
    fn values(&self) -> &Vec<u64> {
        &self.data
    }
}

fn head(k: &Case) -> Value {
    json!({"toy": k.toy.json(), "db": [k.db.identities, k.db.bus_interactions]})
}
fn text(k: &Case, new: &Sys) -> String {
    let mut s = String::new();
    for (i, a) in k.airs.iter().enumerate() {
        s += &format!("air {i} ops {:?} width {}\n{}", a.ops, a.width, a.sys.show());
    }
    s += &format!("instructions {:?}\npcs {:?} db {:?}\nprecompile:\n{}", k.instrs.iter().map(|i| format!("{i}")).collect::<Vec<_>>(), k.pcs, k.db, new.show());
    s
}

/// C18: rows of the original instructions through the recorded column mapping.
pub fn rows(seed: u64, n: u64, path: &str) {
    let mut out = String::new();
    let (mut built, mut calls_n, mut skipped, mut failed) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let k = gen_case(&mut r, true, 4);
        let want = r.range(1, 4) as usize;
        let Some(calls) = k.sample_rows(&mut r, want) else {
            skipped += 1;
            continue;
        };
        let orig = k.concat(k.instrs.len());
        let mut line = head(&k);
        let o = line.as_object_mut().unwrap();
        o.insert("orig".into(), orig.json());
        o.insert("offs".into(), json!(k.offsets()));
        o.insert("airs".into(), json!(k.air_of.iter().map(|a| a + 1).collect::<Vec<_>>()));
        o.insert("width".into(), json!(k.airs.iter().map(|a| a.width).collect::<Vec<_>>()));
        o.insert("calls".into(), json!(calls));
        calls_n += calls.len() as u64;
        let (res, msg) = match run(&k, None) {
            Out::Ok(apc) => {
                built += 1;
                let keep: Vec<bool> = apc.subs.iter().map(|s| !s.is_empty()).collect();
                let offs = k.offsets();
                let mut dummies: HashMap<usize, Dummy> = HashMap::new();
                for row in &calls {
                    for (j, a) in k.air_of.iter().enumerate() {
                        if keep[j] {
                            let w = k.airs[*a].width;
                            dummies.entry(*a).or_insert(Dummy { width: w, data: vec![] }).data.extend(&row[offs[j]..offs[j] + w]);
                        }
                    }
                }
                let t = catch_unwind(AssertUnwindSafe(|| {
                    let t = generate_trace::<ToyAirs, Dummy, u8, u64>(&dummies, &k.handler, calls.len(), &apc);
                    let refs: Vec<Vec<Value>> = t.dummy_values.iter().map(|c| c.iter().map(|x| {
                        let air = dummies.iter().find(|(_, d)| std::ptr::eq(&d.data, x.data)).unwrap().0;
                        json!({"air": air + 1, "start": x.start, "len": x.length})
                    }).collect()).collect();
                    let map: Vec<Vec<[usize; 2]>> = t.dummy_trace_index_to_apc_index_by_instruction.iter().map(|m| m.iter().map(|(a, b)| [*a, *b]).collect()).collect();
                    let cols: Vec<u64> = { let mut c = vec![u64::MAX; t.apc_poly_id_to_index.len()]; for (id, i) in &t.apc_poly_id_to_index { c[*i] = *id; } c };
                    (refs, map, cols)
                }));
                match t {
                    Ok((refs, map, cols)) => {
                        let idx: HashMap<u64, usize> = cols.iter().enumerate().map(|(i, c)| (*c, i)).collect();
                        // derived columns that nothing refers to get numbers of their own
                        let mut extra: BTreeMap<usize, usize> = BTreeMap::new();
                        let g = from_machine(&apc.machine);
                        for x in g.all_vars() {
                            if !idx.contains_key(&(x as u64)) {
                                let e = cols.len() + extra.len();
                                extra.insert(x, e);
                            }
                        }
                        let new = ren_sys(&g, &|x| idx.get(&(x as u64)).copied().unwrap_or_else(|| extra[&x]));
                        o.insert("text".into(), json!(text(&k, &new)));
                        o.insert("new".into(), new.json());
                        o.insert("ncols".into(), json!(cols.len()));
                        o.insert("nv".into(), json!(cols.len() + extra.len()));
                        o.insert("keep".into(), json!(keep));
                        o.insert("refs".into(), json!(refs));
                        o.insert("map".into(), json!(map));
                        ("ok", String::new())
                    }
                    Err(_) => ("panic", "trace".to_string()),
                }
            }
            Out::Err(m) => ("err", m),
            Out::Panic(m) => {
                if m.contains("Degree should not change") {
                    // the builder's own refusal, see C07
                    skipped += 1;
                    continue;
                }
                ("panic", m)
            }
        };
        if res != "ok" {
            failed += 1;
            o.insert("text".into(), json!(text(&k, &Sys::default())));
        }
        o.insert("res".into(), json!(res));
        o.insert("msg".into(), json!(msg));
        out += &line.to_string();
        out.push('\n');
    }
    std::fs::write(path, out).unwrap();
    println!("{}", json!({"cases": n, "built": built, "calls": calls_n, "skipped": skipped, "failed": failed}));
}

/// C07: the guarded machine against the unguarded one, all rows.
pub fn guards(seed: u64, n: u64, sample: usize, limit: usize, path: &str) {
    let mut out = String::new();
    let (mut w, mut built, mut toobig, mut refused) = (0usize, 0u64, 0u64, 0u64);
    let dir = std::path::PathBuf::from(format!("{path}.exp"));
    for i in 0..n {
        if w >= sample {
            break;
        }
        let mut r = Rng::new(seed * 1_000_003 + i);
        let rich = r.chance(1, 6);
        let k = gen_case(&mut r, rich, 2);
        let _ = std::fs::remove_dir_all(&dir);
        let res = run(&k, Some(&dir));
        let Some(u) = unguarded(&dir) else { continue };
        let (apc, res, msg) = match res {
            Out::Ok(a) => (Some(a), "ok", String::new()),
            Out::Err(_) => continue,
            Out::Panic(m) => {
                let (dc, dbus) = maxdeg(&u);
                let m_deg = u.bus.iter().map(|b| b.mult.degree()).max().unwrap_or(0);
                if m.contains("Degree should not change") && (dc.max(dbus) < 2 || m_deg == dc.max(dbus)) {
                    refused += 1;
                    continue;
                }
                (None, "panic", m)
            }
        };
        built += 1;
        let g = apc.as_ref().map(|a| from_machine(&a.machine)).unwrap_or_default();
        let flag = apc.as_ref().and_then(|a| a.machine.main_columns().find(|c| c.name.as_str() == "is_valid").map(|c| c.id as usize));
        let mut ids: Vec<usize> = u.all_vars().union(&g.all_vars()).copied().collect();
        if let Some(f) = flag {
            ids.retain(|x| *x != f);
            ids.push(f);
        }
        let idx: HashMap<usize, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let (g, u) = (ren_sys(&g, &|x| idx[&x]), ren_sys(&u, &|x| idx[&x]));
        let nv = ids.len().max(1);
        let (ou, og) = (var_order(&k.toy, &u), var_order(&k.toy, &g));
        let (su, sg) = (k.toy.sols(&u, &ou, nv, limit), k.toy.sols(&g, &og, nv, limit));
        if res == "ok" && (su.is_none() || sg.is_none()) {
            toobig += 1;
            continue;
        }
        let one = |o: &[usize]| o.iter().map(|x| x + 1).collect::<Vec<_>>();
        let mut line = head(&k);
        let o = line.as_object_mut().unwrap();
        o.insert("text".into(), json!(format!("{}unguarded:\n{}", text(&k, &g), u.show())));
        o.insert("guarded".into(), g.json());
        o.insert("plain".into(), u.json());
        o.insert("og".into(), json!(one(&og)));
        o.insert("ou".into(), json!(one(&ou)));
        o.insert("nv".into(), json!(nv));
        o.insert("flag".into(), json!(flag.map_or(0, |f| idx[&f] + 1)));
        o.insert("res".into(), json!(res));
        o.insert("msg".into(), json!(msg));
        out += &line.to_string();
        out.push('\n');
        w += 1;
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::write(path, out).unwrap();
    println!("{}", json!({"cases": n.min(1_000_000), "built": built, "too_big": toobig, "refused": refused, "written": w}));
}

fn digest(s: &str) -> String {
    // FNV-1a, 64 bit: stable across processes
    let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    format!("{h:016x}")
}
/// Prints one built block (for investigation).
pub fn show_block(seed: u64, i: u64, reps: u64) {
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..reps {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let max = if i % 4 == 0 { 24 } else { 8 };
        let k = gen_case(&mut r, true, max);
        let s = match run(&k, None) {
            Out::Ok(a) => text(&k, &from_machine(&a.machine)),
            Out::Err(e) => format!("err {e}"),
            Out::Panic(e) => format!("panic {e}"),
        };
        if seen.insert(s.clone()) {
            println!("======\n{s}");
        }
    }
}
/// C22: digests of what is built, to be compared across processes and repetitions.
pub fn determ(seed: u64, n: u64, real: &str, path: &str) {
    use powdr_autoprecompiles::bus_map::BusMap;
    use powdr_autoprecompiles::export::{ApcWithBusMap, SimpleInstruction};
    use powdr_autoprecompiles::optimizer::optimize;
    use powdr_autoprecompiles::{Apc, ColumnAllocator};
    use powdr_number::BabyBearField;
    use powdr_openvm_bus_interaction_handler::{bus_map::OpenVmBusType, memory_bus_interaction::OpenVmMemoryBusInteraction, OpenVmBusInteractionHandler};
    let mut out = String::new();
    let mut put = |id: String, d: String| {
        out += &json!({"id": id, "d": d}).to_string();
        out.push('\n');
    };
    for i in 0..n {
        for rep in 0..2 {
            let _ = rep;
            let mut r = Rng::new(seed * 1_000_003 + i);
            let max = if i % 4 == 0 { 24 } else { 8 };
            let k = gen_case(&mut r, true, max);
            let s = match run(&k, None) {
                // (the runtime assumptions are kept in hash maps, whose serialized order carries no meaning)
                Out::Ok(a) => serde_json::to_string(&(&a.block, &a.machine, &a.subs)).unwrap(),
                Out::Err(e) => format!("err {e}"),
                Out::Panic(e) => format!("panic {e}"),
            };
            put(format!("block-{seed}-{i}"), digest(&s));
            let mut r = Rng::new(seed * 1_000_003 + i);
            let k = crate::opt::gen_case(&mut r);
            let s = match crate::opt::run(&k) {
                crate::opt::OptOut::Ok(a) => a.show(),
                crate::opt::OptOut::Err(e) => format!("err {e}"),
                crate::opt::OptOut::Panic(e) => format!("panic {e}"),
            };
            put(format!("system-{seed}-{i}"), digest(&s));
        }
    }
    for f in real.split(',').filter(|f| !f.is_empty() && *f != "-") {
        type A = Apc<BabyBearField, SimpleInstruction<BabyBearField>, (), ()>;
        let a: ApcWithBusMap<A, BusMap<OpenVmBusType>> = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let col = ColumnAllocator::from_max_poly_id_of_machine(&a.apc.machine);
        let m = optimize::<_, _, _, OpenVmMemoryBusInteraction<_, _>>(
            a.apc.machine,
            OpenVmBusInteractionHandler::default(),
            DegreeBound { identities: 3, bus_interactions: 2 },
            &a.bus_map,
            col,
            &mut Default::default(),
        );
        let s = match m {
            Ok((m, _)) => serde_json::to_string(&m).unwrap(),
            Err(e) => format!("{e:?}"),
        };
        put(f.rsplit('/').next().unwrap().to_string(), digest(&s));
    }
    std::fs::write(path, out).unwrap();
}
