//! C19: artefacts written and read back in every format; raw field data.
//! The contents of an artefact are recorded as a tree built from its fields, independently of its serialization.
use crate::adapter::{ToyAdapter, ToyInstr};
use crate::exec;
use crate::fp::{set_p, Fp};
use crate::gen::random_system;
use crate::number::{limbs, rand_big, value};
use crate::part;
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::bus_map;
use powdr_autoprecompiles::adapter::ApcWithStats;
use powdr_autoprecompiles::blocks::{BasicBlock, Instruction, SuperBlock};
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, EmpiricalConstraints, Partition};
use powdr_autoprecompiles::evaluation::{AirStats, EvaluationResult};
use powdr_autoprecompiles::execution::OptimisticConstraints;
use powdr_autoprecompiles::export::{ApcWithBusMap, ExportLevel, ExportOptions, SimpleInstruction};
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine};
use powdr_autoprecompiles::{Apc, Substitution};
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_expression::{
    AlgebraicBinaryOperation, AlgebraicBinaryOperator, AlgebraicUnaryOperation, AlgebraicUnaryOperator,
};
use powdr_number::{
    read_polys_csv_file, write_polys_csv_file, BabyBearField, BigUint, Bn254Field, CsvRenderMode, FieldElement,
    GoldilocksField, KoalaBearField, LargeInt, Mersenne31Field, ReadWrite,
};
use powdr_openvm_bus_interaction_handler::bus_map::OpenVmBusType;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

type Assume = OptimisticConstraints<u8, u64>;

// ---------------------------------------------------------------- contents
fn node(t: &str, s: impl ToString, c: Vec<Value>) -> Value {
    json!({"t": t, "s": s.to_string(), "c": c})
}
fn num(n: impl ToString) -> Value {
    node("n", n, vec![])
}
fn seq(c: Vec<Value>) -> Value {
    node("seq", "", c)
}
fn set(c: Vec<Value>) -> Value {
    node("set", "", c)
}
fn name(s: &str) -> Value {
    node("name", s.bytes().map(|b| format!("{b:02x}")).collect::<String>(), vec![])
}
fn fe<T: FieldElement>(x: &T) -> Value {
    num(x.to_integer().to_arbitrary_integer())
}
fn rf(r: &AlgebraicReference) -> Value {
    node("ref", r.id, vec![name(&r.name)])
}
fn ex<T: FieldElement>(e: &AlgebraicExpression<T>) -> Value {
    match e {
        AlgebraicExpression::Reference(r) => rf(r),
        AlgebraicExpression::Number(n) => fe(n),
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let o = match op {
                AlgebraicBinaryOperator::Add => "+",
                AlgebraicBinaryOperator::Sub => "-",
                AlgebraicBinaryOperator::Mul => "*",
            };
            node(o, "", vec![ex(left), ex(right)])
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { op, expr }) => match op {
            AlgebraicUnaryOperator::Minus => node("neg", "", vec![ex(expr)]),
        },
    }
}
fn machine<T: FieldElement>(m: &SymbolicMachine<T>) -> Value {
    seq(vec![
        seq(m.constraints.iter().map(|c| ex(&c.expr)).collect()),
        seq(m.bus_interactions.iter().map(|b| node("bus", b.id, vec![ex(&b.mult), seq(b.args.iter().map(ex).collect())])).collect()),
        seq(m
            .derived_columns
            .iter()
            .map(|d| {
                let m = match &d.computation_method {
                    ComputationMethod::Constant(k) => node("const", "", vec![fe(k)]),
                    ComputationMethod::QuotientOrZero(a, b) => node("quot", "", vec![ex(a), ex(b)]),
                };
                node("der", "", vec![rf(&d.variable), m])
            })
            .collect()),
    ])
}
fn block<I>(b: &SuperBlock<I>, f: &impl Fn(&I) -> Value) -> Value {
    seq(b.blocks().map(|b| node("block", b.start_pc, b.instructions.iter().map(f).collect())).collect())
}
fn instr(i: &ToyInstr) -> Value {
    node("instr", i.op, vec![seq(i.args.iter().map(num).collect()), num(i.branching), num(i.allowed)])
}
fn subs(s: &[Vec<Substitution>]) -> Value {
    seq(s.iter().map(|v| seq(v.iter().map(|s| seq(vec![num(s.original_poly_index), num(s.apc_poly_id)])).collect())).collect())
}
fn partition(p: &Partition<BlockCell>) -> Value {
    // cells are observable through their ordering and debug format only
    set(p.to_classes().iter().map(|c| set(c.iter().map(|x| num(format!("{x:?}"))).collect())).collect())
}
fn emp(e: &EmpiricalConstraints) -> Value {
    seq(vec![
        seq(e.column_ranges_by_pc.iter().map(|(pc, v)| node("at", pc, v.iter().map(|(a, b)| seq(vec![num(a), num(b)])).collect())).collect()),
        seq(e.equivalence_classes_by_block.iter().map(|(pc, p)| node("at", pc, vec![partition(p)])).collect()),
        seq(e.pc_counts.iter().map(|(pc, n)| node("at", pc, vec![num(n)])).collect()),
        seq(e.debug_info.air_id_by_pc.iter().map(|(pc, n)| node("at", pc, vec![num(n)])).collect()),
        seq(e.debug_info.column_names_by_air_id.iter().map(|(pc, n)| node("at", pc, n.iter().map(|s| name(s)).collect())).collect()),
    ])
}
fn buses<C>(b: &BusMap<C>, f: &impl Fn(&C) -> Value) -> Value
where
    C: PartialEq + Eq + Clone + std::fmt::Display,
{
    set(b
        .all_types_by_id()
        .iter()
        .map(|(i, t)| {
            let t = match t {
                BusType::ExecutionBridge => node("exec", "", vec![]),
                BusType::Memory => node("mem", "", vec![]),
                BusType::PcLookup => node("pc", "", vec![]),
                BusType::Other(c) => node("other", "", vec![f(c)]),
            };
            node("id", i, vec![t])
        })
        .collect())
}
fn ovm(t: &OpenVmBusType) -> Value {
    match t {
        OpenVmBusType::VariableRangeChecker => node("var", "", vec![]),
        OpenVmBusType::TupleRangeChecker(s) => node("tuple", "", vec![num(s[0]), num(s[1])]),
        OpenVmBusType::BitwiseLookup => node("bitwise", "", vec![]),
    }
}

// ---------------------------------------------------------------- generation
fn field<T: FieldElement>(r: &mut Rng) -> T {
    let p = T::modulus().to_arbitrary_integer();
    let bits = (T::BITS as usize);
    T::from(value(r, &p, bits) % p)
}
fn big(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => u64::MAX - r.below(3),
        1 => (1 << 63) - 1 + r.below(3),
        2 => (1 << 32) - 1 + r.below(3),
        _ => r.below(12),
    }
}
fn big32(r: &mut Rng) -> u32 {
    if r.chance(1, 3) { u32::MAX - r.below(3) as u32 } else { r.below(9) as u32 }
}
fn label(r: &mut Rng) -> String {
    let pool = ["a", "", "x@3", "@", "pc 1", "\u{e4}\u{2211}", "q\"\\", "-", "+", "*", "7", "null", "a@b@9",
        "a_name_of_exactly_thirty_two_byt", "Row ", "line\nbreak", "comma,semi;", "0x12", "reads_aux__0__base__prev_timestamp_0"];
    let mut s = r.pick(&pool).to_string();
    if r.chance(1, 3) {
        s = format!("{s}_{}", r.below(30));
    }
    s
}
fn reference(r: &mut Rng) -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(label(r)), id: big(r) }
}
fn expr<T: FieldElement>(r: &mut Rng, d: u32) -> AlgebraicExpression<T> {
    match if d == 0 { r.below(2) } else { r.below(8) } {
        0 => AlgebraicExpression::Reference(reference(r)),
        1 => AlgebraicExpression::Number(field(r)),
        2 | 3 => AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation {
            op: AlgebraicUnaryOperator::Minus,
            expr: Box::new(expr(r, d - 1)),
        }),
        _ => AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
            left: Box::new(expr(r, d - 1)),
            op: *r.pick(&[AlgebraicBinaryOperator::Add, AlgebraicBinaryOperator::Sub, AlgebraicBinaryOperator::Mul]),
            right: Box::new(expr(r, d - 1)),
        }),
    }
}
fn gen_machine<T: FieldElement>(r: &mut Rng, known: bool) -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: (0..r.below(4)).map(|_| SymbolicConstraint { expr: expr(r, 3) }).collect(),
        bus_interactions: (0..r.below(3))
            .map(|_| SymbolicBusInteraction { id: if known { r.below(6) } else { big(r) }, mult: expr(r, 2), args: (0..r.below(4)).map(|_| expr(r, 2)).collect() })
            .collect(),
        derived_columns: (0..r.below(3))
            .map(|_| {
                let v = reference(r);
                let m = if r.chance(1, 2) { ComputationMethod::Constant(field(r)) } else { ComputationMethod::QuotientOrZero(expr(r, 2), expr(r, 2)) };
                DerivedVariable::new(v, m)
            })
            .collect(),
    }
}
fn gen_block(r: &mut Rng) -> SuperBlock<ToyInstr> {
    let v: Vec<BasicBlock<ToyInstr>> = (0..r.range(1, 3))
        .map(|_| BasicBlock {
            start_pc: big(r),
            instructions: (0..r.below(4))
                .map(|_| ToyInstr { op: r.below(9) as usize, args: (0..r.below(3)).map(|_| big(r)).collect(), branching: r.chance(1, 2), allowed: r.chance(1, 2) })
                .collect(),
        })
        .collect();
    SuperBlock::from(v)
}
fn gen_subs(r: &mut Rng) -> Vec<Vec<Substitution>> {
    (0..r.below(4)).map(|_| (0..r.below(4)).map(|_| Substitution { original_poly_index: r.below(40) as usize, apc_poly_id: big(r) }).collect()).collect()
}
fn gen_assume(r: &mut Rng) -> (Vec<powdr_autoprecompiles::execution::OptimisticConstraint<u8, u64>>, Assume) {
    let len = r.range(1, 5) as usize;
    let run = exec::run(r, len + 3);
    let mut c = exec::cons(r, len, &run, 0);
    if r.chance(1, 3) {
        c.clear();
    }
    (c.clone(), OptimisticConstraints::from_constraints(c))
}
fn gen_apc<T: FieldElement>(r: &mut Rng, known: bool) -> Apc<T, ToyInstr, u8, u64> {
    Apc { block: gen_block(r), machine: gen_machine(r, known), subs: gen_subs(r), optimistic_constraints: gen_assume(r).1 }
}
fn apc<T: FieldElement>(a: &Apc<T, ToyInstr, u8, u64>, orig: &Assume) -> Value {
    seq(vec![block(&a.block, &instr), machine(&a.machine), subs(&a.subs), num(a.optimistic_constraints == *orig)])
}
fn gen_emp(r: &mut Rng) -> EmpiricalConstraints {
    let w = part::world(r);
    let mut e = part::stats(r, &w);
    for _ in 0..r.below(3) {
        let (a, b) = (big32(r), big32(r));
        e.column_ranges_by_pc.insert(big32(r), vec![(a, b)]);
        e.pc_counts.insert(big32(r), big(r));
        e.debug_info.column_names_by_air_id.insert(r.below(40) as usize, (0..r.below(3)).map(|_| label(r)).collect());
        e.debug_info.air_id_by_pc.insert(big32(r), r.below(1000) as usize);
        let k = r.below(3);
        let cells: Vec<Vec<BlockCell>> = (0..k).map(|i| (0..r.below(4)).map(|c| BlockCell::new(i as usize * 7, c as usize)).collect()).collect();
        e.equivalence_classes_by_block.insert(big(r), cells.into_iter().collect());
    }
    e
}

// ---------------------------------------------------------------- formats
fn guard<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| {
        Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
    })
}
fn st<E: std::fmt::Display>(e: E) -> String {
    format!("{e}")
}
fn round<X: Serialize + DeserializeOwned>(fmt: &str, x: &X) -> Result<X, String> {
    guard(|| match fmt {
        "json" => serde_json::from_str(&serde_json::to_string(x).map_err(st)?).map_err(st),
        "jsonvalue" => serde_json::from_value(serde_json::to_value(x).map_err(st)?).map_err(st),
        "pretty" => serde_json::from_reader(serde_json::to_string_pretty(x).map_err(st)?.as_bytes()).map_err(st),
        "cbor" => serde_cbor::from_slice(&serde_cbor::to_vec(x).map_err(st)?).map_err(st),
        "file" => {
            let d = tmp();
            let p = d.join("x.cbor");
            x.write(&p).map_err(st)?;
            let y = X::read(&mut std::fs::File::open(&p).map_err(st)?);
            std::fs::remove_file(p).ok();
            Ok(y)
        }
        _ => unreachable!(),
    })
}
fn tmp() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("powdr-verif-ser-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
const FMTS: [&str; 5] = ["json", "jsonvalue", "pretty", "cbor", "file"];

struct Log {
    out: std::io::BufWriter<std::fs::File>,
    n: u64,
    fails: u64,
}
impl Log {
    fn put(&mut self, v: Value) {
        self.n += 1;
        writeln!(self.out, "{v}").unwrap();
    }
    fn save<X>(&mut self, kind: &str, fmt: &str, x: &X, y: Result<X, String>, f: impl Fn(&X) -> Value) {
        let before = f(x);
        let (ok, after, err) = match y {
            Ok(y) => (true, f(&y), String::new()),
            Err(e) => (false, node("none", "", vec![]), e),
        };
        if !ok || before != after {
            self.fails += 1;
        }
        self.put(json!({"kind": "save", "what": kind, "fmt": fmt, "before": before, "after": after, "ok": ok, "err": err}));
    }
}

fn generic<T: FieldElement>(f: &str, r: &mut Rng, n: u64, log: &mut Log) {
    let p = T::modulus().to_arbitrary_integer();
    let bits = (T::BITS as usize);
    for i in 0..n {
        let fmt = FMTS[(i % 5) as usize];
        let x: T = field(r);
        log.save("field", fmt, &x, round(fmt, &x), fe);
        let x: AlgebraicExpression<T> = expr(r, 4);
        log.save("expression", fmt, &x, round(fmt, &x), ex);
        let x: SymbolicMachine<T> = gen_machine(r, false);
        log.save("machine", fmt, &x, round(fmt, &x), machine);
        let x: Apc<T, ToyInstr, u8, u64> = gen_apc(r, false);
        let o = x.optimistic_constraints.clone();
        log.save("precompile", fmt, &x, round(fmt, &x), |a| apc(a, &o));
        // together with its bus map, as exported
        let b: BusMap<OpenVmBusType> = gen_bus(r);
        let x = ApcWithBusMap { apc: gen_apc::<T>(r, false), bus_map: b };
        let o = x.apc.optimistic_constraints.clone();
        log.save("exported precompile", fmt, &x, round(fmt, &x), |a| seq(vec![apc(&a.apc, &o), buses(&a.bus_map, &ovm)]));
        if i % 2 == 0 {
            let st = |r: &mut Rng| AirStats { main_columns: r.below(100) as usize, constraints: r.below(100) as usize, bus_interactions: r.below(100) as usize };
            let x = ApcWithStats::new(Arc::new(gen_apc::<T>(r, false)), big(r), EvaluationResult { before: st(r), after: st(r) });
            let o = x.apc().optimistic_constraints.clone();
            log.save("precompile with costs", fmt, &x, round(fmt, &x), |a| {
                let e = a.evaluation_result();
                seq(vec![apc(a.apc(), &o), num(a.stats()), num(format!("{:?} {:?}", e.before, e.after))])
            });
        }
        // csv
        let names: std::collections::BTreeSet<String> = (0..r.range(1, 4)).map(|_| label(r)).filter(|s| s != "Row" && !s.is_empty()).collect();
        if !names.is_empty() {
            let cols: Vec<(String, Vec<T>)> = names.into_iter().map(|s| (s, (0..r.below(5)).map(|_| field(r)).collect())).collect();
            for (m, mode) in [("csv signed", CsvRenderMode::SignedBase10), ("csv unsigned", CsvRenderMode::UnsignedBase10), ("csv hex", CsvRenderMode::Hex)] {
                let back = guard(|| {
                    let mut buf: Vec<u8> = vec![];
                    write_polys_csv_file(&mut buf, mode, &cols.iter().map(|(n, v)| (n, v.as_slice())).collect::<Vec<_>>());
                    Ok(read_polys_csv_file::<T>(buf.as_slice()))
                });
                log.save("columns", m, &cols, back, |c| seq(c.iter().map(|(n, v)| seq(vec![name(n), seq(v.iter().map(fe).collect())])).collect()));
            }
        }
        // raw data
        let a: BigUint = match r.below(4) {
            0 => p.clone() + BigUint::from(r.below(3)),
            1 => (BigUint::from(1u32) << if f == "bn254" { 256 } else { 64 }) - BigUint::from(1 + r.below(3)),
            2 => {
                let w = if f == "bn254" { 256 } else if bits > 32 { 64 } else { *r.pick(&[32usize, 33, 64]) };
                rand_big(r, w)
            }
            _ => value(r, &p, bits) % &p,
        };
        for fmt in ["json", "cbor"] {
            let (data, wf): (Value, &str) = if f == "bn254" {
                let mut b = a.to_le_bytes().to_vec();
                b.resize(32, 0);
                let mut wf = "int";
                match r.below(4) {
                    0 => {
                        let k = r.range(1, 3) as usize;
                        wf = "bad";
                        if r.chance(1, 2) { b.truncate(32 - k) } else { b.extend(vec![if r.chance(1, 2) { 0 } else { 7 }; k]) }
                    }
                    1 if fmt == "json" => {
                        let mut v: Vec<Value> = b.iter().map(|x| json!(x)).collect();
                        v[r.below(32) as usize] = r.pick(&[json!(256), json!(-1), json!("x"), json!(1.5), json!(null)]).clone();
                        let got = raw::<T>("json", &json!({"value": v}), None);
                        log.put(json!({"kind": "raw", "f": f, "fmt": fmt, "wf": "bad", "a": limbs(&a), "r": got}));
                        continue;
                    }
                    _ => {}
                }
                let got = raw::<T>(fmt, &json!({"value": b.iter().map(|x| json!(x)).collect::<Vec<_>>()}), Some(&b));
                log.put(json!({"kind": "raw", "f": f, "fmt": fmt, "wf": wf, "a": limbs(&a), "r": got}));
                continue;
            } else if r.chance(1, 5) {
                (r.pick(&[json!(-1), json!("5"), json!(1.5), json!(null), json!(true), json!([1, 2]), json!({}), json!(-2147483648i64)]).clone(), "bad")
            } else {
                (json!(u64::try_from(&a).unwrap()), "int")
            };
            let got = raw::<T>(fmt, &data, None);
            log.put(json!({"kind": "raw", "f": f, "fmt": fmt, "wf": wf, "a": limbs(&a), "r": got}));
        }
    }
}
fn raw<T: FieldElement>(fmt: &str, v: &Value, bytes: Option<&[u8]>) -> Value {
    let got = guard(|| -> Result<T, String> {
        match fmt {
            "json" => serde_json::from_str(&v.to_string()).map_err(st),
            _ => {
                let b = match bytes {
                    Some(b) => {
                        let m: std::collections::BTreeMap<_, _> =
                            [(serde_cbor::Value::Text("value".into()), serde_cbor::Value::Bytes(b.to_vec()))].into();
                        serde_cbor::to_vec(&serde_cbor::Value::Map(m)).unwrap()
                    }
                    None => serde_cbor::to_vec(v).unwrap(),
                };
                serde_cbor::from_slice(&b).map_err(st)
            }
        }
    });
    match got {
        Ok(x) => json!([limbs(&x.to_integer().to_arbitrary_integer())]),
        Err(_) => json!([]),
    }
}
fn gen_bus(r: &mut Rng) -> BusMap<OpenVmBusType> {
    let t = [
        BusType::ExecutionBridge,
        BusType::Memory,
        BusType::PcLookup,
        BusType::Other(OpenVmBusType::VariableRangeChecker),
        BusType::Other(OpenVmBusType::BitwiseLookup),
        BusType::Other(OpenVmBusType::TupleRangeChecker([big32(r), big32(r)])),
    ];
    let ids: std::collections::BTreeSet<u64> = (0..r.below(7)).map(|_| big(r)).collect();
    BusMap::from_id_type_pairs(ids.into_iter().map(|i| (i, *r.pick(&t))))
}

/// saves <seed> <count> <out>
pub fn cases(seed: u64, n: u64, path: &str) {
    let r = &mut Rng::new(seed ^ 0x5E7);
    let mut log = Log { out: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), n: 0, fails: 0 };
    generic::<BabyBearField>("babybear", r, n, &mut log);
    generic::<KoalaBearField>("koalabear", r, n, &mut log);
    generic::<Mersenne31Field>("mersenne31", r, n, &mut log);
    generic::<GoldilocksField>("goldilocks", r, n, &mut log);
    generic::<Bn254Field>("bn254", r, n, &mut log);
    for i in 0..n {
        let fmt = FMTS[(i % 5) as usize];
        let e = gen_emp(r);
        log.save("statistics", fmt, &e, round(fmt, &e), emp);
        let b = gen_bus(r);
        log.save("bus map", fmt, &b, round(fmt, &b), |b| buses(b, &ovm));
        let (_, a) = gen_assume(r);
        log.save("assumptions", fmt, &a, round(fmt, &a), |x| num(*x == a));
        // the exported file of a precompile
        set_p(*r.pick(&[7, 13]));
        let x: Apc<Fp, ToyInstr, u8, u64> = gen_apc(r, true);
        let o = x.optimistic_constraints.clone();
        let back = guard(|| {
            let d = tmp().join("exp");
            let mut eo = ExportOptions::new(Some(d.clone()), &[], ExportLevel::OnlyAPC);
            eo.export_apc::<ToyAdapter>(&x, None, &bus_map());
            let f = std::fs::read_dir(&d).map_err(st)?.filter_map(|f| f.ok()).map(|f| f.path()).find(|p| p.extension().is_some_and(|e| e == "json")).ok_or("no file")?;
            let s = std::fs::read_to_string(f).map_err(st)?;
            std::fs::remove_dir_all(&d).ok();
            let y: ApcWithBusMap<Apc<Fp, SimpleInstruction<Fp>, u8, u64>, BusMap<String>> = serde_json::from_str(&s).map_err(st)?;
            Ok(y)
        });
        let before = seq(vec![
            block(&x.block, &|i: &ToyInstr| seq(i.pc_lookup_row(0)[1..].iter().map(fe).collect())),
            machine(&x.machine), subs(&x.subs), num(true), buses(&bus_map(), &|s| name(s)),
        ]);
        let (ok, after, err) = match back {
            Ok(y) => (true, seq(vec![
                block(&y.apc.block, &|i: &SimpleInstruction<Fp>| seq(i.pc_lookup_row(0).iter().map(fe).collect())),
                machine(&y.apc.machine), subs(&y.apc.subs), num(y.apc.optimistic_constraints == o), buses(&y.bus_map, &|s| name(s)),
            ]), String::new()),
            Err(e) => (false, node("none", "", vec![]), e),
        };
        log.put(json!({"kind": "save", "what": "export file", "fmt": "json", "before": before, "after": after, "ok": ok, "err": err}));
        // a constraint system read back as a machine
        let p = *r.pick(&[7u64, 11]);
        set_p(p);
        let mut s = random_system(r, &Toy::for_p(p), 3, 2, false);
        let mut lin = |r: &mut Rng| c(r.below(p)) + c(r.below(p)) * v(r.below(3) as usize) - v(r.below(3) as usize) * v(r.below(3) as usize);
        for _ in 0..r.below(3) {
            let m = if r.chance(1, 2) { Method::Const(r.below(p)) } else { Method::Quot(lin(r), lin(r)) };
            s.derived.push((r.below(3) as usize, m));
        }
        if s.all_vars().iter().any(|x| *x > 3) {
            continue;
        }
        let back = guard(|| serde_json::from_str::<SymbolicMachine<Fp>>(&serde_json::to_string(&to_system::<Fp, _>(&s, &aref)).map_err(st)?).map_err(st));
        let (ok, m) = match &back {
            Ok(m) => (true, from_machine(m)),
            Err(_) => (false, Sys::default()),
        };
        log.put(json!({"kind": "system", "toy": Toy::for_p(p).json(), "n": s.all_vars().iter().max().map_or(0, |x| x + 1), "before": s.json(), "after": m.json(), "ok": ok}));
    }
    std::fs::remove_dir_all(tmp()).ok();
    println!("{}", json!({"cases": log.n, "differing": log.fails}));
}
