//! C16: the OpenVM bus knowledge at real size: refinement of payload facts, pure range checks, batched re-encoding.
use crate::rng::Rng;
use powdr_autoprecompiles::bus_map::BusType;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::memory_optimizer::{MemoryBusInteraction, MemoryOp};
use powdr_autoprecompiles::range_constraint_optimizer::{optimize_range_constraints, RangeConstraintHandler};
use powdr_autoprecompiles::DegreeBound;
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler, ConstraintSystem};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{BabyBearField, FieldElement, KoalaBearField, LargeInt};
use powdr_openvm_bus_interaction_handler::bus_map::{BusMap, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type G<T> = GroupedExpression<T, String>;
const KINDS: [&str; 6] = ["exec", "mem", "pc", "var", "bitwise", "tuple"];

struct World<T: FieldElement> {
    h: OpenVmBusInteractionHandler<T>,
    ids: [u64; 6],
    sizes: [u32; 2],
    p: u64,
}
fn u<T: FieldElement>(x: T) -> u64 {
    x.to_integer().try_into_u64().unwrap()
}
fn world<T: FieldElement>(r: &mut Rng) -> World<T> {
    let sizes = [256, *r.pick(&[2048u32, 8192, 2048, 16, 256, 4096])];
    // any numbering of the buses
    let mut ids = [0u64, 1, 2, 3, 6, 7];
    if r.chance(2, 3) {
        for i in (1..6).rev() {
            ids.swap(i, r.below(i as u64 + 1) as usize);
        }
        let d = r.below(20);
        ids.iter_mut().for_each(|x| *x += d);
    }
    let ty = [
        BusType::ExecutionBridge,
        BusType::Memory,
        BusType::PcLookup,
        BusType::Other(OpenVmBusType::VariableRangeChecker),
        BusType::Other(OpenVmBusType::BitwiseLookup),
        BusType::Other(OpenVmBusType::TupleRangeChecker(sizes)),
    ];
    let map = BusMap::from_id_type_pairs(ids.into_iter().zip(ty));
    World { h: OpenVmBusInteractionHandler::new(map), ids, sizes, p: T::modulus().try_into_u64().unwrap() }
}
fn fact<T: FieldElement>(f: &RangeConstraint<T>) -> Value {
    let (lo, hi) = f.range();
    json!([f.mask().try_into_u64().unwrap() & 0x7fff_ffff, u(lo), u(hi)])
}
fn edge(r: &mut Rng, p: u64) -> u64 {
    let b = r.below(31);
    match r.below(7) {
        0 => r.below(4),
        1 => (1 << b) - 1,
        2 => 1 << b,
        3 => p - 1 - r.below(3),
        4 | 5 => r.below(300),
        _ => r.below(p),
    }
    .min(p - 1)
}
fn rnd_fact<T: FieldElement>(r: &mut Rng, p: u64) -> RangeConstraint<T> {
    let a = match r.below(8) {
        0 | 1 => RangeConstraint::default(),
        2 | 3 => RangeConstraint::from_value(T::from(edge(r, p))),
        4 => RangeConstraint::from_range(T::from(edge(r, p)), T::from(edge(r, p))),
        5 => RangeConstraint::from_mask(r.below(256)),
        6 => RangeConstraint::from_mask((1u64 << r.below(31)) - 1),
        _ => RangeConstraint::from_mask(r.below(1 << 31)),
    };
    if r.chance(1, 6) { a.conjunction(&rnd_fact(r, p)) } else { a }
}
fn lin<T: FieldElement>(e: &G<T>) -> Value {
    let mut c = vec![];
    for (v, k) in e.linear_components() {
        c.push(json!([v[1..].parse::<u64>().unwrap(), u(*k)]));
    }
    json!({"c": c, "k": u(*e.constant_offset()), "lin": e.is_affine()})
}
fn var<T: FieldElement>(i: u64) -> G<T> {
    GroupedExpression::from_unknown_variable(format!("v{i}"))
}
fn kind_of<T: FieldElement>(w: &World<T>, id: u64) -> &'static str {
    w.ids.iter().position(|x| *x == id).map_or("none", |i| KINDS[i])
}
fn bus_json<T: FieldElement>(w: &World<T>, b: &BusInteraction<G<T>>) -> Value {
    json!({"b": b.bus_id.try_to_number().map_or("none", |i| kind_of(w, u(i))), "m": lin(&b.multiplicity),
        "a": b.payload.iter().map(lin).collect::<Vec<_>>()})
}
fn expr<T: FieldElement>(r: &mut Rng, nv: u64, p: u64) -> G<T> {
    match r.below(8) {
        0 => GroupedExpression::from_number(T::from(if r.chance(2, 3) { r.below(3) } else { edge(r, p) })),
        1 => var::<T>(r.range(1, nv)) + GroupedExpression::from_number(T::from(edge(r, p))),
        2 => -var::<T>(r.range(1, nv)) + GroupedExpression::from_number(T::from(r.below(300))),
        3 => var::<T>(r.range(1, nv)) * GroupedExpression::from_number(T::from(*r.pick(&[2u64, 4, 256, p - 2, p.div_ceil(2)]))),
        _ => var::<T>(r.range(1, nv)),
    }
}
fn interaction<T: FieldElement>(r: &mut Rng, w: &World<T>, nv: u64) -> BusInteraction<G<T>> {
    let k = *r.pick(&[3usize, 4, 4, 5]);
    let n = |x: u64| GroupedExpression::<T, String>::from_number(T::from(x));
    let payload = match k {
        3 => vec![expr(r, nv, w.p), if r.chance(1, 6) { var(r.range(1, nv)) } else { let b = *r.pick(&[0, 1, 2, 7, 8, 9, 11, 12, 16, 17, 25, 8]); n(b) }],
        4 => {
            let x = expr(r, nv, w.p);
            let y = if r.chance(1, 3) { x.clone() } else { expr(r, nv, w.p) };
            let op = if r.chance(2, 3) { n(0) } else if r.chance(1, 2) { n(1) } else { var(r.range(1, nv)) };
            let z = if r.chance(2, 3) { n(0) } else { expr(r, nv, w.p) };
            vec![x, y, z, op]
        }
        _ => vec![expr(r, nv, w.p), expr(r, nv, w.p)],
    };
    let m = match r.below(8) {
        0 => var(r.range(1, nv)),
        1 => n(w.p - 1),
        2 => n(0),
        _ => n(1),
    };
    BusInteraction { bus_id: n(w.ids[k]), multiplicity: m, payload }
}
/// Values worth trying for the variables: those that put some field on a boundary.
fn vals<T: FieldElement>(r: &mut Rng, w: &World<T>, bs: &[BusInteraction<G<T>>], nv: u64) -> Vec<Vec<u64>> {
    let mut out: Vec<std::collections::BTreeSet<u64>> = vec![[0, 1].into(); nv as usize];
    let sz = w.sizes[1] as u64;
    let fields: Vec<&G<T>> = bs.iter().flat_map(|b| b.payload.iter().chain([&b.multiplicity])).filter(|e| e.try_to_number().is_none()).collect();
    for (i, o) in out.iter_mut().enumerate() {
        let mine: Vec<_> = fields.iter().filter(|e| e.linear_components().any(|(v, _)| *v == format!("v{}", i + 1))).collect();
        if mine.is_empty() {
            continue;
        }
        for _ in 0..14 {
            let e = r.pick(&mine);
            let b = *r.pick(&[0u64, 1, 2, 7, 8, 9, 11, 12, 16, 17, 25]);
            let t = match r.below(7) {
                0 => sz,
                1 => sz - 1,
                2 | 3 => (1 << b) - 1,
                4 | 5 => 1 << b,
                _ => r.below(256),
            };
            let (_, k) = e.linear_components().next().unwrap();
            o.insert(u((T::from(t) - *e.constant_offset()) / *k));
        }
        o.insert(r.below(w.p));
        while o.len() > if nv >= 3 { 12 } else { 20 } {
            let x = *o.iter().nth(r.below(o.len() as u64) as usize).unwrap();
            o.remove(&x);
        }
    }
    out.into_iter().map(|s| s.into_iter().collect()).collect()
}
fn head<T: FieldElement>(kind: &str, w: &World<T>) -> Value {
    json!({"kind": kind, "p": w.p, "sizes": w.sizes})
}
fn put(f: &mut impl Write, mut h: Value, v: Value) {
    for (k, x) in v.as_object().unwrap() {
        h[k] = x.clone();
    }
    writeln!(f, "{h}").unwrap();
}

fn run<T: FieldElement>(r: &mut Rng, n: u64, f: &mut impl Write) -> [u64; 5] {
    let mut cnt = [0u64; 5];
    for _ in 0..n {
        let w = world::<T>(r);
        let one = |x: u64| RangeConstraint::<T>::from_value(T::from(x));
        // refinement of what is known about the fields
        let k = *r.pick(&[0usize, 1, 1, 1, 2, 3, 3, 4, 4, 4, 4, 5]);
        let len = [2, 3 + r.range(1, 4) as usize, 5, 2, 4, 2][k];
        let mut payload: Vec<RangeConstraint<T>> = (0..len).map(|_| rnd_fact(r, w.p)).collect();
        match k {
            1 => {
                if r.chance(3, 4) { payload[0] = one(*r.pick(&[1, 2, 3, 0, 4])); }
                if r.chance(1, 3) { payload[1] = one(*r.pick(&[0, 4, 1])); }
            }
            3 if r.chance(2, 3) => payload[1] = one(r.below(28)),
            4 => {
                if r.chance(2, 3) { payload[3] = one(r.below(2)); }
                if r.chance(1, 4) { payload[0] = one(r.below(256)); }
                if r.chance(1, 4) { payload[1] = one(r.below(256)); }
            }
            _ => {}
        }
        let mult = match r.below(6) {
            0 => rnd_fact(r, w.p),
            1 => one(0),
            2 | 3 => one(w.p - 1),
            _ => one(1),
        };
        let bi = BusInteraction { bus_id: one(w.ids[k]), multiplicity: mult, payload: payload.clone() };
        let got = catch_unwind(AssertUnwindSafe(|| w.h.handle_bus_interaction(bi)));
        let (ok, after, mafter) = match &got {
            Ok(b) => (true, b.payload.iter().map(fact).collect::<Vec<_>>(), fact(&b.multiplicity)),
            Err(_) => (false, vec![], json!([0, 0, 0])),
        };
        let mut pts: Vec<u64> = vec![0, 1, 255, 256, w.p - 1];
        for x in payload.iter().chain([&mult]).chain(got.iter().flat_map(|b| &b.payload)) {
            let (lo, hi) = x.range();
            pts.extend([u(lo), u(hi)]);
        }
        pts.extend((0..4).map(|_| edge(r, w.p)));
        pts.extend((0..3).map(|_| (1 << r.below(26)) - 1));
        pts.sort();
        pts.dedup();
        put(f, head("handle", &w), json!({"b": KINDS[k], "m": fact(&mult), "ma": mafter, "before": payload.iter().map(fact).collect::<Vec<_>>(), "after": after, "ok": ok, "pts": pts}));
        cnt[0] += 1;
        // one interaction as pure range checks
        let nv = r.range(1, 3);
        let b = interaction(r, &w, nv);
        if let Ok(x) = catch_unwind(AssertUnwindSafe(|| w.h.pure_range_constraints(&b))) {
            let vs = vals(r, &w, std::slice::from_ref(&b), nv);
            put(f, head("pure", &w), json!({"i": bus_json(&w, &b), "some": x.is_some(), "vals": vs,
                "out": x.clone().unwrap_or_else(|| Vec::new().into()).iter().map(|(e, c)| json!({"e": lin(e), "f": fact(c)})).collect::<Vec<_>>()}));
            cnt[1] += 1;
        }
        // batching and the whole re-encoding pass
        let bs: Vec<_> = (0..r.range(1, 5)).map(|_| interaction(r, &w, nv)).collect();
        let mut cons = vec![];
        for b in &bs {
            if b.multiplicity.try_to_number() == Some(T::one()) {
                if let Ok(Some(x)) = catch_unwind(AssertUnwindSafe(|| w.h.pure_range_constraints(b))) {
                    cons.extend(x);
                }
            }
        }
        if r.chance(1, 4) {
            let i = r.below(cons.len() as u64 + 1) as usize;
            let c = rnd_fact(r, w.p);
            // masks of more than 25 bits are no range checks of this VM
            if !(26..31).any(|b| c == RangeConstraint::from_mask((1u64 << b) - 1)) {
                cons.insert(i, (expr(r, nv, w.p), c));
            }
        }
        let vs = vals(r, &w, &bs, nv);
        if let Ok(x) = catch_unwind(AssertUnwindSafe(|| w.h.batch_make_range_constraints(cons.iter().cloned().collect::<Vec<_>>().into()))) {
            put(f, head("batch", &w), json!({"in": cons.iter().map(|(e, c)| json!({"e": lin(e), "f": fact(c)})).collect::<Vec<_>>(), "some": x.is_ok(), "vals": vs,
                "out": x.unwrap_or_default().iter().map(|b| bus_json(&w, b)).collect::<Vec<_>>()}));
            cnt[2] += 1;
        }
        let sys = ConstraintSystem { bus_interactions: bs.clone(), ..Default::default() };
        let x = catch_unwind(AssertUnwindSafe(|| optimize_range_constraints(sys, w.h.clone(), DegreeBound { identities: 1, bus_interactions: 2 })));
        match x {
            Ok(x) => {
                // bits are only checked by constraints here if they are constant
                if x.algebraic_constraints.iter().any(|c| c.expression.try_to_number().is_none()) {
                    continue;
                }
                let never = x.algebraic_constraints.iter().any(|c| c.expression.try_to_number() != Some(T::zero()));
                put(f, head("reencode", &w), json!({"in": bs.iter().map(|b| bus_json(&w, b)).collect::<Vec<_>>(), "vals": vs, "ok": true, "never": never,
                    "out": x.bus_interactions.iter().map(|b| bus_json(&w, b)).collect::<Vec<_>>()}));
            }
            Err(_) => put(f, head("reencode", &w), json!({"in": bs.iter().map(|b| bus_json(&w, b)).collect::<Vec<_>>(), "vals": vs, "ok": false, "never": true, "out": []})),
        }
        cnt[3] += 1;
        // memory accesses and statefulness
        let k = r.below(6) as usize;
        let asp = r.below(5);
        let (addr, data, ts): (G<T>, Vec<G<T>>, G<T>) = (expr(r, nv, w.p), (0..r.range(1, 4)).map(|_| expr(r, nv, w.p)).collect(), expr(r, nv, w.p));
        let m = *r.pick(&[1, w.p - 1, 1, w.p - 1, 2, 0, w.p - 2]);
        let n = |x: u64| GroupedExpression::<T, String>::from_number(T::from(x));
        let b = BusInteraction { bus_id: n(w.ids[k]), multiplicity: n(m), payload: [n(asp), addr.clone()].into_iter().chain(data.iter().cloned()).chain([ts.clone()]).collect() };
        let got = catch_unwind(AssertUnwindSafe(|| OpenVmMemoryBusInteraction::<T, String>::try_from_bus_interaction(&b, w.ids[1])));
        let o = match got {
            Ok(Ok(None)) => json!({"r": "other"}),
            Ok(Ok(Some(x))) => json!({"r": match x.op() { MemoryOp::SetNew => "set", MemoryOp::GetPrevious => "get" },
                "addr": x.addr().into_iter().map(|e| lin(&e)).collect::<Vec<_>>(), "data": x.data().iter().map(lin).collect::<Vec<_>>(), "ts": x.timestamp_limbs().iter().map(lin).collect::<Vec<_>>()}),
            _ => json!({"r": "unknown"}),
        };
        put(f, head("memory", &w), json!({"i": bus_json(&w, &b), "o": o, "stateful": w.h.is_stateful(T::from(w.ids[k]))}));
        cnt[4] += 1;
    }
    cnt
}

/// vmbus <seed> <count> <out>
pub fn cases(seed: u64, n: u64, path: &str) {
    let r = &mut Rng::new(seed ^ 0xB05);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let a = run::<BabyBearField>(r, n, &mut f);
    let b = run::<KoalaBearField>(r, n / 4 + 1, &mut f);
    let s: Vec<u64> = a.iter().zip(b).map(|(x, y)| x + y).collect();
    println!("{}", json!({"handle": s[0], "pure": s[1], "batch": s[2], "reencode": s[3], "memory": s[4], "cases": s.iter().sum::<u64>()}));
}
