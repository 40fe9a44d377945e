//! C04: records the results of all range-constraint operations over tiny fields.
use crate::fp::{set_p, Fp, Int};
use crate::rng::Rng;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::LargeInt;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = RangeConstraint<Fp>;

fn full(p: u64) -> u64 {
    (1u64 << (64 - (p - 1).leading_zeros())) - 1
}
pub fn rc_json(p: u64, r: &R) -> Value {
    let (lo, hi) = r.range();
    json!([r.mask().0 & full(p), lo.0, hi.0])
}
fn g<T>(f: impl FnOnce() -> T, j: impl FnOnce(T) -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => j(v),
        Err(_) => json!([-1]), // a panic; never a legal encoding
    }
}

/// All facts constructible through the public interface (closed under conjunction and disjunction up to `limit`).
pub fn reachable(p: u64, limit: usize, r: &mut Rng) -> Vec<R> {
    set_p(p);
    let mut set = BTreeSet::new();
    for m in 0..=full(p) {
        set.insert(R::from_mask(Int(m)));
    }
    for lo in 0..p {
        set.insert(R::from_value(Fp(lo)));
        for hi in 0..p {
            set.insert(R::from_range(Fp(lo), Fp(hi)));
        }
    }
    set.insert(R::unconstrained());
    set.insert(R::default());
    let mut all: Vec<R> = set.iter().copied().collect();
    let base = all.clone();
    let tries = if p <= 7 { base.len() * base.len() } else { 4000 };
    for t in 0..tries {
        if all.len() >= limit {
            break;
        }
        let (a, b) = if p <= 7 {
            (base[t / base.len()], base[t % base.len()])
        } else {
            (*r.pick(&all), *r.pick(&base))
        };
        for c in [
            catch_unwind(AssertUnwindSafe(|| a.conjunction(&b))),
            catch_unwind(AssertUnwindSafe(|| a.disjunction(&b))),
            catch_unwind(AssertUnwindSafe(|| a.combine_sum(&b))),
        ]
        .into_iter()
        .flatten()
        {
            if set.insert(c) {
                all.push(c);
            }
        }
    }
    all
}

fn line(p: u64, a: &R, bs: &[R]) -> Value {
    let j = |r: R| rc_json(p, &r);
    let vals = |r: &R| -> Vec<u64> { r.allowed_values().map(|x| x.0).collect() };
    json!({
        "a": rc_json(p, a),
        "allow": (0..p).filter(|x| a.allows_value(Fp(*x))).collect::<Vec<_>>(),
        "single": a.try_to_single_value().map_or(-1i64, |v| v.0 as i64),
        "width": a.range_width().try_into_u64().unwrap(),
        "size": a.size_estimate().try_into_u64().unwrap(),
        "vals": g(|| vals(a), |v| json!(v)),
        "un": a.is_unconstrained(),
        "neg": g(|| -*a, j),
        "sq": g(|| a.square(), j),
        "mult": (0..p).map(|f| g(|| a.multiple(Fp(f)), j)).collect::<Vec<_>>(),
        "b": bs.iter().map(|b| json!([
            rc_json(p, b),
            g(|| a.combine_sum(b), j),
            g(|| a.combine_product(b), j),
            g(|| a.conjunction(b), j),
            g(|| a.disjunction(b), j),
            g(|| a.is_disjoint(b), |x| json!([x as u64])),
        ])).collect::<Vec<_>>(),
    })
}

/// rc <p> <max number of facts> <max partners per fact> <seed> <out>
pub fn record(p: u64, limit: usize, partners: usize, seed: u64, out: &str) {
    let mut r = Rng::new(seed ^ (p << 32));
    let all = reachable(p, limit, &mut r);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for a in &all {
        let bs: Vec<R> = if partners >= all.len() {
            all.clone()
        } else {
            (0..partners).map(|_| *r.pick(&all)).collect()
        };
        writeln!(f, "{}", line(p, a, &bs)).unwrap();
    }
    // constructors with their exact meaning, as pseudo facts
    println!("{}", json!({"facts": all.len()}));
}

/// Constructors: [kind, argument(s), result]
pub fn constructors(p: u64, out: &str) {
    set_p(p);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut w = |v: Value| writeln!(f, "{v}").unwrap();
    for m in 0..=full(p) {
        w(json!({"kind": "mask", "x": m, "y": 0, "r": g(|| R::from_mask(Int(m)), |r| rc_json(p, &r))}));
    }
    for b in 0..(64 - full(p).leading_zeros() as u64) {
        w(json!({"kind": "bit", "x": b, "y": 0, "r": g(|| R::from_max_bit(b as usize), |r| rc_json(p, &r))}));
    }
    for lo in 0..p {
        w(json!({"kind": "value", "x": lo, "y": 0, "r": g(|| R::from_value(Fp(lo)), |r| rc_json(p, &r))}));
        for hi in 0..p {
            w(json!({"kind": "range", "x": lo, "y": hi, "r": g(|| R::from_range(Fp(lo), Fp(hi)), |r| rc_json(p, &r))}));
        }
    }
    w(json!({"kind": "un", "x": 0, "y": 0, "r": g(R::unconstrained, |r| rc_json(p, &r))}));
    w(json!({"kind": "un", "x": 0, "y": 0, "r": g(R::default, |r| rc_json(p, &r))}));
}
