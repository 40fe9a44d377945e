//! C05: records histories of expression manipulation (grouped, symbolic and algebraic expressions).
use crate::fp::{set_p, Fp, Int};
use crate::rc::rc_json;
use crate::rng::Rng;
use crate::sys::{self, aref, from_algebraic, fv, E};
use powdr_autoprecompiles::expression::{
    try_convert, AlgebraicEvaluator, AlgebraicExpression, AlgebraicReference, MappingRowEvaluator, RowEvaluator,
    WitnessEvaluator,
};
use powdr_autoprecompiles::expression_conversion::{
    algebraic_to_grouped_expression, grouped_expression_to_algebraic,
};
use powdr_autoprecompiles::powdr::{
    make_bool, make_refs_zero, substitute_subexpressions, UniqueReferences,
};
use powdr_constraint_solver::grouped_expression::{GroupedExpression, GroupedExpressionComponent};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::runtime_constant::{RuntimeConstant, Substitutable, VarTransformable};
use powdr_constraint_solver::symbolic_expression::{
    BinaryOperator, SymbolicExpression, UnaryOperator,
};
use powdr_number::ExpressionConvertible;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAX: usize = 160;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct W(usize);
impl Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.0 + 1)
    }
}
type S = SymbolicExpression<Fp, W>;
type G<T> = GroupedExpression<T, W>;

fn size(v: &Value) -> usize {
    match v {
        Value::Object(m) => 1 + m.values().map(size).sum::<usize>(),
        _ => 0,
    }
}
fn bin(o: &str, a: Value, b: Value) -> Value {
    json!({"o": o, "a": a, "b": b})
}
fn fj(k: &Fp) -> Value {
    json!({"o": "c", "k": fv(*k)})
}
fn sj(e: &S) -> Value {
    match e {
        S::Concrete(k) => fj(k),
        S::Symbol(w, _) => json!({"o": "v", "k": w.0 + 1}),
        S::BinaryOperation(l, op, r, _) => bin(
            match op {
                BinaryOperator::Add => "+",
                BinaryOperator::Sub => "-",
                BinaryOperator::Mul => "*",
                BinaryOperator::Div => "/",
            },
            sj(l),
            sj(r),
        ),
        S::UnaryOperation(UnaryOperator::Neg, e, _) => json!({"o": "~", "a": sj(e)}),
    }
}
fn gj<T: RuntimeConstant>(e: &G<T>, f: &impl Fn(&T) -> Value) -> Value {
    let one = json!({"o": "c", "k": 1});
    let mut items: Vec<Value> = e.quadratic_components().iter().map(|(l, r)| bin("*", gj(l, f), gj(r, f))).collect();
    for (w, k) in e.linear_components() {
        let (x, k) = (json!({"o": "v", "k": w.0 + 1}), f(k));
        items.push(if k == one { x } else { bin("*", k, x) });
    }
    let k = f(e.constant_offset());
    if items.is_empty() || k != json!({"o": "c", "k": 0}) {
        items.push(k);
    }
    items.into_iter().reduce(|a, b| bin("+", a, b)).unwrap()
}

/// Observations of the real code about a grouped expression.
fn gobs<T: RuntimeConstant<FieldType = Fp>>(e: &G<T>, f: &impl Fn(&T) -> Value, n: usize) -> Value {
    let mut o = Map::new();
    o.insert("e".into(), gj(e, f));
    o.insert("deg".into(), json!(e.degree()));
    o.insert("degs".into(), json!((0..n).map(|i| e.degree_of_variable(&W(i))).collect::<Vec<_>>()));
    o.insert("vars".into(), json!(e.referenced_unknown_variables().map(|w| w.0 + 1).collect::<BTreeSet<_>>()));
    o.insert("affine".into(), json!(e.is_affine()));
    o.insert("lin".into(), json!((0..n).map(|i| e.coefficient_of_variable_in_affine_part(&W(i)).map_or(json!({"o":"c","k":0}), f)).collect::<Vec<_>>()));
    o.insert("const".into(), f(e.constant_offset()));
    o.insert("num".into(), json!(e.try_to_number().map_or(-1, |k| fv(k) as i64)));
    if let Some(k) = e.try_to_known() {
        o.insert("known".into(), f(k));
    }
    o.insert("simple".into(), json!(e.try_to_simple_unknown().map_or(0, |w| w.0 + 1)));
    if let Some((l, r)) = e.try_as_single_product() {
        o.insert("prod".into(), json!([gj(l, f), gj(r, f)]));
    }
    let parts: Vec<Value> = e
        .clone()
        .into_summands()
        .map(|c| match c {
            GroupedExpressionComponent::Quadratic(l, r) => bin("*", gj(&l, f), gj(&r, f)),
            GroupedExpressionComponent::Linear(w, k) => bin("*", f(&k), json!({"o": "v", "k": w.0 + 1})),
            GroupedExpressionComponent::Constant(k) => f(&k),
        })
        .collect();
    o.insert("parts".into(), json!(parts));
    json!(o)
}
fn sobs(e: &S, p: u64) -> Value {
    json!({
        "e": sj(e), "num": e.try_to_number().map_or(-1, |k| fv(k) as i64),
        "rc": rc_json(p, &e.range_constraint()),
        "zero": e.is_known_zero(), "one": e.is_known_one(), "mone": e.is_known_minus_one(), "nonzero": e.is_known_nonzero(),
        "allvars": e.all_children().filter_map(|x| match x { S::Symbol(w, _) => Some(w.0 + 1), _ => None }).collect::<BTreeSet<_>>(),
    })
}
fn aobs(e: &AlgebraicExpression<Fp>) -> Value {
    json!({"e": from_algebraic(e).json(), "adeg": e.degree(), "allvars": e.unique_references().map(|r| r.id + 1).collect::<BTreeSet<_>>()})
}

/// Parses a printed expression with the usual precedence rules.
fn parse(s: &str, p: u64) -> Option<E> {
    let t: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
    let mut i = 0;
    let e = sum(&t, &mut i, p)?;
    return (i == t.len()).then_some(e);
    fn sum(t: &[char], i: &mut usize, p: u64) -> Option<E> {
        let mut e = prod(t, i, p)?;
        while *i < t.len() && (t[*i] == '+' || t[*i] == '-') {
            *i += 1;
            let m = t[*i - 1] == '-';
            let r = prod(t, i, p)?;
            e = if m { e - r } else { e + r };
        }
        Some(e)
    }
    fn prod(t: &[char], i: &mut usize, p: u64) -> Option<E> {
        let mut e = unary(t, i, p)?;
        while *i < t.len() && t[*i] == '*' {
            *i += 1;
            e = e * unary(t, i, p)?;
        }
        Some(e)
    }
    fn unary(t: &[char], i: &mut usize, p: u64) -> Option<E> {
        match t.get(*i)? {
            '-' => {
                *i += 1;
                Some(-unary(t, i, p)?)
            }
            '(' => {
                *i += 1;
                let e = sum(t, i, p)?;
                (*t.get(*i)? == ')').then_some(())?;
                *i += 1;
                Some(e)
            }
            c => {
                let var = *c == 'v';
                if var {
                    *i += 1;
                }
                let st = *i;
                while *i < t.len() && t[*i].is_ascii_digit() {
                    *i += 1;
                }
                let k: u64 = t[st..*i].iter().collect::<String>().parse().ok()?;
                Some(if var { sys::v(k as usize - 1) } else { sys::c(k % p) })
            }
        }
    }
}

struct H<X> {
    regs: Vec<X>,
    steps: Vec<Value>,
    bad: bool,
}
impl<X: Clone> H<X> {
    fn new() -> Self {
        H { regs: vec![], steps: vec![], bad: false }
    }
    /// Performs `f`; unless the results are too large, records the step and keeps the results.
    fn step(&mut self, mut head: Value, f: impl FnOnce(&[X]) -> Option<(Vec<(X, Value)>, Value)>) {
        if self.bad {
            return;
        }
        match catch_unwind(AssertUnwindSafe(|| f(&self.regs))) {
            Ok(None) => {}
            Ok(Some((res, extra))) => {
                if res.iter().any(|(_, o)| size(&o["e"]) > MAX) {
                    return;
                }
                head["res"] = json!(res.iter().map(|(_, o)| o).collect::<Vec<_>>());
                if let Value::Object(m) = extra {
                    for (k, x) in m {
                        head[k] = x;
                    }
                }
                self.regs.extend(res.into_iter().map(|(x, _)| x));
                self.steps.push(head);
            }
            Err(_) => {
                self.bad = true;
                self.steps.push(json!({"op": "crash", "in": head}));
            }
        }
    }
}
fn none() -> Value {
    json!({})
}

/// Operations on grouped expressions, for both kinds of runtime constants.
#[allow(clippy::too_many_arguments)]
fn grouped<T: RuntimeConstant<FieldType = Fp> + Substitutable<W> + VarTransformable<W, W, Transformed = T>>(
    r: &mut Rng,
    n: usize,
    unk: usize,
    p: u64,
    konst: &impl Fn(&mut Rng) -> (T, Value),
    f: &impl Fn(&T) -> Value,
    len: usize,
    extra: &impl Fn(&mut Rng, &mut H<G<T>>),
) -> Vec<Value> {
    let mut h: H<G<T>> = H::new();
    let ob = |e: &G<T>| gobs(e, f, n);
    // half of the histories concentrate on nested products and substitutions into them
    let focus = r.chance(1, 2);
    for i in 0..unk {
        h.step(json!({"op": "var", "v": i + 1}), |_| {
            let e = G::from_unknown_variable(W(i));
            Some((vec![(e.clone(), ob(&e))], none()))
        });
    }
    while h.steps.len() < len && !h.bad {
        let m = h.regs.len() as u64;
        let pick = |r: &mut Rng| if r.chance(1, 2) { m - 1 - r.below(m.min(4)) } else { r.below(m) } as usize;
        let (a, b) = (pick(r), pick(r));
        let w = r.below(n as u64) as usize;
        let one = |e: G<T>| { let o = ob(&e); Some((vec![(e, o)], none())) };
        let before = h.steps.len();
        let op = match () {
            _ if !focus => r.below(24),
            _ if h.steps.len() < unk + 6 => [0, 2, 5, 7, 8, 9, 13][r.below(7) as usize],
            _ => [2, 7, 8, 14, 14, 16, 17, 18, 23, 23][r.below(10) as usize],
        };
        match op {
            0 | 1 => {
                let (k, kj) = konst(r);
                h.step(json!({"op": "const", "k": kj}), |_| one(G::from_runtime_constant(k)));
            }
            2..=4 => h.step(json!({"op": "add", "a": a + 1, "b": b + 1}), |g| one(match w % 3 {
                0 => &g[a] + &g[b],
                1 => g[a].clone() + g[b].clone(),
                _ => { let mut x = g[a].clone(); x += g[b].clone(); x }
            })),
            5 | 6 => h.step(json!({"op": "sub", "a": a + 1, "b": b + 1}), |g| one(if w % 2 == 0 { &g[a] - &g[b] } else { g[a].clone() - g[b].clone() })),
            7..=9 => h.step(json!({"op": "mul", "a": a + 1, "b": b + 1}), |g| one(g[a].clone() * g[b].clone())),
            10 => h.step(json!({"op": "neg", "a": a + 1}), |g| one(if w % 2 == 0 { -&g[a] } else { -g[a].clone() })),
            11 | 12 => {
                let (k, kj) = konst(r);
                h.step(json!({"op": "mulk", "a": a + 1, "k": kj}), |g| one(if w % 2 == 0 { g[a].clone() * k } else { g[a].clone() * &k }));
            }
            13 => {
                let cnt = if r.chance(1, 3) { r.range(8, 25) } else { r.range(0, 4) };
                let xs: Vec<usize> = (0..cnt).map(|_| pick(r)).collect();
                h.step(json!({"op": "sum", "xs": xs.iter().map(|x| x + 1).collect::<Vec<_>>()}), |g| one(xs.iter().map(|x| g[*x].clone()).sum()));
            }
            14 | 15 => {
                let (k, kj) = konst(r);
                h.step(json!({"op": "substk", "a": a + 1, "v": w + 1, "k": kj}), |g| { let mut x = g[a].clone(); x.substitute_by_known(&W(w), &k); one(x) });
            }
            16 => {
                let ks: Vec<(usize, (T, Value))> = (0..n).filter(|_| r.chance(1, 2)).collect::<Vec<_>>().into_iter().map(|i| (i, konst(r))).collect();
                // The substitutions happen one after the other.
                h.step(json!({"op": "multi", "a": a + 1, "ks": ks.iter().map(|(i, k)| json!([i + 1, k.1])).collect::<Vec<_>>()}), |g| {
                    one(g[a].clone().substitute_by_known_multi(&ks.iter().map(|(i, k)| (W(*i), k.0.clone())).collect()))
                });
            }
            17..=19 => {
                let w = w % unk;
                h.step(json!({"op": "subst", "a": a + 1, "v": w + 1, "b": b + 1}), |g| { let mut x = g[a].clone(); x.substitute_by_unknown(&W(w), &g[b]); one(x) });
            }
            20 => h.step(json!({"op": "split", "a": a + 1}), |g| {
                let (x, y) = g[a].clone().try_split_head_tail()?;
                let (ox, oy) = (ob(&x), ob(&y));
                Some((vec![(x, ox), (y, oy)], none()))
            }),
            21 => h.step(json!({"op": "extract", "a": a + 1, "v": w + 1}), |g| {
                let (k, x) = g[a].try_extract_affine_var(W(w))?;
                let o = ob(&x);
                Some((vec![(x, o)], json!({"k": f(&k)})))
            }),
            22 => {
                let mut perm: Vec<usize> = (0..unk).collect();
                for i in 0..unk {
                    perm.swap(i, r.below(unk as u64) as usize);
                }
                let perm: Vec<usize> = perm.into_iter().chain(unk..n).collect();
                h.step(json!({"op": "rename", "a": a + 1, "perm": perm.iter().map(|x| x + 1).collect::<Vec<_>>()}), |g| one(g[a].transform_var_type(&mut |w| W(perm[w.0]))));
            }
            _ => extra(r, &mut h),
        }
        let _ = (before, p);
    }
    h.steps
}

fn fp_extra(n: usize, p: u64) -> impl Fn(&mut Rng, &mut H<G<Fp>>) {
    move |r: &mut Rng, h: &mut H<G<Fp>>| {
        let ob = |e: &G<Fp>| gobs(e, &|k| fj(k), n);
        let m = h.regs.len();
        let a = m - 1 - r.below(m.min(6) as u64) as usize;
        let (w, k) = (r.below(n as u64) as usize, r.below(p));
        match r.below(11) {
            0 | 5..=7 => h.step(json!({"op": "substk", "a": a + 1, "v": w + 1, "k": {"o": "c", "k": k}}), |g| {
                let mut x = g[a].clone();
                x.substitute_simple(&W(w), Fp(k));
                let o = ob(&x);
                Some((vec![(x, o)], none()))
            }),
            1 => h.step(json!({"op": "factors", "a": a + 1}), |g| {
                let fs = g[a].to_factors();
                let fs: Vec<_> = fs.into_iter().map(|x| { let o = ob(&x); (x, o) }).collect();
                Some((fs, none()))
            }),
            2 => h.step(json!({"op": "id", "what": "to algebraic", "a": a + 1}), |g| {
                let x = g[a].transform_var_type(&mut |w| aref(w.0));
                let alg = grouped_expression_to_algebraic(x);
                let back = algebraic_to_grouped_expression(&alg).transform_var_type(&mut |r: &AlgebraicReference| W(r.id as usize));
                let o = ob(&back);
                Some((vec![(back, o)], json!({"alts": [from_algebraic(&alg).json()]})))
            }),
            3 => h.step(json!({"op": "id", "what": "print", "a": a + 1}), |g| {
                let x = g[a].clone();
                let o = ob(&x);
                let e = parse(&x.to_string(), p)?;
                Some((vec![(x, o)], json!({"alts": [e.json()], "text": g[a].to_string()})))
            }),
            // a sum of quadratic terms: many different ones, or few that partly cancel
            _ => {
                let few = r.chance(2, 3);
                let cnt = if few { r.range(3, 9) } else { r.range(15, 26) };
                let (top, kk) = if few { (2, 2) } else { (4, p) };
                let base = if few { r.below(m as u64) as usize } else { 0 };
                let xs: Vec<(usize, usize, u64, u64)> = (0..cnt)
                    .map(|_| ((base + r.below(top) as usize) % m, r.below(top.min(n as u64)) as usize, r.below(kk), if r.chance(1, 2) { 1 } else { p - 1 }))
                    .collect();
                h.step(json!({"op": "sumprod", "xs": xs.iter().map(|(a, b, k, c)| json!([a + 1, b + 1, k, c])).collect::<Vec<_>>()}), |g| {
                    let x: G<Fp> = xs
                        .iter()
                        .map(|(a, b, k, c)| {
                            let t = g[*a].clone() * (G::from_unknown_variable(W(*b)) + G::from_number(Fp(*k)));
                            if *c == 1 { t } else { -t }
                        })
                        .sum();
                    let o = ob(&x);
                    Some((vec![(x, o)], none()))
                });
                // products may become equal by a substitution
                if few && n > 1 && r.chance(2, 3) {
                    let w = r.below(2) as usize;
                    let a = h.regs.len() - 1;
                    h.step(json!({"op": "subst", "a": a + 1, "v": w + 1, "b": 2 - w}), |g| {
                        let mut x = g[a].clone();
                        x.substitute_by_unknown(&W(w), &g[1 - w]);
                        let o = ob(&x);
                        Some((vec![(x, o)], none()))
                    });
                }
            }
        }
    }
}

fn sym_const(r: &mut Rng, n: usize, unk: usize, p: u64, rcs: &[RangeConstraint<Fp>], depth: u32) -> S {
    let leaf = |r: &mut Rng| {
        if unk == n || r.chance(1, 3) {
            S::Concrete(Fp(r.below(p)))
        } else {
            let i = unk as u64 + r.below((n - unk) as u64);
            S::from_symbol(W(i as usize), rcs[i as usize])
        }
    };
    if depth == 0 || r.chance(1, 3) {
        return leaf(r);
    }
    let (a, b) = (sym_const(r, n, unk, p, rcs, depth - 1), sym_const(r, n, unk, p, rcs, depth - 1));
    match r.below(4) {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        _ => -a,
    }
}

fn symbolic(r: &mut Rng, n: usize, p: u64, rcs: &[RangeConstraint<Fp>], len: usize) -> Vec<Value> {
    let mut h: H<S> = H::new();
    let one = |e: S| { let o = sobs(&e, p); Some((vec![(e, o)], none())) };
    for i in 0..n {
        h.step(json!({"op": "var", "v": i + 1}), |_| one(S::from_symbol(W(i), rcs[i])));
    }
    while h.steps.len() < len && !h.bad {
        let m = h.regs.len() as u64;
        let pick = |r: &mut Rng| if r.chance(1, 2) { m - 1 - r.below(m.min(4)) } else { r.below(m) } as usize;
        let (a, b, w) = (pick(r), pick(r), r.below(n as u64) as usize);
        let ab = |op: &str| json!({"op": op, "a": a + 1, "b": b + 1});
        match r.below(12) {
            0 => {
                let k = r.below(p);
                h.step(json!({"op": "const", "k": {"o": "c", "k": k}}), |_| one(S::from(Fp(k))));
            }
            1 | 2 => h.step(ab("add"), |g| one(&g[a] + &g[b])),
            3 | 4 => h.step(ab("sub"), |g| one(&g[a] - &g[b])),
            5 | 6 => h.step(ab("mul"), |g| one(&g[a] * &g[b])),
            7 => h.step(json!({"op": "neg", "a": a + 1}), |g| one(-&g[a])),
            8 => {
                if !h.regs[b].is_known_zero() {
                    h.step(ab("div"), |g| one(g[a].field_div(&g[b])))
                }
            }
            9 => {
                if !h.regs[a].is_known_zero() {
                    h.step(json!({"op": "inv", "a": a + 1}), |g| one(g[a].field_inverse()))
                }
            }
            10 => {
                // do not substitute into divisions: the divisor could become zero
                if !h.regs[a].all_children().any(|x| matches!(x, S::BinaryOperation(_, BinaryOperator::Div, _, _))) {
                    h.step(json!({"op": "subst", "a": a + 1, "v": w + 1, "b": b + 1}), |g| { let mut x = g[a].clone(); x.substitute(&W(w), &g[b].clone()); one(x) })
                }
            }
            _ => h.step(json!({"op": "id", "what": "to expression", "a": a + 1}), |g| {
                let e = g[a].try_to_expression(&|k: &Fp| sys::c(fv(*k)), &|w: &W| sys::v(w.0), &|e: &E| match e { E::C(k) if *k != 0 => Some(Fp(*k)), _ => None })?;
                let o = sobs(&g[a], p);
                Some((vec![(g[a].clone(), o)], json!({"alts": [e.json()]})))
            }),
        }
    }
    h.steps
}

fn algebraic(r: &mut Rng, n: usize, p: u64, len: usize) -> Vec<Value> {
    type A = AlgebraicExpression<Fp>;
    let mut h: H<A> = H::new();
    let one = |e: A| { let o = aobs(&e); Some((vec![(e, o)], none())) };
    for i in 0..n {
        h.step(json!({"op": "var", "v": i + 1}), |_| one(A::Reference(aref(i))));
    }
    while h.steps.len() < len && !h.bad {
        let m = h.regs.len() as u64;
        let pick = |r: &mut Rng| if r.chance(1, 2) { m - 1 - r.below(m.min(4)) } else { r.below(m) } as usize;
        let (a, b, w) = (pick(r), pick(r), r.below(n as u64) as usize);
        let ab = |op: &str| json!({"op": op, "a": a + 1, "b": b + 1});
        match r.below(18) {
            0 | 1 => {
                let k = r.below(p);
                h.step(json!({"op": "const", "k": {"o": "c", "k": k}}), |_| one(A::from(Fp(k))));
            }
            2 | 3 => h.step(ab("add"), |g| one(g[a].clone() + g[b].clone())),
            4 | 5 => h.step(ab("sub"), |g| one(g[a].clone() - g[b].clone())),
            6 | 7 => h.step(ab("mul"), |g| one(g[a].clone() * g[b].clone())),
            8 => h.step(json!({"op": "neg", "a": a + 1}), |g| one(-g[a].clone())),
            9 | 10 => h.step(json!({"op": "id", "what": "grouped and back", "a": a + 1}), |g| one(grouped_expression_to_algebraic(algebraic_to_grouped_expression(&g[a])))),
            11 => h.step(json!({"op": "id", "what": "print", "a": a + 1}), |g| {
                let e = parse(&g[a].to_string(), p)?;
                Some((vec![], json!({"alts": [e.json()], "text": g[a].to_string()})))
            }),
            12 => h.step(json!({"op": "id", "what": "try_convert", "a": a + 1}), |g| one(try_convert(g[a].clone()).unwrap())),
            13 | 14 => {
                // simultaneous substitution of references by expressions that do not contain them
                let sub = &h.regs[b].clone();
                if sub.unique_references().any(|x| x.id as usize == w) {
                    continue;
                }
                h.step(json!({"op": "subst", "a": a + 1, "v": w + 1, "b": b + 1}), |g| {
                    let mut x = g[a].clone();
                    let map: BTreeMap<A, A> = [(A::Reference(aref(w)), sub.clone())].into_iter().collect();
                    substitute_subexpressions(&mut x, &map);
                    one(x)
                })
            }
            15 => h.step(json!({"op": "zero", "a": a + 1}), |g| { let mut x = g[a].clone(); make_refs_zero(&mut x); one(x) }),
            16 => h.step(json!({"op": "bool", "a": a + 1}), |g| one(make_bool(g[a].clone()))),
            _ => {
                let row: Vec<u64> = (0..n).map(|_| r.below(p)).collect();
                h.step(json!({"op": "eval", "a": a + 1, "row": row}), |g| {
                    let vals: Vec<Fp> = row.iter().map(|x| Fp(*x)).collect();
                    let rev: Vec<Fp> = vals.iter().rev().copied().collect();
                    let map: BTreeMap<u64, usize> = (0..n).map(|i| (i as u64, n - 1 - i)).collect();
                    let wit: BTreeMap<u64, Fp> = (0..n).map(|i| (i as u64, vals[i])).collect();
                    let x = RowEvaluator::new(&vals).eval_expr(&g[a]);
                    let y = MappingRowEvaluator::new(&rev, &map).eval_expr(&g[a]);
                    let z: Fp = WitnessEvaluator::<Fp, Fp, Fp>::new(&wit).eval_expr(&g[a]);
                    Some((vec![], json!({"vals": [fv(x), fv(y), fv(z)]})))
                })
            }
        }
    }
    h.steps
}

/// exprs <seed> <count> <out>
pub fn cases(seed: u64, count: u64, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut r = Rng::new(seed ^ 0xE05);
    let mut steps = 0;
    for i in 0..count {
        let (p, n) = *r.pick(&[(3, 3), (3, 4), (5, 3), (7, 2), (11, 2), (5, 2)]);
        set_p(p);
        let len = r.range(8, 22) as usize;
        let mut allow: Vec<Vec<u64>> = vec![(0..p).collect(); n];
        let (mode, unk, ev) = match i % 5 {
            0 | 1 => ("grouped", n, grouped::<Fp>(&mut r, n, n, p, &|r| { let k = Fp(r.below(p)); (k, fj(&k)) }, &|k| fj(k), len, &fp_extra(n, p))),
            2 => {
                let unk = n - r.range(1, n as u64 - 1) as usize;
                let rcs = ranges(&mut r, n, unk, p, &mut allow);
                let k = |r: &mut Rng| { let e = sym_const(r, n, unk, p, &rcs, 2); let j = sj(&e); (e, j) };
                ("known", unk, grouped::<S>(&mut r, n, unk, p, &k, &|k| sj(k), len, &|_, _| {}))
            }
            3 => {
                let rcs = ranges(&mut r, n, 0, p, &mut allow);
                ("symbolic", 0, symbolic(&mut r, n, p, &rcs, len))
            }
            _ => ("algebraic", n, algebraic(&mut r, n, p, len)),
        };
        steps += ev.len();
        writeln!(f, "{}", json!({"mode": mode, "p": p, "n": n, "unk": unk, "allow": allow, "ev": ev})).unwrap();
    }
    println!("{}", json!({"cases": count, "steps": steps}));
}

fn ranges(r: &mut Rng, n: usize, unk: usize, p: u64, allow: &mut [Vec<u64>]) -> Vec<RangeConstraint<Fp>> {
    let mut rcs = vec![RangeConstraint::default(); n];
    for i in unk..n {
        loop {
            let rc = match r.below(4) {
                0 => RangeConstraint::default(),
                1 => RangeConstraint::from_mask(Int(r.below(p.next_power_of_two()))),
                _ => RangeConstraint::from_range(Fp(r.below(p)), Fp(r.below(p))),
            };
            let vals: Vec<u64> = (0..p).filter(|x| rc.allows_value(Fp(*x))).collect();
            if !vals.is_empty() {
                allow[i] = vals;
                rcs[i] = rc;
                break;
            }
        }
    }
    rcs
}
