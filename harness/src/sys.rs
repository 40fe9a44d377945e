//! Plain data model of constraint systems (the vocabulary shared with the TLA+ specification),
//! conversions from/to powdr's types, and a brute-force evaluator that is used ONLY to *select*
//! interesting cases. Verdicts come from the TLA+ specification (TLC).
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{
    SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine,
};
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ComputationMethod, ConstraintSystem, DerivedVariable,
};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_expression::{
    AlgebraicBinaryOperation, AlgebraicBinaryOperator, AlgebraicUnaryOperation,
    AlgebraicUnaryOperator,
};
use powdr_number::{FieldElement, LargeInt};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    C(u64),
    V(usize),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Neg(Box<E>),
}
pub fn c(n: u64) -> E {
    E::C(n)
}
pub fn v(i: usize) -> E {
    E::V(i)
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::Add(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E::Sub(Box::new(self), Box::new(o))
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E::Mul(Box::new(self), Box::new(o))
    }
}
impl std::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E::Neg(Box::new(self))
    }
}

impl E {
    pub fn eval(&self, p: u64, a: &[u64]) -> u64 {
        match self {
            E::C(n) => n % p,
            E::V(i) => a[*i],
            E::Add(x, y) => (x.eval(p, a) + y.eval(p, a)) % p,
            E::Sub(x, y) => (x.eval(p, a) + p - y.eval(p, a)) % p,
            E::Mul(x, y) => x.eval(p, a) * y.eval(p, a) % p,
            E::Neg(x) => (p - x.eval(p, a)) % p,
        }
    }
    pub fn vars(&self, out: &mut BTreeSet<usize>) {
        match self {
            E::C(_) => {}
            E::V(i) => {
                out.insert(*i);
            }
            E::Add(x, y) | E::Sub(x, y) | E::Mul(x, y) => {
                x.vars(out);
                y.vars(out);
            }
            E::Neg(x) => x.vars(out),
        }
    }
    pub fn max_var(&self) -> Option<usize> {
        let mut s = BTreeSet::new();
        self.vars(&mut s);
        s.last().copied()
    }
    /// syntactic degree
    pub fn degree(&self) -> usize {
        match self {
            E::C(_) => 0,
            E::V(_) => 1,
            E::Add(x, y) | E::Sub(x, y) => x.degree().max(y.degree()),
            E::Mul(x, y) => x.degree() + y.degree(),
            E::Neg(x) => x.degree(),
        }
    }
    /// JSON for TLC: variables are 1-based.
    pub fn json(&self) -> Value {
        match self {
            E::C(n) => json!({"o":"c","k":n}),
            E::V(i) => json!({"o":"v","k":i + 1}),
            E::Add(x, y) => json!({"o":"+","a":x.json(),"b":y.json()}),
            E::Sub(x, y) => json!({"o":"-","a":x.json(),"b":y.json()}),
            E::Mul(x, y) => json!({"o":"*","a":x.json(),"b":y.json()}),
            E::Neg(x) => json!({"o":"~","a":x.json()}),
        }
    }
    pub fn show(&self) -> String {
        match self {
            E::C(n) => format!("{n}"),
            E::V(i) => format!("v{}", i + 1),
            E::Add(x, y) => format!("({} + {})", x.show(), y.show()),
            E::Sub(x, y) => format!("({} - {})", x.show(), y.show()),
            E::Mul(x, y) => format!("({} * {})", x.show(), y.show()),
            E::Neg(x) => format!("-({})", x.show()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bus {
    pub id: u64,
    pub mult: E,
    pub args: Vec<E>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Method {
    Const(u64),
    Quot(E, E),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Sys {
    pub cons: Vec<E>,
    pub bus: Vec<Bus>,
    pub derived: Vec<(usize, Method)>,
}
impl Sys {
    pub fn vars(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for e in &self.cons {
            e.vars(&mut s)
        }
        for b in &self.bus {
            b.mult.vars(&mut s);
            b.args.iter().for_each(|a| a.vars(&mut s));
        }
        s
    }
    pub fn all_vars(&self) -> BTreeSet<usize> {
        let mut s = self.vars();
        for (x, m) in &self.derived {
            s.insert(*x);
            if let Method::Quot(a, b) = m {
                a.vars(&mut s);
                b.vars(&mut s);
            }
        }
        s
    }
    pub fn json(&self) -> Value {
        json!({
            "cons": self.cons.iter().map(E::json).collect::<Vec<_>>(),
            "bus": self.bus.iter().map(|b| json!({"id":b.id,"mult":b.mult.json(),"args":b.args.iter().map(E::json).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "der": self.derived.iter().map(|(x,m)| match m {
                Method::Const(k) => json!({"v":x+1,"m":"const","k":k}),
                Method::Quot(a,b) => json!({"v":x+1,"m":"quot","a":a.json(),"b":b.json()}),
            }).collect::<Vec<_>>(),
            "vars": self.vars().iter().map(|x| x+1).collect::<Vec<_>>(),
        })
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for e in &self.cons {
            s += &format!("  {} = 0\n", e.show());
        }
        for b in &self.bus {
            s += &format!(
                "  bus {} mult {} args [{}]\n",
                b.id,
                b.mult.show(),
                b.args.iter().map(|a| a.show()).collect::<Vec<_>>().join(", ")
            );
        }
        for (x, m) in &self.derived {
            s += &format!("  derived v{} := {m:?}\n", x + 1);
        }
        s
    }
}

// ------------------------------------------------------------------ powdr -> plain

pub fn fv<T: FieldElement>(t: T) -> u64 {
    t.to_integer().try_into_u64().unwrap()
}

pub fn from_grouped<T: FieldElement, W: Ord + Clone + Eq>(
    e: &GroupedExpression<T, W>,
    name: &impl Fn(&W) -> usize,
) -> E {
    let mut acc: Option<E> = None;
    let mut push = |e: E| {
        acc = Some(match acc.take() {
            None => e,
            Some(a) => a + e,
        })
    };
    for (l, r) in e.quadratic_components() {
        push(from_grouped(l, name) * from_grouped(r, name));
    }
    for (x, k) in e.linear_components() {
        let var = v(name(x));
        push(if fv(*k) == 1 { var } else { c(fv(*k)) * var });
    }
    let k = fv(*e.constant_offset());
    if k != 0 || acc.is_none() {
        return match acc {
            None => c(k),
            Some(a) => a + c(k),
        };
    }
    acc.unwrap()
}

pub fn from_algebraic<T: FieldElement>(e: &AlgebraicExpression<T>) -> E {
    match e {
        AlgebraicExpression::Reference(r) => v(r.id as usize),
        AlgebraicExpression::Number(n) => c(fv(*n)),
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let (l, r) = (from_algebraic(left), from_algebraic(right));
            match op {
                AlgebraicBinaryOperator::Add => l + r,
                AlgebraicBinaryOperator::Sub => l - r,
                AlgebraicBinaryOperator::Mul => l * r,
            }
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { op, expr }) => match op {
            AlgebraicUnaryOperator::Minus => -from_algebraic(expr),
        },
    }
}

pub fn from_system<T: FieldElement, W: Ord + Clone + Eq>(
    s: &ConstraintSystem<T, W>,
    name: &impl Fn(&W) -> usize,
) -> Sys {
    Sys {
        cons: s
            .algebraic_constraints
            .iter()
            .map(|c| from_grouped(&c.expression, name))
            .collect(),
        bus: s
            .bus_interactions
            .iter()
            .map(|b| Bus {
                id: fv(b.bus_id.try_to_number().expect("bus id not constant")),
                mult: from_grouped(&b.multiplicity, name),
                args: b.payload.iter().map(|a| from_grouped(a, name)).collect(),
            })
            .collect(),
        derived: s
            .derived_variables
            .iter()
            .map(|d| {
                (
                    name(&d.variable),
                    match &d.computation_method {
                        ComputationMethod::Constant(k) => Method::Const(fv(*k)),
                        ComputationMethod::QuotientOrZero(a, b) => {
                            Method::Quot(from_grouped(a, name), from_grouped(b, name))
                        }
                    },
                )
            })
            .collect(),
    }
}

pub fn from_machine<T: FieldElement>(m: &SymbolicMachine<T>) -> Sys {
    Sys {
        cons: m.constraints.iter().map(|c| from_algebraic(&c.expr)).collect(),
        bus: m
            .bus_interactions
            .iter()
            .map(|b| Bus {
                id: b.id,
                mult: from_algebraic(&b.mult),
                args: b.args.iter().map(from_algebraic).collect(),
            })
            .collect(),
        derived: m
            .derived_columns
            .iter()
            .map(|d| {
                (
                    d.variable.id as usize,
                    match &d.computation_method {
                        ComputationMethod::Constant(k) => Method::Const(fv(*k)),
                        ComputationMethod::QuotientOrZero(a, b) => {
                            Method::Quot(from_algebraic(a), from_algebraic(b))
                        }
                    },
                )
            })
            .collect(),
    }
}

// ------------------------------------------------------------------ plain -> powdr

pub fn to_grouped<T: FieldElement, W: Ord + Clone + Eq>(
    e: &E,
    var: &impl Fn(usize) -> W,
) -> GroupedExpression<T, W> {
    match e {
        E::C(n) => GroupedExpression::from_number(T::from(*n)),
        E::V(i) => GroupedExpression::from_unknown_variable(var(*i)),
        E::Add(x, y) => to_grouped(x, var) + to_grouped(y, var),
        E::Sub(x, y) => to_grouped(x, var) - to_grouped(y, var),
        E::Mul(x, y) => to_grouped::<T, W>(x, var) * to_grouped(y, var),
        E::Neg(x) => -to_grouped::<T, W>(x, var),
    }
}
pub fn aref(i: usize) -> AlgebraicReference {
    AlgebraicReference {
        name: Arc::new(format!("v{}", i + 1)),
        id: i as u64,
    }
}
pub fn to_algebraic<T: FieldElement>(e: &E) -> AlgebraicExpression<T> {
    match e {
        E::C(n) => AlgebraicExpression::Number(T::from(*n)),
        E::V(i) => AlgebraicExpression::Reference(aref(*i)),
        E::Add(x, y) => AlgebraicExpression::new_binary(
            to_algebraic(x),
            AlgebraicBinaryOperator::Add,
            to_algebraic(y),
        ),
        E::Sub(x, y) => AlgebraicExpression::new_binary(
            to_algebraic(x),
            AlgebraicBinaryOperator::Sub,
            to_algebraic(y),
        ),
        E::Mul(x, y) => AlgebraicExpression::new_binary(
            to_algebraic(x),
            AlgebraicBinaryOperator::Mul,
            to_algebraic(y),
        ),
        E::Neg(x) => AlgebraicExpression::new_unary(AlgebraicUnaryOperator::Minus, to_algebraic(x)),
    }
}
pub fn to_machine<T: FieldElement>(s: &Sys) -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: s
            .cons
            .iter()
            .map(|e| SymbolicConstraint { expr: to_algebraic(e) })
            .collect(),
        bus_interactions: s
            .bus
            .iter()
            .map(|b| SymbolicBusInteraction {
                id: b.id,
                mult: to_algebraic(&b.mult),
                args: b.args.iter().map(to_algebraic).collect(),
            })
            .collect(),
        derived_columns: s
            .derived
            .iter()
            .map(|(x, m)| {
                DerivedVariable::new(
                    aref(*x),
                    match m {
                        Method::Const(k) => ComputationMethod::Constant(T::from(*k)),
                        Method::Quot(a, b) => {
                            ComputationMethod::QuotientOrZero(to_algebraic(a), to_algebraic(b))
                        }
                    },
                )
            })
            .collect(),
    }
}
pub fn to_bus<T: FieldElement, W: Ord + Clone + Eq>(
    b: &Bus,
    var: &impl Fn(usize) -> W,
) -> BusInteraction<GroupedExpression<T, W>> {
    BusInteraction {
        bus_id: GroupedExpression::from_number(T::from(b.id)),
        multiplicity: to_grouped(&b.mult, var),
        payload: b.args.iter().map(|a| to_grouped(a, var)).collect(),
    }
}
pub fn to_system<T: FieldElement, W: Ord + Clone + Eq>(
    s: &Sys,
    var: &impl Fn(usize) -> W,
) -> ConstraintSystem<T, W> {
    ConstraintSystem {
        algebraic_constraints: s
            .cons
            .iter()
            .map(|e| AlgebraicConstraint::assert_zero(to_grouped(e, var)))
            .collect(),
        bus_interactions: s.bus.iter().map(|b| to_bus(b, var)).collect(),
        derived_variables: s
            .derived
            .iter()
            .map(|(x, m)| {
                DerivedVariable::new(
                    var(*x),
                    match m {
                        Method::Const(k) => ComputationMethod::Constant(T::from(*k)),
                        Method::Quot(a, b) => {
                            ComputationMethod::QuotientOrZero(to_grouped(a, var), to_grouped(b, var))
                        }
                    },
                )
            })
            .collect(),
    }
}

// ------------------------------------------------------------------ case selection (brute force)

/// Widths of the lookup tables of the toy VM.
#[derive(Clone, Debug)]
pub struct Toy {
    pub p: u64,
    pub max_bits: u64,
    pub tuple: (u64, u64),
    pub w: u64,
}
pub const EXEC: u64 = 0;
pub const MEM: u64 = 1;
pub const PC: u64 = 2;
pub const RANGE: u64 = 3;
pub const TUPLE: u64 = 4;
pub const BITW: u64 = 5;

impl Toy {
    pub fn for_p(p: u64) -> Toy {
        match p {
            5 => Toy { p, max_bits: 2, tuple: (2, 3), w: 2 },
            7 => Toy { p, max_bits: 2, tuple: (2, 4), w: 2 },
            11 | 13 => Toy { p, max_bits: 3, tuple: (2, 4), w: 2 },
            17 | 19 | 23 => Toy { p, max_bits: 4, tuple: (4, 8), w: 2 },
            31 => Toy { p, max_bits: 4, tuple: (4, 8), w: 3 },
            257 => Toy { p, max_bits: 8, tuple: (4, 8), w: 4 },
            _ => panic!(),
        }
    }
    pub fn json(&self) -> Value {
        json!({"p":self.p,"maxbits":self.max_bits,"t1":self.tuple.0,"t2":self.tuple.1,"w":self.w})
    }
    pub fn stateful(&self, id: u64) -> bool {
        id == EXEC || id == MEM
    }
    pub fn accepts(&self, id: u64, a: &[u64]) -> bool {
        match id {
            RANGE => a[1] <= self.max_bits && a[0] < (1 << a[1]),
            TUPLE => a[0] < self.tuple.0 && a[1] < self.tuple.1,
            BITW => {
                let m = 1 << self.w;
                a[0] < m
                    && a[1] < m
                    && match a[3] {
                        0 => a[2] == 0,
                        1 => a[2] == (a[0] ^ a[1]),
                        _ => false,
                    }
            }
            _ => true,
        }
    }
    /// All solutions of the system over `vars` (assignment vectors indexed by variable id).
    /// None if more than `limit` partial assignments would be visited.
    pub fn sols(&self, s: &Sys, order: &[usize], nvars: usize, limit: usize) -> Option<Vec<Vec<u64>>> {
        let pos: BTreeMap<usize, usize> = order.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let stage = |vs: &BTreeSet<usize>| vs.iter().map(|x| pos[x] + 1).max().unwrap_or(0);
        let mut cons: Vec<Vec<&E>> = vec![vec![]; order.len() + 1];
        let mut buses: Vec<Vec<&Bus>> = vec![vec![]; order.len() + 1];
        for e in &s.cons {
            let mut vs = BTreeSet::new();
            e.vars(&mut vs);
            cons[stage(&vs)].push(e);
        }
        for b in &s.bus {
            if self.stateful(b.id) {
                continue;
            }
            let mut vs = BTreeSet::new();
            b.mult.vars(&mut vs);
            b.args.iter().for_each(|a| a.vars(&mut vs));
            buses[stage(&vs)].push(b);
        }
        let ok = |i: usize, a: &[u64]| {
            cons[i].iter().all(|e| e.eval(self.p, a) == 0)
                && buses[i].iter().all(|b| {
                    b.mult.eval(self.p, a) == 0
                        || self.accepts(
                            b.id,
                            &b.args.iter().map(|e| e.eval(self.p, a)).collect::<Vec<_>>(),
                        )
                })
        };
        let mut cur = vec![vec![0u64; nvars]];
        if !ok(0, &cur[0]) {
            return Some(vec![]);
        }
        let mut visited = 0usize;
        for (i, x) in order.iter().enumerate() {
            let mut nxt = vec![];
            for a in &cur {
                for val in 0..self.p {
                    let mut b = a.clone();
                    b[*x] = val;
                    if ok(i + 1, &b) {
                        nxt.push(b);
                    }
                }
            }
            visited += nxt.len();
            if visited > limit {
                return None;
            }
            cur = nxt;
        }
        Some(cur)
    }
    pub fn mem_ok(&self, s: &Sys, a: &[u64]) -> bool {
        // Sequential consistency of the memory bus, chaining of the execution bus.
        let mut last: BTreeMap<Vec<u64>, Option<Vec<u64>>> = BTreeMap::new();
        let mut exec: Option<Vec<u64>> = None;
        for b in &s.bus {
            if !self.stateful(b.id) {
                continue;
            }
            let m = b.mult.eval(self.p, a);
            if m == 0 {
                continue;
            }
            let args: Vec<u64> = b.args.iter().map(|e| e.eval(self.p, a)).collect();
            if b.id == MEM {
                let key = args[..2].to_vec();
                let rest = args[2..].to_vec();
                if m == 1 {
                    last.insert(key, Some(rest));
                } else if let Some(Some(prev)) = last.insert(key, None) {
                    if prev != rest {
                        return false;
                    }
                }
            } else if m == 1 {
                exec = Some(args);
            } else if let Some(prev) = exec.take() {
                if prev != args {
                    return false;
                }
            }
        }
        true
    }
    pub fn net(&self, s: &Sys, a: &[u64]) -> BTreeMap<(u64, Vec<u64>), u64> {
        let mut net: BTreeMap<(u64, Vec<u64>), u64> = BTreeMap::new();
        for b in &s.bus {
            if self.stateful(b.id) {
                let m = b.mult.eval(self.p, a);
                let args: Vec<u64> = b.args.iter().map(|e| e.eval(self.p, a)).collect();
                let e = net.entry((b.id, args)).or_default();
                *e = (*e + m) % self.p;
            }
        }
        net.retain(|_, m| *m != 0);
        net
    }
    /// Extends an assignment of the original columns by the derived columns of `s`.
    pub fn derive(&self, s: &Sys, a: &mut [u64]) {
        for (x, m) in &s.derived {
            a[*x] = match m {
                Method::Const(k) => k % self.p,
                Method::Quot(n, d) => {
                    let (n, d) = (n.eval(self.p, a), d.eval(self.p, a));
                    (0..self.p).find(|q| d != 0 && q * d % self.p == n).unwrap_or(0)
                }
            };
        }
    }
    pub fn satisfies(&self, s: &Sys, a: &[u64]) -> bool {
        s.cons.iter().all(|e| e.eval(self.p, a) == 0)
            && s.bus.iter().all(|b| {
                self.stateful(b.id)
                    || b.mult.eval(self.p, a) == 0
                    || self.accepts(
                        b.id,
                        &b.args.iter().map(|e| e.eval(self.p, a)).collect::<Vec<_>>(),
                    )
            })
    }
}

/// A good variable order for enumeration: variables with small unary domains first, then greedily
/// those that complete constraints.
pub fn var_order(toy: &Toy, s: &Sys) -> Vec<usize> {
    let vars: Vec<usize> = s.all_vars().into_iter().collect();
    let maxv = vars.last().map_or(0, |x| x + 1);
    let mut dom: BTreeMap<usize, u64> = BTreeMap::new();
    for x in &vars {
        let mut n = 0;
        let mut a = vec![0; maxv];
        for val in 0..toy.p {
            a[*x] = val;
            let only = |e: &E| {
                let mut vs = BTreeSet::new();
                e.vars(&mut vs);
                vs.iter().all(|y| y == x)
            };
            let ok = s.cons.iter().filter(|e| only(e)).all(|e| e.eval(toy.p, &a) == 0)
                && s.bus
                    .iter()
                    .filter(|b| !toy.stateful(b.id) && only(&b.mult) && b.args.iter().all(only))
                    .all(|b| {
                        b.mult.eval(toy.p, &a) == 0
                            || toy.accepts(
                                b.id,
                                &b.args.iter().map(|e| e.eval(toy.p, &a)).collect::<Vec<_>>(),
                            )
                    });
            if ok {
                n += 1
            }
        }
        dom.insert(*x, n);
    }
    let mut items: Vec<BTreeSet<usize>> = vec![];
    for e in &s.cons {
        let mut vs = BTreeSet::new();
        e.vars(&mut vs);
        items.push(vs);
    }
    for b in &s.bus {
        if !toy.stateful(b.id) {
            let mut vs = BTreeSet::new();
            b.mult.vars(&mut vs);
            b.args.iter().for_each(|e| e.vars(&mut vs));
            items.push(vs);
        }
    }
    let mut done: BTreeSet<usize> = BTreeSet::new();
    let mut order = vec![];
    while order.len() < vars.len() {
        let best = vars
            .iter()
            .filter(|x| !done.contains(x))
            .min_by_key(|x| {
                let completes = items
                    .iter()
                    .filter(|it| it.contains(x) && it.iter().all(|y| y == *x || done.contains(y)))
                    .count() as i64;
                (dom[*x] as i64 - 3 * completes, **x)
            })
            .unwrap();
        done.insert(*best);
        order.push(*best);
    }
    order
}
