//! Random constraint systems built from circuit gadgets around a hidden witness.
use crate::rng::Rng;
use crate::sys::*;

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub toy: Toy,
    pub n: usize,
    /// variables that later gadgets may refer to
    pub vis: Vec<usize>,
    pub wit: Vec<u64>,
    pub sys: Sys,
    /// keep only gadgets satisfied by the hidden witness
    pub sat: bool,
    /// small domains for the witness (so that range gadgets apply)
    pub bools: Vec<usize>,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, toy: Toy, n: usize, sat: bool) -> Self {
        let p = toy.p;
        let wit = (0..n)
            .map(|_| match r.below(4) {
                0 | 1 => r.below(2),
                2 => r.below((1 << toy.w).min(p)),
                _ => r.below(p),
            })
            .collect();
        Gen { r, toy, n, vis: (0..n).collect(), wit, sys: Sys::default(), sat, bools: vec![] }
    }
    pub fn var(&mut self) -> usize {
        let i = self.r.below(self.vis.len() as u64) as usize;
        self.vis[i]
    }
    pub fn distinct(&mut self, k: usize) -> Vec<usize> {
        let mut out = vec![];
        while out.len() < k.min(self.vis.len()) {
            let x = self.var();
            if !out.contains(&x) {
                out.push(x);
            }
        }
        out
    }
    pub fn coef(&mut self) -> u64 {
        let p = self.toy.p;
        match self.r.below(8) {
            0..=3 => 1,
            4 => p - 1,
            5 => 2 % p,
            6 => 4 % p,
            _ => self.r.range(1, p - 1),
        }
    }
    pub fn ev(&self, e: &E) -> u64 {
        e.eval(self.toy.p, &self.wit)
    }
    /// linear expression of up to k variables, random constant
    pub fn lin(&mut self, k: usize) -> E {
        let k = self.r.range(1, k as u64) as usize;
        let xs = self.distinct(k);
        let mut e: Option<E> = None;
        for x in xs {
            let k = self.coef();
            let t = if k == 1 { v(x) } else { c(k) * v(x) };
            e = Some(match e {
                None => t,
                Some(e) => {
                    if self.r.chance(1, 4) {
                        e - t
                    } else {
                        e + t
                    }
                }
            });
        }
        let mut e = e.unwrap();
        if self.r.chance(1, 2) {
            let k = self.r.below(self.toy.p);
            e = e + c(k);
        }
        e
    }
    /// make a linear expression vanish at the witness by adjusting the constant
    pub fn lin0(&mut self, k: usize) -> E {
        let e = self.lin(k);
        let x = self.ev(&e);
        if x == 0 || !self.sat {
            e
        } else if self.r.chance(1, 2) {
            e + c(self.toy.p - x)
        } else {
            e - c(x)
        }
    }
    pub fn con(&mut self, e: E) {
        if !self.sat || self.ev(&e) == 0 {
            self.sys.cons.push(e);
        }
    }
    pub fn bus(&mut self, id: u64, mult: E, args: Vec<E>) {
        let vals: Vec<u64> = args.iter().map(|e| self.ev(e)).collect();
        if !self.sat || self.ev(&mult) == 0 || self.toy.accepts(id, &vals) {
            self.sys.bus.push(Bus { id, mult, args });
        }
    }
    pub fn simple_or_lin(&mut self) -> E {
        if self.r.chance(2, 3) {
            v(self.var())
        } else {
            self.lin(2)
        }
    }
    pub fn boolify(&mut self, x: usize) {
        let e = match self.r.below(3) {
            0 => v(x) * (v(x) - c(1)),
            1 => v(x) * (c(1) - v(x)),
            _ => v(x) * v(x) - v(x),
        };
        self.con(e);
        self.bools.push(x);
    }
    pub fn mult(&mut self) -> E {
        match self.r.below(6) {
            0 => {
                let x = self.var();
                v(x)
            }
            1 => {
                let p = self.toy.p;
                c(self.r.range(1, p - 1))
            }
            2 if !self.bools.is_empty() => {
                let bs = self.bools.clone();
                v(*self.r.pick(&bs))
            }
            _ => c(1),
        }
    }
    pub fn range_gadget(&mut self) {
        let p = self.toy.p;
        match self.r.below(8) {
            0..=2 => {
                let e = self.simple_or_lin();
                let m = self.mult();
                let b = self.r.range(0, self.toy.max_bits);
                let b = if self.r.chance(1, 10) { self.simple_or_lin() } else { c(b) };
                self.bus(RANGE, m, vec![e, b]);
            }
            3 => {
                let (a, b) = (self.simple_or_lin(), self.simple_or_lin());
                let m = self.mult();
                self.bus(TUPLE, m, vec![a, b]);
            }
            4 => {
                let (a, b) = (self.simple_or_lin(), self.simple_or_lin());
                let m = self.mult();
                self.bus(BITW, m, vec![a, b, c(0), c(0)]);
            }
            5 | 6 => {
                let a = self.simple_or_lin();
                let b = if self.r.chance(1, 4) {
                    c(self.r.below(1 << self.toy.w))
                } else {
                    self.simple_or_lin()
                };
                let z = match self.r.below(4) {
                    0 => c(self.r.below(p)),
                    1 => {
                        let s = (self.ev(&a) ^ self.ev(&b)) % p;
                        let e = self.simple_or_lin();
                        let x = self.ev(&e);
                        e + c((s + p - x) % p)
                    }
                    _ => self.simple_or_lin(),
                };
                let m = self.mult();
                let op = if self.r.chance(1, 6) { self.simple_or_lin() } else { c(1) };
                self.bus(BITW, m, vec![a, b, z, op]);
            }
            _ => {
                let e = {
                    let (a, b) = (self.lin(2), self.lin(2));
                    a * b
                };
                let b = self.r.range(0, self.toy.max_bits);
                self.bus(RANGE, c(1), vec![e, c(b)]);
            }
        }
    }
    pub fn gadget(&mut self) {
        let p = self.toy.p;
        match self.r.below(22) {
            0 | 1 => {
                let x = self.var();
                self.boolify(x);
            }
            2..=4 => self.range_gadget(),
            5 | 6 => {
                let e = self.lin0(3);
                self.con(e);
            }
            7 => {
                let (a, b) = (self.lin0(2), self.lin(2));
                self.con(a * b);
            }
            8 => {
                let (a, b) = (self.lin(2), self.lin(2));
                let e = a * b;
                let k = self.ev(&e);
                let l = self.lin(2);
                let lk = self.ev(&l);
                self.con(e + l - c((k + lk) % p));
            }
            9 => {
                // is-zero gadget: x*inv = 1-f, x*f = 0
                let xs = self.distinct(3);
                if xs.len() == 3 {
                    let (x, i, f) = (xs[0], xs[1], xs[2]);
                    if self.sat && self.wit[x] == 0 {
                        self.wit_set(f, 1);
                    } else if self.sat {
                        let xi = self.wit[x];
                        self.wit_set(i, (0..p).find(|q| q * xi % p == 1).unwrap());
                        self.wit_set(f, 0);
                    }
                    self.con(v(x) * v(i) - (c(1) - v(f)));
                    self.con(v(x) * v(f));
                }
            }
            10 => {
                // one-hot
                let xs = self.distinct(2);
                for x in &xs {
                    self.boolify(*x);
                }
                let s = xs.iter().fold(None, |acc: Option<E>, x| {
                    Some(match acc {
                        None => v(*x),
                        Some(a) => a + v(*x),
                    })
                });
                if self.r.chance(1, 2) {
                    self.con(s.unwrap() - c(1));
                } else {
                    let s = s.unwrap();
                    self.con(s.clone() * (s - c(1)));
                }
            }
            11 | 12 => {
                // conditional: flag * (lin)
                let f = if self.bools.is_empty() || self.r.chance(1, 4) {
                    self.var()
                } else {
                    *self.r.pick(&self.bools.clone())
                };
                let l = self.lin0(2);
                let fe = if self.r.chance(1, 3) { c(1) - v(f) } else { v(f) };
                self.con(fe * l);
            }
            13 => {
                // limb decomposition
                let xs = self.distinct(3);
                if xs.len() == 3 {
                    let w = self.toy.w;
                    let m = 1u64 << w;
                    let (x, a, b) = (xs[0], xs[1], xs[2]);
                    if self.sat {
                        let (va, vb) = (self.wit[a] % m, self.wit[b] % m.min(p / m + 1).max(1));
                        self.wit_set(a, va);
                        self.wit_set(b, vb);
                        self.wit_set(x, (va + m * vb) % p);
                    }
                    self.con(v(x) - v(a) - c(m) * v(b));
                    self.bus(BITW, c(1), vec![v(a), v(b), c(0), c(0)]);
                }
            }
            14 => {
                // triple product
                let (a, b, d) = (self.lin0(1), self.lin(1), self.lin(1));
                self.con(a * b * d);
            }
            15 => {
                // redundant copy (scaled or multiplied) of an existing constraint
                if !self.sys.cons.is_empty() {
                    let i = self.r.below(self.sys.cons.len() as u64) as usize;
                    let e = self.sys.cons[i].clone();
                    let k = self.coef();
                    let l = self.lin(1);
                    let e = match self.r.below(4) {
                        0 => c(k) * e,
                        1 => -e,
                        2 => e * l,
                        _ => e,
                    };
                    self.con(e);
                }
            }
            16 => {
                // redundant copy of a bus interaction
                if !self.sys.bus.is_empty() {
                    let b = self.r.pick(&self.sys.bus.clone()).clone();
                    if !self.toy.stateful(b.id) {
                        self.sys.bus.push(b);
                    }
                }
            }
            17 => {
                // x*a = 0 and x*b = 0
                let x = self.lin0(1);
                let (a, b) = (self.lin(1), self.lin(1));
                self.con(x.clone() * a);
                self.con(x * b);
            }
            18 => {
                // sum of squares-like / difference of decompositions
                let (a, b) = (self.lin(1), self.lin(1));
                let e = a.clone() * a + b.clone() * b;
                self.con(e);
            }
            19 => {
                // k*x*y + lin
                let xs = self.distinct(2);
                if xs.len() == 2 {
                    let k = self.coef();
                    let e = c(k) * v(xs[0]) * v(xs[1]);
                    let kk = self.ev(&e);
                    let z = self.lin(1);
                    let zk = self.ev(&z);
                    self.con(e - z + c((zk + p - kk) % p));
                }
            }
            20 => {
                // equality
                let xs = self.distinct(2);
                if xs.len() == 2 {
                    let d = (self.wit[xs[0]] + p - self.wit[xs[1]]) % p;
                    self.con(v(xs[0]) - v(xs[1]) - c(d));
                }
            }
            _ => {
                // constant assignment
                let x = self.var();
                let k = self.wit[x];
                self.con(v(x) - c(k));
            }
        }
    }
    pub fn fresh(&mut self, val: u64) -> usize {
        self.wit.push(val % self.toy.p);
        self.n += 1;
        self.vis.push(self.n - 1);
        self.n - 1
    }
    /// a variable that no later gadget refers to
    pub fn hidden(&mut self, val: u64) -> usize {
        let x = self.fresh(val);
        self.vis.pop();
        x
    }
    /// a fresh or existing variable known to be below 2^bits
    pub fn small(&mut self, bits: u64) -> usize {
        let old: Vec<usize> = self.vis.iter().copied().filter(|x| self.wit[*x] < 1 << bits).collect();
        let x = if !old.is_empty() && self.r.chance(1, 2) {
            *self.r.pick(&old)
        } else {
            let val = self.r.below(1 << bits);
            self.fresh(val)
        };
        match self.r.below(4) {
            0 if bits == self.toy.w => {
                let y = self.small_pair(bits);
                self.bus(BITW, c(1), vec![v(x), y, c(0), c(0)]);
            }
            1 if bits == 1 => self.boolify(x),
            _ => self.bus(RANGE, c(1), vec![v(x), c(bits)]),
        }
        x
    }
    fn small_pair(&mut self, bits: u64) -> E {
        let old: Vec<usize> = self.vis.iter().copied().filter(|x| self.wit[*x] < 1 << bits).collect();
        if old.is_empty() {
            c(0)
        } else {
            v(*self.r.pick(&old))
        }
    }
    /// Structures that specific optimizations look for.
    pub fn special(&mut self) {
        let p = self.toy.p;
        let inv = |x: u64| (1..p).find(|q| q * x % p == 1).unwrap_or(0);
        let sbits = if p >= 19 { 2 } else { 1 };
        match self.r.below(8) {
            0 | 1 => {
                // X * V1 + Y * V2 = R with V1, V2 occurring only here (inverse markers)
                let k = self.r.range(2, 3) as usize;
                let mut e: Option<E> = None;
                let mut xs = vec![];
                for _ in 0..k {
                    let x = self.small(sbits);
                    let xe = match self.r.below(4) {
                        0 => {
                            let y = self.small(1);
                            v(x) - v(y)
                        }
                        1 => v(x) + c(self.r.below(2)),
                        _ => v(x),
                    };
                    xs.push(xe);
                }
                let r = if self.r.chance(1, 2) {
                    let b = self.small(1);
                    if self.r.chance(1, 2) {
                        v(b)
                    } else {
                        c(1) - v(b)
                    }
                } else {
                    self.lin(2)
                };
                let rv = self.ev(&r);
                let mut rest = rv;
                for xe in xs {
                    let xv = self.ev(&xe);
                    let k = if self.r.chance(1, 4) { self.coef() } else { 1 };
                    let val = if xv != 0 { rest * inv(xv * k % p) % p } else { self.r.below(p) };
                    if xv != 0 {
                        rest = 0;
                    }
                    let m = self.fresh(val);
                    let t = if k == 1 { xe * v(m) } else { c(k) * xe * v(m) };
                    e = Some(match e {
                        None => t,
                        Some(e) => e + t,
                    });
                }
                let e = e.unwrap() - r;
                self.con(e);
            }
            2 => {
                // less-than-one comparison of a 4-limb number (equal-zero check)
                let b = self.r.range(1, sbits);
                let a: Vec<usize> = (0..4).map(|_| self.small(b)).collect();
                if a.iter().collect::<std::collections::BTreeSet<_>>().len() < 4 {
                    return;
                }
                let av: Vec<u64> = a.iter().map(|x| self.wit[*x]).collect();
                let lt = av.iter().all(|x| *x == 0);
                // highest differing limb compared to [1,0,0,0]
                let want = [1, 0, 0, 0];
                let top = (0..4).rev().find(|i| av[*i] != want[*i]);
                let res = self.fresh(lt as u64);
                let dv = match top {
                    Some(i) => (want[i] + p - av[i]) * (2 * lt as u64 + p - 1) % p,
                    None => self.r.below(p),
                };
                let diff = self.hidden(dv);
                let m: Vec<usize> = (0..4).map(|i| self.hidden((top == Some(i)) as u64)).collect();
                self.boolify(res);
                for x in &m {
                    self.con(v(*x) * (v(*x) - c(1)));
                }
                let pm = || c(2) * v(res) - c(1);
                let sum = |lo: usize| (lo..4).map(|i| v(m[i])).reduce(|a, b| a + b).unwrap();
                let mut cs = vec![
                    (c(1) - sum(3)) * ((-v(a[3])) * pm()),
                    (c(1) - sum(2)) * ((-v(a[2])) * pm()),
                    (c(1) - sum(1)) * ((-v(a[1])) * pm()),
                    (c(1) - sum(0)) * v(res),
                    (c(1) - sum(0)) * ((c(1) - v(a[0])) * pm()),
                    v(m[0]) * ((v(a[0]) - c(1)) * pm() + v(diff)),
                    v(m[1]) * (v(a[1]) * pm() + v(diff)),
                    v(m[2]) * (v(a[2]) * pm() + v(diff)),
                    v(m[3]) * (v(a[3]) * pm() + v(diff)),
                    sum(0) * (sum(0) - c(1)),
                ];
                if self.r.chance(1, 5) {
                    let i = self.r.below(cs.len() as u64) as usize;
                    cs.remove(i);
                }
                for e in cs {
                    self.con(e);
                }
                // the difference is positive where a marker is set; the optimizer relies on this check and
                // on markers not being used elsewhere
                self.bus(RANGE, sum(0), vec![v(diff) - c(1), c(b)]);
            }
            3 | 4 => {
                // quadratic equivalence: two variables decided by the same carry
                let bits = self.r.range(1, self.toy.max_bits - 1);
                let off = if self.r.chance(3, 4) { 1 << bits } else { self.r.range(1, p - 1) };
                let x = self.lin(2);
                let xv = self.ev(&x);
                let val = if xv < 1 << bits { xv } else { (xv + p - off) % p };
                if val >= 1 << bits {
                    return;
                }
                for i in 0..2 {
                    let y = self.fresh(val);
                    if self.r.chance(7, 8) {
                        self.bus(RANGE, c(1), vec![v(y), c(bits)]);
                    }
                    let d = if i == 0 || self.r.chance(3, 4) { x.clone() - v(y) } else { c(2) * (x.clone() - v(y)) };
                    let off = if i == 1 && matches!(d, E::Mul(..)) { off * 2 % p } else { off };
                    self.con(d.clone() * (d - c(off)));
                }
            }
            5 => {
                // bus field that is the same under all values of a flag
                let f = self.small(1);
                let e = self.simple_or_lin();
                let field = match self.r.below(3) {
                    0 => v(f) * e.clone() + (c(1) - v(f)) * e,
                    1 => v(f) * (v(f) - c(1)) + e,
                    _ => {
                        let d = self.simple_or_lin();
                        v(f) * e + (c(1) - v(f)) * d
                    }
                };
                let b = self.r.range(1, self.toy.max_bits);
                self.bus(RANGE, c(1), vec![field, c(b)]);
            }
            6 => {
                // bus field that is a known constant
                let e = {
                    let (a, b) = (self.lin(1), self.lin(2));
                    if self.r.chance(1, 2) {
                        a * b
                    } else {
                        a + b
                    }
                };
                let k = self.ev(&e);
                self.con(e.clone() - c(k));
                let x = self.simple_or_lin();
                let m = if k == 1 && self.r.chance(1, 2) { e.clone() } else { c(1) };
                if self.r.chance(1, 2) {
                    self.bus(RANGE, m, vec![e, c(self.toy.max_bits)]);
                } else {
                    self.bus(RANGE, m, vec![x, e]);
                }
            }
            _ => {
                // multi-valued opcode flags
                let f: Vec<usize> = (0..2).map(|_| { let x = self.r.below(3); self.fresh(x) }).collect();
                for x in &f {
                    self.con(v(*x) * (v(*x) - c(1)) * (v(*x) - c(2)));
                }
                let s = v(f[0]) + v(f[1]);
                let k = self.ev(&s);
                self.con((s.clone() - c(k)) * (s.clone() - c(k + 1)));
                let t = self.simple_or_lin();
                let is1 = s.clone() * (c(3 % p) - s);
                self.bus(RANGE, c(1), vec![is1 * t, c(self.toy.max_bits)]);
            }
        }
    }
    /// A visible expression of visible columns whose value is fixed by a constraint that does not
    /// fix the columns.
    pub fn fixed_field(&mut self) {
        let (a, b) = (self.lin(1), self.lin(2));
        let (x, y) = (self.var(), self.var());
        let e = if self.r.chance(3, 4) { a * b } else { a.clone() * b + a };
        let k = self.ev(&e);
        self.con(e.clone() - c(k));
        let t = self.simple_or_lin();
        self.sys.bus.push(Bus { id: MEM, mult: c(1), args: vec![c(1), c(3), v(x), v(y)] });
        match self.r.below(3) {
            0 => self.sys.bus.push(Bus { id: MEM, mult: c(1), args: vec![c(2), t, e, c(1)] }),
            1 => self.sys.bus.push(Bus { id: MEM, mult: e, args: vec![c(2), c(2), t, c(1)] }),
            _ => self.bus(RANGE, c(1), vec![t, e]),
        }
    }
    /// Changing the witness is only sound if nothing refers to the variable yet.
    pub fn wit_set(&mut self, x: usize, val: u64) {
        if self.wit[x] == val {
            return;
        }
        let old = self.wit[x];
        self.wit[x] = val;
        if self.sat && !self.toy.satisfies(&self.sys, &self.wit) {
            self.wit[x] = old;
        }
    }
    /// An expression whose value at the witness is `val`.
    pub fn expr_with(&mut self, val: u64) -> E {
        let p = self.toy.p;
        let eq: Vec<usize> = self.vis.iter().copied().filter(|x| self.wit[*x] == val).collect();
        if !eq.is_empty() && self.r.chance(3, 4) {
            return v(*self.r.pick(&eq));
        }
        if self.r.chance(1, 6) {
            return c(val);
        }
        let e = self.simple_or_lin();
        let x = self.ev(&e);
        if x == val {
            e
        } else {
            e + c((val + p - x) % p)
        }
    }
    /// Execution-bus chain of `k` steps and memory accesses (consistent at the witness, mostly).
    pub fn stateful(&mut self, steps: usize, accesses: usize) {
        let p = self.toy.p;
        let mut last: Option<(u64, u64)> = None;
        for i in 0..steps {
            let (pc, ts) = match last {
                Some((pc, ts)) if self.r.chance(9, 10) => (
                    if self.r.chance(1, 2) { c(pc) } else { self.expr_with(pc) },
                    self.expr_with(ts),
                ),
                _ => (
                    if self.r.chance(1, 2) { c(i as u64 % p) } else { self.simple_or_lin() },
                    self.simple_or_lin(),
                ),
            };
            self.sys.bus.push(Bus { id: EXEC, mult: c(p - 1), args: vec![pc, ts] });
            let pc = if self.r.chance(1, 2) { c((i as u64 + 1) % p) } else { self.simple_or_lin() };
            let ts = self.simple_or_lin();
            last = Some((self.ev(&pc), self.ev(&ts)));
            self.sys.bus.push(Bus { id: EXEC, mult: c(1), args: vec![pc, ts] });
        }
        let mut addrs: Vec<(E, E)> = vec![];
        let mut mem: std::collections::BTreeMap<(u64, u64), (u64, u64)> = Default::default();
        for i in 0..accesses {
            let (asp, addr) = if !addrs.is_empty() && self.r.chance(3, 5) {
                self.r.pick(&addrs).clone()
            } else {
                let a = match self.r.below(4) {
                    0 => c(self.r.below(3)),
                    1 => v(self.var()),
                    2 => self.lin(2),
                    _ => {
                        let x = self.var();
                        v(x) + c(self.r.below(3))
                    }
                };
                (c(self.r.below(2) + 1), a)
            };
            addrs.push((asp.clone(), addr.clone()));
            let key = (self.ev(&asp), self.ev(&addr));
            let m = if self.r.chance(1, 8) && !self.bools.is_empty() {
                let b = *self.r.pick(&self.bools.clone());
                v(b)
            } else {
                c(1)
            };
            let active = self.ev(&m) == 1;
            let (old, t0) = match mem.get(&key).copied() {
                Some((d, t)) if active && self.r.chance(9, 10) => (self.expr_with(d), self.expr_with(t)),
                _ => (self.simple_or_lin(), self.simple_or_lin()),
            };
            let new = if self.r.chance(1, 3) { old.clone() } else { self.simple_or_lin() };
            let t1 = if self.r.chance(1, 2) { c(i as u64) } else { self.simple_or_lin() };
            if active {
                mem.insert(key, (self.ev(&new), self.ev(&t1)));
            }
            self.sys.bus.push(Bus {
                id: MEM,
                mult: if m == c(1) { c(p - 1) } else { -m.clone() },
                args: vec![asp.clone(), addr.clone(), old, t0],
            });
            self.sys.bus.push(Bus { id: MEM, mult: m, args: vec![asp, addr, new, t1] });
        }
    }
}

pub fn random_system(r: &mut Rng, toy: &Toy, n: usize, gadgets: usize, sat: bool) -> Sys {
    let mut g = Gen::new(r, toy.clone(), n, sat);
    for _ in 0..gadgets {
        g.gadget();
    }
    g.sys
}
