use crate::fp::{set_p, Fp};
use crate::gen::Gen;
use crate::rng::Rng;
use crate::sys::*;
use crate::toybus::*;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::optimizer::optimize;
use powdr_autoprecompiles::{ColumnAllocator, DegreeBound};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct OptCase {
    pub toy: Toy,
    pub nvars: usize,
    pub db: DegreeBound,
    pub orig: Sys,
    pub exec: bool,
}
pub enum OptOut {
    Ok(Sys),
    Err(String),
    Panic(String),
}

pub fn gen_case(r: &mut Rng) -> OptCase {
    let p = *r.pick(&[11u64, 11, 13, 19]);
    let toy = Toy::for_p(p);
    let n = r.range(2, 6) as usize;
    let gadgets = r.range(1, 7) as usize;
    let exec = r.chance(1, 3);
    let steps = if exec { r.range(1, 3) as usize } else { 0 };
    let acc = r.below(4) as usize;
    let mut g = Gen::new(r, toy.clone(), n, true);
    for _ in 0..gadgets {
        g.gadget();
    }
    if g.r.chance(1, 2) {
        g.special();
    }
    g.stateful(steps, acc);
    if g.r.chance(1, 6) {
        g.fixed_field();
    }
    let n = g.n;
    let orig = g.sys.clone();
    let id = orig.cons.iter().map(|e| e.degree()).max().unwrap_or(0).max(2) as u64;
    let bid = orig.bus.iter().flat_map(|b| b.args.iter().chain([&b.mult])).map(|e| e.degree()).max().unwrap_or(0).max(1) as u64;
    let id = r.range(id.max(bid), id.max(bid) + 1);
    let bid = r.range(bid, id);
    let db = DegreeBound { identities: id as usize, bus_interactions: bid as usize };
    OptCase { toy, nvars: n, db, orig, exec }
}

pub fn run(k: &OptCase) -> OptOut {
    set_p(k.toy.p);
    let m = to_machine::<Fp>(&k.orig);
    let bm = if k.exec { bus_map() } else { bus_map_no_exec() };
    let col = ColumnAllocator::from_max_poly_id_of_machine(&m);
    let h = ToyHandler(k.toy.clone());
    match catch_unwind(AssertUnwindSafe(|| {
        optimize::<_, _, _, ToyMem<Fp, AlgebraicReference>>(
            m,
            h,
            k.db,
            &bm,
            col,
            &mut ExportOptions::default(),
        )
    })) {
        Ok(Ok((m, _))) => OptOut::Ok(from_machine(&m)),
        Ok(Err(e)) => OptOut::Err(format!("{e:?}")),
        Err(e) => OptOut::Panic(
            e.downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
    }
}
pub struct Screen {
    /// suspected violated clauses
    pub clauses: Vec<(&'static str, String)>,
    /// enumeration orders and number of solutions considered (None if too many)
    pub oorig: Vec<usize>,
    pub onew: Vec<usize>,
    pub nv: usize,
    pub size: Option<usize>,
    pub sat: bool,
}

/// Enumerates both systems to find suspicious cases.
pub fn screen(k: &OptCase, out: &OptOut) -> Screen {
    let empty = Sys::default();
    let new = match out {
        OptOut::Ok(s) => s,
        _ => &empty,
    };
    let oorig = var_order(&k.toy, &k.orig);
    let onew = var_order(&k.toy, new);
    let nv = new.all_vars().last().map_or(0, |x| x + 1).max(k.nvars);
    let mut res = Screen { clauses: vec![], oorig, onew, nv, size: None, sat: false };
    let Some(s1) = k.toy.sols(&k.orig, &res.oorig, nv, 100_000) else {
        return res;
    };
    let n1 = s1.len();
    let s1: Vec<_> = s1.into_iter().filter(|a| k.toy.mem_ok(&k.orig, a)).collect();
    res.sat = !s1.is_empty();
    res.size = Some(n1);
    let new = match out {
        OptOut::Ok(s) => s,
        OptOut::Err(e) | OptOut::Panic(e) => {
            if res.sat {
                res.clauses.push(("rejects-satisfiable", e.clone()));
            }
            return res;
        }
    };
    if s1.is_empty() {
        return res;
    }
    for a in &s1 {
        let mut b = a.clone();
        k.toy.derive(new, &mut b);
        if !k.toy.satisfies(new, &b) {
            res.clauses.push(("incomplete", format!("original witness {a:?} -> {b:?} rejected")));
            break;
        }
        if k.toy.net(&k.orig, a) != k.toy.net(new, &b) {
            res.clauses.push(("incomplete", format!("witness {a:?} changes bus messages")));
            break;
        }
    }
    if let Some(s2) = k.toy.sols(new, &res.onew, nv, 100_000) {
        res.size = Some(n1 + s2.len());
        let obs1: BTreeSet<_> = s1.iter().map(|a| k.toy.net(&k.orig, a)).collect();
        for b in &s2 {
            if k.toy.mem_ok(new, b) && !obs1.contains(&k.toy.net(new, b)) {
                res.clauses.push(("unsound", format!("new solution {b:?} with {:?}", k.toy.net(new, b))));
                break;
            }
        }
    } else {
        res.size = None;
    }
    if new.cons.iter().any(|e| e.degree() > k.db.identities)
        || new.bus.iter().any(|b| b.args.iter().chain([&b.mult]).any(|e| e.degree() > k.db.bus_interactions))
    {
        res.clauses.push(("degree", String::new()));
    }
    res
}

pub fn case_json(k: &OptCase, out: &OptOut, s: &Screen) -> Value {
    let one = |o: &[usize]| o.iter().map(|x| x + 1).collect::<Vec<_>>();
    let empty = Sys::default();
    let (new, res, msg) = match out {
        OptOut::Ok(s) => (s, "ok", String::new()),
        OptOut::Err(e) => (&empty, "err", e.clone()),
        OptOut::Panic(e) => (&empty, "panic", e.clone()),
    };
    json!({"toy": k.toy.json(), "nv": s.nv.max(1), "db": [k.db.identities, k.db.bus_interactions],
        "orig": k.orig.json(), "new": new.json(), "oorig": one(&s.oorig), "onew": one(&s.onew),
        "res": res, "msg": msg, "suspect": s.clauses.iter().map(|(c, m)| format!("{c}: {m}")).collect::<Vec<_>>(),
        "text": format!("orig:\n{}new:\n{}", k.orig.show(), new.show())})
}

/// Runs the optimizer on generated systems; writes suspicious cases (smallest first) and a sample of the others.
pub fn cases(seed: u64, n: u64, want: &str, sample: usize, limit: usize, path: &str) {
    let mut sus: Vec<(usize, String)> = vec![];
    let mut rest: Vec<String> = vec![];
    let (mut sat, mut toobig, mut ok, mut changed) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let k = gen_case(&mut r);
        let out = run(&k);
        let s = screen(&k, &out);
        sat += s.sat as u64;
        toobig += s.size.is_none() as u64;
        if let OptOut::Ok(new) = &out {
            ok += 1;
            changed += (new.cons.len() != k.orig.cons.len() || new.bus.len() != k.orig.bus.len()) as u64;
        }
        if s.clauses.iter().any(|(c, _)| want.split(',').any(|w| w == *c)) {
            sus.push((s.size.unwrap_or(usize::MAX), case_json(&k, &out, &s).to_string()));
        } else if rest.len() < sample && s.size.is_some_and(|x| x <= limit) {
            rest.push(case_json(&k, &out, &s).to_string());
        }
    }
    sus.sort();
    let mut f = String::new();
    for (_, l) in sus.iter().take(6) {
        f += l;
        f += "\n";
    }
    for l in &rest {
        f += l;
        f += "\n";
    }
    std::fs::write(path, f).unwrap();
    println!("{}", json!({"cases": n, "satisfiable": sat, "accepted": ok, "simplified": changed, "too_big": toobig, "suspicious": sus.len(), "written": rest.len() + sus.len().min(6)}));
}

pub fn fuzz(seed: u64, n: u64) {
    let mut stats = std::collections::BTreeMap::<String, u64>::new();
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        let k = gen_case(&mut r);
        let out = run(&k);
        let s = screen(&k, &out);
        let key = match &out {
            OptOut::Ok(_) => "ok",
            OptOut::Err(_) => "err",
            OptOut::Panic(_) => "panic",
        };
        *stats.entry(format!("{key} sat={} {:?}", s.sat, s.clauses.iter().map(|c| c.0).collect::<Vec<_>>())).or_default() += 1;
        if !s.clauses.is_empty() {
            println!("--- case {i} p={} db={:?} {:?}\n{}", k.toy.p, k.db, s.clauses, case_json(&k, &out, &s)["text"].as_str().unwrap());
        }
    }
    println!("{stats:#?}");
}

/// Fixed inputs: regressions of repaired defects and the inputs of known findings.
pub fn fixed(path: &str) {
    let toy = Toy::for_p(11);
    let obs = |xs: Vec<E>| Bus { id: MEM, mult: c(1), args: vec![c(1), c(0), xs[0].clone(), xs.get(1).cloned().unwrap_or(c(0))] };
    let rng = |e: E, b: u64, m: E| Bus { id: RANGE, mult: m, args: vec![e, c(b)] };
    let mk = |nvars: usize, db: (usize, usize), cons: Vec<E>, bus: Vec<Bus>| OptCase {
        toy: toy.clone(),
        nvars,
        db: DegreeBound { identities: db.0, bus_interactions: db.1 },
        orig: Sys { cons, bus, derived: vec![] },
        exec: false,
    };
    // a0..a3 = v0..v3, result = v4, diff = v5, markers = v6..v9
    let eqz = |positive: bool, seen: E| {
        let (res, diff) = (4, 5);
        let m = [6, 7, 8, 9];
        let pm = || c(2) * v(res) - c(1);
        let sum = |lo: usize| (lo..4).map(|i| v(m[i])).reduce(|a, b| a + b).unwrap();
        let mut cons: Vec<E> = (4..10).filter(|x| *x != 5).map(|x| v(x) * (v(x) - c(1))).collect();
        cons.extend([
            (c(1) - sum(3)) * ((-v(3)) * pm()),
            (c(1) - sum(2)) * ((-v(2)) * pm()),
            (c(1) - sum(1)) * ((-v(1)) * pm()),
            (c(1) - sum(0)) * v(res),
            (c(1) - sum(0)) * ((c(1) - v(0)) * pm()),
            v(m[0]) * ((v(0) - c(1)) * pm() + v(diff)),
            v(m[1]) * (v(1) * pm() + v(diff)),
            v(m[2]) * (v(2) * pm() + v(diff)),
            v(m[3]) * (v(3) * pm() + v(diff)),
            sum(0) * (sum(0) - c(1)),
        ]);
        let mut bus: Vec<Bus> = (0..4).map(|x| rng(v(x), 1, c(1))).collect();
        if positive {
            bus.push(rng(v(diff) - c(1), 1, sum(0)));
        }
        bus.push(obs(vec![v(0) + c(2) * v(1) + c(4) * v(2) + c(8) * v(3), seen]));
        mk(10, (3, 2), cons, bus)
    };
    let cases = vec![
        ("free-lookup-coefficient", mk(2, (3, 2), vec![], vec![rng(v(0) * v(1) + c(8), 2, c(1)), obs(vec![v(0)])])),
        (
            "combined-products-lose-range",
            mk(
                3,
                (3, 2),
                vec![v(0) * (v(0) - c(1)), v(0) * v(1), (c(1) - v(0)) * (v(1) - c(1)), v(0) * v(2)],
                vec![rng(v(2), 2, c(1)), obs(vec![v(0) + c(2) * v(1), v(2)])],
            ),
        ),
        (
            "self-referential-derived-column",
            mk(
                5,
                (3, 2),
                vec![v(0) * v(2) + v(1) * v(3) - (c(1) - v(4))],
                vec![rng(v(0), 1, c(1)), rng(v(1), 1, c(1)), rng(v(4), 1, c(1)), obs(vec![v(4), v(0)])],
            ),
        ),
        (
            "conditional-lookup-forces-multiplicity",
            mk(2, (3, 2), vec![], vec![Bus { id: BITW, mult: v(0), args: vec![v(1), c(9), c(0), c(0)] }, obs(vec![v(0)])]),
        ),
        ("equal-zero-check", eqz(true, v(4))),
        ("equal-zero-check-observed-marker", eqz(true, v(7))),
        ("equal-zero-check-without-positive-difference", eqz(false, v(4))),
    ];
    let mut f = String::new();
    for (key, k) in cases {
        let out = run(&k);
        let s = screen(&k, &out);
        let mut j = case_json(&k, &out, &s);
        j["key"] = json!(key);
        f += &j.to_string();
        f += "\n";
    }
    std::fs::write(path, f).unwrap();
}
