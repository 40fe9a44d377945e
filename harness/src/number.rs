//! C17: records field arithmetic of all supported fields, with certificates (quotients) for the specification.
use crate::rng::Rng;
use powdr_number::{
    log2_exact, BabyBearField, BigInt, BigUint, Bn254Field, FieldElement, GoldilocksField, KoalaBearField, LargeInt,
    Mersenne31Field,
};
use num_traits::Zero;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

/// Little-endian 12-bit digits, without leading zeros.
pub fn limbs(n: &BigUint) -> Value {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in n.to_le_bytes() {
        acc |= (b as u32) << bits;
        bits += 8;
        if bits >= 12 {
            out.push(acc & 0xfff);
            acc >>= 12;
            bits -= 12;
        }
    }
    out.push(acc);
    while out.last() == Some(&0) {
        out.pop();
    }
    json!(out)
}
fn int<T: FieldElement>(x: T) -> BigUint {
    x.to_integer().to_arbitrary_integer()
}
fn try_<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn two(n: usize) -> BigUint {
    BigUint::from(1u32) << n
}

struct Rec<'a> {
    name: &'a str,
    p: BigUint,
    out: &'a mut Vec<Value>,
}
impl Rec<'_> {
    fn put(&mut self, op: &str, mut v: Value) {
        v["f"] = json!(self.name);
        v["op"] = json!(op);
        self.out.push(v);
    }
    /// lhs = q * p + rhs (as a certificate: q)
    fn q(&self, lhs: &BigUint, rhs: &BigUint) -> Value {
        if lhs >= rhs { limbs(&((lhs - rhs) / &self.p)) } else { json!([]) }
    }
    /// The field element `r` is claimed to equal the integer `n`.
    fn same(&mut self, op: &str, n: &BigInt, r: Option<BigUint>) {
        let neg = *n < BigInt::from(0);
        let a = BigUint::try_from(if neg { -n.clone() } else { n.clone() }).unwrap();
        let Some(r) = r else {
            // rejected
            self.put("rejected", json!({"what": op, "neg": neg, "a": limbs(&a)}));
            return;
        };
        let q = if neg { limbs(&((&a + &r) / &self.p)) } else { self.q(&a, &r) };
        self.put("same", json!({"what": op, "neg": neg, "a": limbs(&a), "r": limbs(&r), "q": q}));
    }
}

pub fn rand_big(r: &mut Rng, bits: usize) -> BigUint {
    let mut n = BigUint::from(0u32);
    for _ in 0..bits.div_ceil(64) {
        n = (n << 64usize) + BigUint::from(r.next());
    }
    n & (two(bits) - BigUint::from(1u32))
}

pub fn value(r: &mut Rng, p: &BigUint, bits: usize) -> BigUint {
    let d = BigUint::from(r.below(4));
    let k = r.below(bits as u64) as usize;
    let v = match r.below(9) {
        0 => d,
        1 => p - BigUint::from(1u32) - d,
        2 => (p >> 1usize) + d,
        3 => (p >> 1usize) - d,
        4 => two(k) + d,
        5 => two(k) - BigUint::from(1u32),
        6 => two(32.min(bits - 1)) - d,
        _ => rand_big(r, bits),
    };
    v % p
}

fn inv64(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}
/// Pairs whose product (or sum) hits the rare carry and borrow cases of 64-bit reductions.
fn pair(r: &mut Rng, p: &BigUint, bits: usize) -> (BigUint, BigUint) {
    let b = |x: u64| BigUint::from(x) % p;
    match r.below(6) {
        0 => {
            let a = r.next() | 1;
            let low = if r.chance(1, 2) { r.below(1 << 20) } else { r.below(4) };
            (b(a), b(inv64(a).wrapping_mul(low)))
        }
        1 => {
            let w = r.range(1, 31);
            let a = r.range(1, 1 << w);
            let n = p + BigUint::from(r.below(a));
            (b(a), (n / BigUint::from(a) + BigUint::from(r.below(2))) % p)
        }
        2 => {
            let a = value(r, p, bits);
            let c = if a == BigUint::from(0u32) { a.clone() } else { p - &a };
            (a, (c + BigUint::from(r.below(3))) % p)
        }
        3 => {
            let a = value(r, p, bits);
            (a.clone(), (a + BigUint::from(r.below(3))) % p)
        }
        _ => (value(r, p, bits), value(r, p, bits)),
    }
}

fn field<T: FieldElement>(name: &str, r: &mut Rng, count: u64, out: &mut Vec<Value>) {
    let p = T::modulus().to_arbitrary_integer();
    let mut c = Rec { name, p: p.clone(), out };
    let el = |n: &BigUint| T::checked_from(n.clone()).unwrap();
    let bits = T::BITS as usize;
    c.put("field", json!({"p": limbs(&p), "bits": bits, "nb": T::Integer::NUM_BITS, "max": limbs(&T::Integer::MAX.to_arbitrary_integer()),
        "zero": limbs(&int(T::zero())), "one": limbs(&int(T::one())), "czero": limbs(&int(T::ZERO)), "cone": limbs(&int(T::ONE)),
        "default": limbs(&int(T::default())),
        "izero": limbs(&T::Integer::zero().to_arbitrary_integer()), "ione": limbs(&T::Integer::one().to_arbitrary_integer()),
        "t": limbs(&int(T::from(true))), "ff": limbs(&int(T::from(false)))}));
    for i in 0..count {
        let (a, b) = pair(r, &p, bits);
        let (x, y) = (el(&a), el(&b));
        let (la, lb) = (limbs(&a), limbs(&b));
        // ring operations
        macro_rules! op {
            ($name:expr, $e:expr, $f:expr) => {
                match try_(|| $e) {
                    Some(z) => { let z = int(z); let q: Value = $f(&z); c.put($name, json!({"a": la, "b": lb, "r": limbs(&z), "q": q})) }
                    None => c.put("crash", json!({"what": $name, "a": la, "b": lb})),
                }
            };
        }
        let p2 = p.clone();
        let quot = |l: BigUint, z: &BigUint| if &l >= z { limbs(&((l - z) / &p2)) } else { json!([]) };
        match i % 3 {
            0 => op!("add", x + y, |z: &BigUint| quot(&a + &b, z)),
            1 => op!("add", { let mut z = x; z += y; z }, |z: &BigUint| quot(&a + &b, z)),
            _ => {}
        }
        match i % 2 {
            0 => op!("sub", x - y, |z: &BigUint| quot(&b + z, &a)),
            _ => op!("sub", { let mut z = x; z -= y; z }, |z: &BigUint| quot(&b + z, &a)),
        }
        if i % 2 == 0 {
            op!("mul", x * y, |z: &BigUint| quot(&a * &b, z));
        } else {
            op!("mul", { let mut z = x; z *= y; z }, |z: &BigUint| quot(&a * &b, z));
        }
        if b != BigUint::from(0u32) {
            op!("div", x / y, |z: &BigUint| quot(z * &b, &a));
        } else if i % 4 == 0 {
            c.put("divzero", json!({"r": try_(|| x / y).map_or(json!([]), |z| json!([limbs(&int(z))]))}));
        }
        op!("neg", -x, |z: &BigUint| quot(&a + z, &BigUint::from(0u32)));
        c.put("cmp", json!({"a": la, "b": lb, "lt": x < y, "eq": x == y, "gt": x > y, "ilt": x.to_integer() < y.to_integer()}));
        c.put("unary", json!({"a": la, "int": limbs(&int(x)), "arb": limbs(&x.to_arbitrary_integer()), "lower": x.is_in_lower_half(),
            "isz": x.is_zero(), "iso": x.is_one(), "nb": x.to_integer().num_bits(),
            "iisz": x.to_integer().is_zero(), "iiso": x.to_integer().is_one(),
            "u64": x.to_integer().try_into_u64().map_or(json!([]), |k| json!([limbs(&k.into())])),
            "u32": x.to_integer().try_into_u32().map_or(json!([]), |k| json!([limbs(&k.into())])),
            "deg": try_(|| x.to_degree()).map_or(json!([]), |k| json!([limbs(&k.into())])),
            "bytes": x.to_bytes_le()}));
        let s = x.to_signed_integer();
        c.same("signed", &s, Some(a.clone()));
        c.put("signedrange", json!({"a": limbs(&BigUint::try_from(if s < BigInt::from(0) { -s } else { s }).unwrap())}));
        // conversions
        let any = match r.below(4) {
            0 | 1 => value(r, &p, bits),
            // at and around the modulus and its double
            2 => &p * BigUint::from(1 + r.below(2)) + BigUint::from(r.below(5)) - BigUint::from(r.below(3)),
            _ => rand_big(r, bits + 1),
        };
        let anyi = BigInt::from(any.clone());
        c.same("from big", &anyi, try_(|| int(T::from(any.clone()))));
        c.put("checked", json!({"a": limbs(&any), "r": T::checked_from(any.clone()).map_or(json!([]), |z| json!([limbs(&int(z))]))}));
        c.same("decimal", &anyi, T::from_str(&any.to_string()).ok().map(int));
        let radix = *r.pick(&[2u32, 10, 16, 36]);
        c.same("radix", &anyi, try_(|| T::from_str_radix(&any.in_radix(radix).to_string(), radix).ok().map(int)).flatten());
        let txt = x.to_string();
        c.same("display", &BigInt::from_str(&txt).unwrap_or(BigInt::from(1) << 400), Some(a.clone()));
        // a table with signed, plain and hexadecimal numbers
        let csv = format!("Row,s,u,h\n0,-{a},{a},0x{}\n", a.in_radix(16));
        let cols = try_(|| powdr_number::read_polys_csv_file::<T>(csv.as_bytes()));
        for (k, want) in [-BigInt::from(a.clone()), BigInt::from(a.clone()), BigInt::from(a.clone())].iter().enumerate() {
            let got = cols.as_ref().and_then(|c| c.get(k)).and_then(|(_, v)| v.first()).map(|v| int(*v));
            c.same(["csv signed", "csv plain", "csv hex"][k], want, got);
        }
        let hex = format!("{x:x}");
        c.same("hex", &BigInt::from_str_radix(&hex, 16).unwrap_or(BigInt::from(1) << 400), Some(a.clone()));
        let ihex = format!("{:x}", x.to_integer());
        c.same("int hex", &BigInt::from_str_radix(&ihex, 16).unwrap_or(BigInt::from(1) << 400), Some(a.clone()));
        let n64 = match r.below(3) { 0 => r.next(), 1 => u64::try_from(value(r, &p, bits) & BigUint::from(u64::MAX)).unwrap(), _ => r.below(1 << 20) };
        c.same("u64", &n64.into(), try_(|| int(T::from(n64))));
        c.same("u32", &(n64 as u32).into(), try_(|| int(T::from(n64 as u32))));
        c.same("i64", &(n64 as i64).into(), try_(|| int(T::from(n64 as i64))));
        c.same("i64", &(-((n64 >> 34) as i64)).into(), try_(|| int(T::from(-((n64 >> 34) as i64)))));
        c.same("i32", &(n64 as i32).into(), try_(|| int(T::from(n64 as i32))));
        c.same("from int", &BigInt::from(a.clone()), try_(|| int(T::from(x.to_integer()))));
        c.same("from bytes", &BigInt::from(a.clone()), try_(|| int(T::from_bytes_le(&x.to_bytes_le()))));
        if a.bit_len() <= 64 {
            let k = u64::try_from(a.clone()).unwrap();
            c.same("large int", &BigInt::from(a.clone()), try_(|| T::Integer::from(k).to_arbitrary_integer()));
        }
        // integer operations
        let (m, n) = (x.to_integer(), y.to_integer());
        let iv = |z: T::Integer| limbs(&z.to_arbitrary_integer());
        let sh = r.below(T::Integer::NUM_BITS as u64) as usize;
        let dash = |o: Option<Value>| o.map_or(json!([]), |v| json!([v]));
        c.put("bits", json!({"a": la, "b": lb, "and": iv(m & n), "or": iv(m | n), "xor": iv(m ^ n), "not": iv(!m),
            "anda": iv({ let mut z = m; z &= n; z }), "ora": iv({ let mut z = m; z |= n; z }),
            "s": sh, "shr": iv(m >> sh), "rem": limbs(&(&a & (two(sh) - BigUint::from(1u32)))),
            "shl": dash(try_(|| iv(m << sh))), "hi": limbs(&((&a << sh) >> T::Integer::NUM_BITS)),
            "sum": dash(try_(|| iv(m + n))), "dif": dash(try_(|| iv(m - n))),
            "suma": dash(try_(|| iv({ let mut z = m; z += n; z }))), "difa": dash(try_(|| iv({ let mut z = m; z -= n; z })))}));
        c.same("from hex", &BigInt::from(a.clone()), try_(|| T::Integer::from_hex(&a.in_radix(16).to_string()).to_arbitrary_integer()));
        if i % 8 == 0 {
            c.put("log2", json!({"a": la, "r": log2_exact(a.clone()).map_or(-1, |k| k as i64)}));
            let k = r.below(300) as usize;
            c.put("log2", json!({"a": limbs(&two(k)), "r": log2_exact(two(k)).map_or(-1, |k| k as i64)}));
        }
        // powers, with the certified chain of squarings and multiplications (most significant bit first)
        if i % 10 == 0 {
            // exponents are integers of the field's integer type, not only those below the modulus
            let e = match r.below(4) {
                0 => BigUint::from(r.below(5)),
                1 if i % 40 == 0 => &p - BigUint::from(1 + r.below(2)),
                2 if i % 20 == 0 => match r.below(3) {
                    0 => two(T::Integer::NUM_BITS) - BigUint::from(1 + r.below(3)),
                    1 => &p + BigUint::from(r.below(4)),
                    _ => rand_big(r, T::Integer::NUM_BITS),
                },
                _ => BigUint::from(r.below(1 << 16)),
            };
            let mut acc = BigUint::from(1u32);
            let mut chain = vec![];
            for k in (0..e.bit_len()).rev() {
                let sq = &acc * &acc;
                let s = &sq % &p;
                chain.push(json!([limbs(&(sq / &p)), limbs(&s)]));
                acc = s;
                if e.bit(k) {
                    let m = &acc * &a;
                    let s = &m % &p;
                    chain.push(json!([limbs(&(m / &p)), limbs(&s)]));
                    acc = s;
                }
            }
            match try_(|| x.pow(T::Integer::from_hex(&e.in_radix(16).to_string()))) {
                Some(z) => c.put("pow", json!({"a": la, "e": limbs(&e), "chain": chain, "r": limbs(&int(z))})),
                None => c.put("crash", json!({"what": "pow", "a": la, "b": limbs(&e)})),
            }
        }
    }
}

/// numbers <seed> <count per field> <out>
pub fn cases(seed: u64, count: u64, path: &str) {
    let mut r = Rng::new(seed ^ 0xF17);
    let mut out = vec![];
    field::<BabyBearField>("babybear", &mut r, count, &mut out);
    field::<KoalaBearField>("koalabear", &mut r, count, &mut out);
    field::<Mersenne31Field>("mersenne31", &mut r, count, &mut out);
    field::<GoldilocksField>("goldilocks", &mut r, 2 * count, &mut out);
    field::<Bn254Field>("bn254", &mut r, count / 2, &mut out);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for l in out.iter() {
        writeln!(f, "{l}").unwrap();
    }
    println!("{}", json!({"cases": out.len()}));
}
