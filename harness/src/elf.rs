//! C24/C25: synthetic RISC-V binaries through the jump-destination listing (64 bit) and the program loader (32 bit).
use crate::rng::Rng;
use powdr_isa_utils::SingleDataValue;
use powdr_riscv_elf::{load_elf_from_buffer, rv64::compute_jumpdests_from_buffer, PT_POWDR_PROVER_DATA};
use powdr_riscv_types::{InstructionArgs, RiscVProgram, Statement};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn d32(x: u64) -> Value {
    json!([x & 0xffff, (x >> 16) & 0xffff])
}
fn d64(x: u64) -> Value {
    json!([x & 0xffff, (x >> 16) & 0xffff, (x >> 32) & 0xffff, x >> 48])
}

#[derive(Clone)]
struct Seg {
    base: u64,
    exec: bool,
    bytes: Vec<u8>,
    memsz: u64,
}
#[derive(Default)]
struct Elf {
    is64: bool,
    dynamic: bool,
    entry: u64,
    segs: Vec<Seg>,
    syms: Vec<(String, u64, u8)>,
    /// (offset, type) of link-time relocations
    relas: Vec<(u64, u32)>,
    /// (offset, addend) of load-time relative relocations
    dynrelas: Vec<(u64, u64)>,
    prover: Option<(u64, u64)>,
}
impl Elf {
    fn w(&self, o: &mut Vec<u8>, x: u64) {
        if self.is64 {
            o.extend_from_slice(&x.to_le_bytes())
        } else {
            o.extend_from_slice(&(x as u32).to_le_bytes())
        }
    }
    fn h16(o: &mut Vec<u8>, x: u16) {
        o.extend_from_slice(&x.to_le_bytes())
    }
    fn h32(o: &mut Vec<u8>, x: u32) {
        o.extend_from_slice(&x.to_le_bytes())
    }
    fn phdr(&self, o: &mut Vec<u8>, ty: u32, flags: u32, off: u64, va: u64, fsz: u64, msz: u64) {
        Self::h32(o, ty);
        if self.is64 {
            Self::h32(o, flags);
        }
        for x in [off, va, va, fsz, msz] {
            self.w(o, x);
        }
        if !self.is64 {
            Self::h32(o, flags);
        }
        self.w(o, 1);
    }
    #[allow(clippy::too_many_arguments)]
    fn shdr(&self, o: &mut Vec<u8>, name: u32, ty: u32, off: u64, size: u64, link: u32, info: u32, ent: u64) {
        Self::h32(o, name);
        Self::h32(o, ty);
        for x in [0, 0, off, size] {
            self.w(o, x);
        }
        Self::h32(o, link);
        Self::h32(o, info);
        self.w(o, 1);
        self.w(o, ent);
    }
    fn bytes(&self) -> Vec<u8> {
        let (eh, ph, sh) = if self.is64 { (64u64, 56u64, 64u64) } else { (52, 32, 40) };
        // load-time relocations live in a data segment of their own, right after everything else
        let top = self.segs.iter().map(|s| s.base + s.memsz).max().unwrap_or(0);
        let dyn_base = (top + 0x1fff) & !0xfff;
        let mut rela = vec![];
        for (o, a) in &self.dynrelas {
            self.w(&mut rela, *o);
            self.w(&mut rela, 3); // R_RISCV_RELATIVE
            self.w(&mut rela, *a);
        }
        let mut dyns = vec![];
        if self.dynamic {
            for (t, v) in [(7u64, dyn_base), (8, rela.len() as u64), (9, if self.is64 { 24 } else { 12 }), (0, 0)] {
                self.w(&mut dyns, t);
                self.w(&mut dyns, v);
            }
        }
        let nph = self.segs.len() as u64 + if self.dynamic { 2 } else { 0 } + self.prover.is_some() as u64;
        let mut body: Vec<u8> = vec![];
        let start = eh + ph * nph;
        let mut phs = vec![];
        for s in &self.segs {
            self.phdr(&mut phs, 1, if s.exec { 5 } else { 6 }, start + body.len() as u64, s.base, s.bytes.len() as u64, s.memsz);
            body.extend_from_slice(&s.bytes);
        }
        if self.dynamic {
            let off = start + body.len() as u64;
            // not PT_LOAD-visible data for the program: the table itself must be mapped to be found
            self.phdr(&mut phs, 1, 4, off, dyn_base, rela.len() as u64, rela.len() as u64);
            body.extend_from_slice(&rela);
            let off = start + body.len() as u64;
            self.phdr(&mut phs, 2, 6, off, dyn_base + rela.len() as u64, dyns.len() as u64, dyns.len() as u64);
            body.extend_from_slice(&dyns);
        }
        if let Some((a, b)) = self.prover {
            self.phdr(&mut phs, PT_POWDR_PROVER_DATA, 4, start, a, 0, b - a);
        }
        // symbol table
        let mut strtab = vec![0u8];
        let mut symtab = vec![0u8; if self.is64 { 24 } else { 16 }];
        for (n, v, t) in &self.syms {
            let at = if n.is_empty() { 0 } else { strtab.len() as u32 };
            if !n.is_empty() {
                strtab.extend_from_slice(n.as_bytes());
                strtab.push(0);
            }
            Self::h32(&mut symtab, at);
            if self.is64 {
                symtab.extend_from_slice(&[0x10 | t, 0, 1, 0]);
                self.w(&mut symtab, *v);
                self.w(&mut symtab, 0);
            } else {
                self.w(&mut symtab, *v);
                self.w(&mut symtab, 0);
                symtab.extend_from_slice(&[0x10 | t, 0, 1, 0]);
            }
        }
        let mut srela = vec![];
        for (o, t) in &self.relas {
            self.w(&mut srela, *o);
            self.w(&mut srela, *t as u64);
            self.w(&mut srela, 0);
        }
        let shstr = b"\0.symtab\0.strtab\0.rela\0.shstrtab\0".to_vec();
        let o_sym = start + body.len() as u64;
        body.extend_from_slice(&symtab);
        let o_str = start + body.len() as u64;
        body.extend_from_slice(&strtab);
        let o_rel = start + body.len() as u64;
        body.extend_from_slice(&srela);
        let o_shs = start + body.len() as u64;
        body.extend_from_slice(&shstr);
        let o_sh = start + body.len() as u64;
        let mut shs = vec![];
        self.shdr(&mut shs, 0, 0, 0, 0, 0, 0, 0);
        self.shdr(&mut shs, 1, 2, o_sym, symtab.len() as u64, 2, 1, if self.is64 { 24 } else { 16 });
        self.shdr(&mut shs, 9, 3, o_str, strtab.len() as u64, 0, 0, 0);
        self.shdr(&mut shs, 24, 3, o_shs, shstr.len() as u64, 0, 0, 0);
        let mut nsh = 4;
        if !self.relas.is_empty() {
            self.shdr(&mut shs, 17, 4, o_rel, srela.len() as u64, 1, 0, if self.is64 { 24 } else { 12 });
            nsh += 1;
        }
        let mut o = vec![0x7f, b'E', b'L', b'F', if self.is64 { 2 } else { 1 }, 1, 1, 0];
        o.extend_from_slice(&[0; 8]);
        Self::h16(&mut o, if self.dynamic { 3 } else { 2 });
        Self::h16(&mut o, 243);
        Self::h32(&mut o, 1);
        for x in [self.entry, eh, o_sh] {
            self.w(&mut o, x);
        }
        Self::h32(&mut o, 0);
        for x in [eh, ph, nph, sh, nsh, 3] {
            Self::h16(&mut o, x as u16);
        }
        o.extend(phs);
        o.extend(body);
        o.extend(shs);
        o
    }
}

// ---- instruction encodings
fn rt(op: u32, f3: u32, f7: u32, rd: u32, r1: u32, r2: u32) -> u32 {
    op | rd << 7 | f3 << 12 | r1 << 15 | r2 << 20 | f7 << 25
}
fn it(op: u32, f3: u32, rd: u32, r1: u32, imm: i32) -> u32 {
    op | rd << 7 | f3 << 12 | r1 << 15 | (imm as u32 & 0xfff) << 20
}
fn st(f3: u32, r1: u32, r2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x23 | (i & 31) << 7 | f3 << 12 | r1 << 15 | r2 << 20 | (i >> 5 & 127) << 25
}
fn bt(f3: u32, r1: u32, r2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x63 | (i >> 11 & 1) << 7 | (i >> 1 & 15) << 8 | f3 << 12 | r1 << 15 | r2 << 20 | (i >> 5 & 63) << 25 | (i >> 12 & 1) << 31
}
fn jt(rd: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x6f | rd << 7 | (i >> 12 & 255) << 12 | (i >> 11 & 1) << 20 | (i >> 1 & 1023) << 21 | (i >> 20 & 1) << 31
}
fn ut(op: u32, rd: u32, hi: u32) -> u32 {
    op | rd << 7 | (hi & 0xffff_f000)
}
fn cj(f3: u16, imm: i32) -> u16 {
    let i = imm as u16;
    let b = |n: u16| i >> n & 1;
    1 | f3 << 13 | b(11) << 12 | b(4) << 11 | b(9) << 10 | b(8) << 9 | b(10) << 8 | b(6) << 7 | b(7) << 6 | b(3) << 5 | b(2) << 4 | b(1) << 3 | b(5) << 2
}
fn cb(f3: u16, r: u16, imm: i32) -> u16 {
    let i = imm as u16;
    let b = |n: u16| i >> n & 1;
    1 | f3 << 13 | b(8) << 12 | b(4) << 11 | b(3) << 10 | r << 7 | b(7) << 6 | b(6) << 5 | b(2) << 4 | b(1) << 3 | b(5) << 2
}
/// upper and lower part of an offset, as the architecture recombines them
fn split(delta: i64) -> (u32, i32) {
    let hi = (delta.wrapping_add(0x800)) as u32 & 0xffff_f000;
    let lo = ((delta as u32).wrapping_sub(hi) as i32) << 20 >> 20;
    (hi, lo)
}
fn reg(r: &mut Rng) -> u32 {
    if r.chance(1, 3) {
        *r.pick(&[0, 1, 2, 3, 5, 6])
    } else {
        r.below(32) as u32
    }
}
fn imm(r: &mut Rng, bits: u32) -> i32 {
    let m = 1i64 << (bits - 1);
    (match r.below(5) {
        0 => -m,
        1 => m - 1,
        2 => r.below(9) as i64 - 4,
        _ => r.below(2 * m as u64) as i64 - m,
    }) as i32
}
const BR: [u32; 6] = [0, 1, 4, 5, 6, 7];

/// a 32-bit instruction that is no jump, no address formation
fn plain(r: &mut Rng, is64: bool) -> u32 {
    let (d, a, b) = (reg(r), reg(r), reg(r));
    match r.below(if is64 { 13 } else { 10 }) {
        0 => it(0x13, *r.pick(&[0u32, 2, 3, 4, 6, 7]), d, a, imm(r, 12)),
        1 => {
            let sh = r.below(if is64 { 64 } else { 32 }) as i32;
            let (f3, top) = *r.pick(&[(1u32, 0), (5, 0), (5, 0x400)]);
            it(0x13, f3, d, a, sh | top)
        }
        2 => it(0x03, *r.pick(&[0u32, 1, 2, 4, 5]), d, a, imm(r, 12)),
        3 => st(r.below(3) as u32, a, b, imm(r, 12)),
        4 => {
            let (f3, f7) = *r.pick(&[(0u32, 0u32), (0, 32), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (5, 32), (6, 0), (7, 0)]);
            rt(0x33, f3, f7, d, a, b)
        }
        5 => rt(0x33, r.below(8) as u32, 1, d, a, b),
        6 => {
            let (f5, lr) = *r.pick(&[(2u32, true), (3, false), (1, false), (0, false), (4, false), (12, false), (8, false), (16, false), (20, false), (24, false), (28, false)]);
            rt(0x2f, 2, f5 << 2 | r.below(4) as u32, d, a, if lr { 0 } else { b })
        }
        7 => ut(0x37, d, (imm(r, 20) as u32) << 12),
        8 => *r.pick(&[0x0000_0073u32, 0x0010_0073]),
        9 => it(0x13, 0, 5, 0, r.below(20) as i32), // li t0, n
        10 => it(0x1b, 0, d, a, imm(r, 12)),
        11 => it(0x03, *r.pick(&[3u32, 6]), d, a, imm(r, 12)),
        _ => {
            let (f3, f7) = *r.pick(&[(0u32, 0u32), (0, 32), (1, 0), (5, 0), (5, 32)]);
            rt(0x3b, f3, f7, d, a, b)
        }
    }
}
/// a compressed instruction that is no jump
fn cplain(r: &mut Rng) -> u16 {
    let (d, q) = (r.range(1, 31) as u16, r.below(8) as u16);
    let q2 = r.below(8) as u16;
    let i5 = r.below(32) as u16;
    let i1 = r.below(2) as u16;
    match r.below(16) {
        0 => r.range(1, 255) as u16 * 32 | q << 2,                                  // addi4spn
        1 => 2 << 13 | r.below(8) as u16 * 1024 | q << 7 | r.below(4) as u16 * 32 | q2 << 2, // lw
        2 => 6 << 13 | r.below(8) as u16 * 1024 | q << 7 | r.below(4) as u16 * 32 | q2 << 2, // sw
        3 => 1,                                                                     // nop
        4 => 1 | i1 << 12 | d << 7 | i5.max(1) << 2,                                // addi
        5 => 1 | 2 << 13 | i1 << 12 | d << 7 | i5 << 2,                             // li
        6 => 1 | 3 << 13 | i1 << 12 | 2 << 7 | i5.max(1) << 2,                      // addi16sp
        7 => 1 | 3 << 13 | i1 << 12 | (if d == 2 { 3 } else { d }) << 7 | i5.max(1) << 2, // lui
        8 => 1 | 4 << 13 | r.below(2) as u16 * 1024 | q << 7 | i5.max(1) << 2,      // srli, srai
        9 => 1 | 4 << 13 | i1 << 12 | 2 << 10 | q << 7 | i5 << 2,                   // andi
        10 => 1 | 4 << 13 | 3 << 10 | q << 7 | r.below(4) as u16 * 32 | q2 << 2,    // sub xor or and
        11 => 2 | d << 7 | i5.max(1) << 2,                                          // slli
        12 => 2 | 2 << 13 | i1 << 12 | d << 7 | i5 << 2,                            // lwsp
        13 => 2 | 4 << 13 | d << 7 | i5.max(1) << 2,                                // mv
        14 => 2 | 4 << 13 | 1 << 12 | d << 7 | i5.max(1) << 2,                      // add
        _ => 2 | 6 << 13 | i1 << 12 | r.below(32) as u16 * 128 | i5 << 2,           // swsp
    }
}

/// One item of a program before its addresses are known.
#[derive(Clone)]
enum It {
    W(u32),
    H(u16),
    Jal(u32),
    Br(u32, u32, u32),
    CJ(u16),
    CB(u16, u16),
    Call(u32),
    Tail,
    /// auipc d1; addi d2, d1
    LaText(u32, u32),
    LaData(u32, u32),
    /// lui d1; addi d2, d1 with a link-time relocation
    Abs(u32, u32),
    /// lui d1; addi d2, d1 of a number
    Li(u32, u32),
    AuiLoad(u32, u32),
    AuiStore(u32, u32, u32),
    AuiAlone(u32),
    Sys(u32),
}
fn len(i: &It) -> u64 {
    match i {
        It::H(_) | It::CJ(_) | It::CB(..) => 2,
        It::W(_) | It::Jal(_) | It::Br(..) => 4,
        _ => 8,
    }
}

struct Prog32 {
    elf: Elf,
    hi20: Vec<u64>,
    rel32: Vec<u64>,
}

fn prog32(r: &mut Rng, lift: bool) -> Prog32 {
    let pie = r.chance(1, 2);
    let compressed = r.chance(2, 3);
    let base0 = *r.pick(&[0x0001_0000u64, 0x0020_0000, 0x0001_1000, 0x2040_0000, 0x8000_0000, 0x8040_0000, 0x7f00_0000]);
    let base0 = if lift { base0 } else { base0.max(0x0020_0000) + if base0 == 0x8000_0000 { 0x40_0000 } else { 0 } };
    let ntext = if r.chance(1, 2) { 2 } else { 1 };
    let mut bases = vec![base0];
    if ntext == 2 {
        let far = *r.pick(&[0x1000u64, 0x2000, 0x8_0000, 0x30_0000]);
        bases.push(base0 + far + r.below(8) * 4);
    }
    let data_base = bases[ntext - 1] + *r.pick(&[0x1000u64, 0x4000, 0x10_0800]);
    let data_words = r.range(2, 10);
    let items: Vec<Vec<It>> = bases
        .iter()
        .map(|_| {
            let n = r.range(2, if lift { 14 } else { 10 });
            let mut v: Vec<It> = vec![];
            for _ in 0..n {
                let d = r.range(1, 31) as u32;
                let d = if d == 3 { 4 } else { d };
                let e = if r.chance(3, 4) { d } else { r.range(4, 31) as u32 };
                v.push(match r.below(20) {
                    0..=3 => It::W(plain(r, false)),
                    4..=6 if compressed => It::H(cplain(r)),
                    7 | 8 => It::Jal(*r.pick(&[0, 1, d])),
                    9 | 10 => It::Br(*r.pick(&BR), reg(r), reg(r)),
                    11 if compressed => It::CJ(*r.pick(&[1, 5])),
                    12 if compressed => It::CB(*r.pick(&[6, 7]), r.below(8) as u16),
                    13 => It::Call(*r.pick(&[1, 5, d])),
                    14 => It::Tail,
                    15 => It::LaText(d, e),
                    16 => It::LaData(*r.pick(&[d, d, 3]), *r.pick(&[d, e])),
                    17 if !pie => It::Abs(d, e),
                    17 => It::Li(d, e),
                    18 => match r.below(5) {
                        0 => It::AuiLoad(d, *r.pick(&[0u32, 1, 2, 4, 5])),
                        1 => It::AuiStore(d, r.below(3) as u32, reg(r)),
                        2 => It::AuiAlone(d),
                        _ => It::Sys(r.below(20) as u32),
                    },
                    19 => match r.below(4) {
                        0 => It::W(it(0x67, 0, *r.pick(&[0, 1]), d, 0)),
                        1 if compressed => It::H(2 | 4 << 13 | r.below(2) as u16 * 4096 | (d as u16) << 7), // jr, jalr
                        2 => It::W(0xc000_1073),                                                     // unimp
                        _ if compressed => It::H(0),
                        _ => It::Li(d, d),
                    },
                    _ => It::Li(d, e),
                });
            }
            // a plain "li t0" right before "ecall" is a system call; keep such pairs to their own item
            v.push(It::W(it(0x13, 0, 0, 0, 0)));
            for k in 1..v.len() {
                if matches!(v[k - 1], It::W(x) if x & 0xf_ffff == it(0x13, 0, 5, 0, 0)) && matches!(v[k], It::W(0x73)) {
                    v[k] = It::W(0x0010_0073);
                }
            }
            v
        })
        .collect();
    let mut starts = vec![];
    let mut soft = vec![];
    for (its, b) in items.iter().zip(&bases) {
        let mut a = *b;
        for i in its {
            starts.push(a);
            if matches!(i, It::Li(x, y) | It::LaData(x, y) if x == y) {
                soft.push(a + 4);
            }
            a += len(i);
        }
    }
    let data_lo = data_base;
    let data_hi = data_base + data_words * 4;
    let mut hi20 = vec![];
    let mut relas: Vec<(u64, u32)> = vec![];
    let mut segs = vec![];
    for (its, b) in items.iter().zip(&bases) {
        let mut bytes: Vec<u8> = vec![];
        let mut at = *b;
        for i in its {
            let a = at;
            at += len(i);
            // a target within reach of 2^bits, both directions
            let target = |r: &mut Rng, bits: u32| -> i64 {
                if lift {
                    let near: Vec<u64> = starts.iter().chain(if r.chance(1, 4) { &soft[..] } else { &[] }).copied()
                        .filter(|t| (*t as i64 - a as i64) >= -(1i64 << (bits - 1)) && (*t as i64 - a as i64) < (1i64 << (bits - 1))).collect();
                    *r.pick(&near) as i64 - a as i64
                } else {
                    (imm(r, bits) & !1) as i64
                }
            };
            let code_addr = |r: &mut Rng| *r.pick(&starts) as i64 - a as i64;
            let data_addr = |r: &mut Rng| (match r.below(4) {
                0 => data_hi + 0x3000 + r.below(0x20_0000),
                _ => data_lo + r.below(data_hi - data_lo),
            }) as i64 - a as i64;
            let two = |o: &mut Vec<u8>, x: u32, y: u32| {
                o.extend_from_slice(&x.to_le_bytes());
                o.extend_from_slice(&y.to_le_bytes());
            };
            match *i {
                It::W(w) => bytes.extend_from_slice(&w.to_le_bytes()),
                It::H(h) => bytes.extend_from_slice(&h.to_le_bytes()),
                It::Jal(d) => bytes.extend_from_slice(&jt(d, target(r, 21) as i32).to_le_bytes()),
                It::Br(f, x, y) => bytes.extend_from_slice(&bt(f, x, y, target(r, 13) as i32).to_le_bytes()),
                It::CJ(f) => bytes.extend_from_slice(&cj(f, target(r, 12) as i32).to_le_bytes()),
                It::CB(f, x) => bytes.extend_from_slice(&cb(f, x, target(r, 9) as i32).to_le_bytes()),
                It::Call(d) => {
                    let (h, l) = split(if lift { code_addr(r) } else { (imm(r, 24) & !1) as i64 });
                    two(&mut bytes, ut(0x17, d, h), it(0x67, 0, d, d, l))
                }
                It::Tail => {
                    let (h, l) = split(if lift { code_addr(r) } else { (imm(r, 24) & !1) as i64 });
                    two(&mut bytes, ut(0x17, 6, h), it(0x67, 0, 0, 6, l))
                }
                It::LaText(d, e) => {
                    let (h, l) = split(code_addr(r));
                    two(&mut bytes, ut(0x17, d, h), it(0x13, 0, e, d, l))
                }
                It::LaData(d, e) => {
                    let (h, l) = split(data_addr(r));
                    two(&mut bytes, ut(0x17, d, h), it(0x13, 0, e, d, l))
                }
                It::Abs(d, e) => {
                    let to_text = r.chance(2, 3);
                    let (h, l) = split(a as i64 + if to_text { code_addr(r) } else { data_addr(r) });
                    hi20.push(a);
                    relas.push((a, 26));
                    relas.push((a + 4, 27));
                    two(&mut bytes, ut(0x37, d, h), it(0x13, 0, e, d, l))
                }
                It::Li(d, e) => {
                    let v = if r.chance(1, 4) { *r.pick(&starts) as i64 } else { imm(r, 31) as i64 * 2 + 1 };
                    let (h, l) = split(v);
                    two(&mut bytes, ut(0x37, d, h), it(0x13, 0, e, d, l))
                }
                It::AuiLoad(d, f) => {
                    let (h, l) = split(data_addr(r));
                    two(&mut bytes, ut(0x17, d, h), it(0x03, f, d, d, l))
                }
                It::AuiStore(d, f, x) => {
                    let (h, l) = split(data_addr(r));
                    two(&mut bytes, ut(0x17, d, h), st(f, d, x, l))
                }
                It::AuiAlone(d) => {
                    let (h, l) = split(data_addr(r));
                    two(&mut bytes, ut(0x17, d, h), it(0x13, 0, d % 7 + 4, d, l))
                }
                It::Sys(n) => two(&mut bytes, it(0x13, 0, 5, 0, n as i32), 0x73),
            }
        }
        let extra = if r.chance(1, 4) { 4 * r.below(4) } else { 0 };
        segs.push(Seg { base: *b, exec: true, memsz: bytes.len() as u64 + extra, bytes });
    }
    // data: zeros, numbers, pointers into code and data
    let mut words: Vec<u32> = (0..data_words)
        .map(|_| match r.below(4) {
            0 => 0,
            1 => *r.pick(&starts) as u32, // a number that happens to look like a code address
            _ => r.next() as u32,
        })
        .collect();
    let mut rel32 = vec![];
    let mut dynrelas = vec![];
    for (i, w) in words.iter_mut().enumerate() {
        if r.chance(1, 3) {
            let off = data_lo + 4 * i as u64;
            let v = if r.chance(2, 3) { *r.pick(&starts) } else { data_lo + r.below(data_hi - data_lo) };
            if pie {
                if r.chance(1, 2) {
                    *w = 0;
                }
                dynrelas.push((off, v));
            } else {
                *w = v as u32;
                rel32.push(off);
                relas.push((off, 1));
            }
        }
    }
    let mut bytes: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
    if !pie && rel32.is_empty() && relas.is_empty() {
        // a program without any relocation is only accepted when position independent
        relas.push((bases[0], 17));
    }
    if r.chance(1, 4) {
        bytes.extend_from_slice(&[1, 0, 7][..r.range(1, 3) as usize]);
    }
    segs.push(Seg { base: data_base, exec: false, memsz: bytes.len() as u64 + if r.chance(1, 2) { 64 } else { 0 }, bytes });
    if r.chance(1, 2) {
        segs.reverse();
    }
    for k in (1..relas.len()).rev() {
        relas.swap(k, r.below(k as u64 + 1) as usize);
    }
    let mut syms = vec![];
    for a in starts.iter().chain(&[data_lo, data_lo + 4]) {
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 2) {
                let n = *r.pick(&["f", "g", "main", "loop", ".L0", "a.b", "x", "y1", "y2", "h3", "core::fmt"]);
                syms.push((if r.chance(1, 8) { String::new() } else { n.to_string() }, *a, *r.pick(&[2u8, 1, 2, 0, 3])));
            }
        }
    }
    let prover = r.chance(1, 4).then(|| (data_hi + 0x1000, data_hi + 0x1000 + 8 * r.below(10)));
    Prog32 { elf: Elf { is64: false, dynamic: pie, entry: *r.pick(&starts), segs, syms, relas, dynrelas, prover }, hi20, rel32 }
}

fn args(a: &impl InstructionArgs) -> Value {
    let mut m = serde_json::Map::new();
    let g = |x: powdr_riscv_types::Register| json!(x.addr());
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.insert(k.into(), v);
        }
    };
    put("l", a.l().ok().map(|l| json!([l.as_ref()])));
    put("r", a.r().ok().map(|x| json!([g(x)])));
    put("rri", a.rri().ok().map(|(x, y, i)| json!([g(x), g(y), d32(i as u64)])));
    put("rrr", a.rrr().ok().map(|(x, y, z)| json!([g(x), g(y), g(z)])));
    put("rrr2", a.rrr2().ok().map(|(x, y, z)| json!([g(x), g(y), g(z)])));
    put("ri", a.ri().ok().map(|(x, i)| json!([g(x), d32(i as u64)])));
    put("rr", a.rr().ok().map(|(x, y)| json!([g(x), g(y)])));
    put("rrl", a.rrl().ok().map(|(x, y, l)| json!([g(x), g(y), l.as_ref()])));
    put("rl", a.rl().ok().map(|(x, l)| json!([g(x), l.as_ref()])));
    put("rro", a.rro().ok().map(|(x, y, i)| json!([g(x), g(y), d32(i as u64)])));
    put("empty", a.empty().ok().map(|_| json!(true)));
    Value::Object(m)
}

fn record32(p: &Prog32, lift: bool) -> Value {
    let e = &p.elf;
    let mut segs: Vec<&Seg> = e.segs.iter().collect();
    segs.sort_by_key(|s| s.base);
    let half = |b: &[u8]| b.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect::<Vec<_>>();
    let word = |b: &[u8]| {
        b.chunks(4).map(|c| { let mut x = [0; 4]; x[..c.len()].copy_from_slice(c); d32(u32::from_le_bytes(x) as u64) }).collect::<Vec<_>>()
    };
    let text: Vec<Value> = segs.iter().filter(|s| s.exec).map(|s| json!({"base": d32(s.base), "size": s.memsz, "code": half(&s.bytes)})).collect();
    let data: Vec<Value> = segs.iter().filter(|s| !s.exec).map(|s| json!({"base": d32(s.base), "words": word(&s.bytes)})).collect();
    let bytes = e.bytes();
    let got = catch_unwind(AssertUnwindSafe(|| {
        let mut x = load_elf_from_buffer(&bytes);
        let labels: Vec<Value> = x.text_labels().iter().map(|a| d32(*a as u64)).collect();
        if !lift {
            return json!({"labels": labels});
        }
        // the reserved table of load-time relocations is no data of the program
        let top = segs.iter().map(|s| s.base + s.memsz).max().unwrap();
        let mem: Vec<Value> = x.take_initial_mem().filter(|m| !e.dynamic || (m.addr as u64) < top)
            .map(|m| match m.value {
                SingleDataValue::Value(v) => json!({"a": d32(m.addr as u64), "t": "v", "v": d32(v as u64)}),
                SingleDataValue::LabelReference(l) => json!({"a": d32(m.addr as u64), "t": "l", "l": l}),
                SingleDataValue::Offset(..) => json!({"a": d32(m.addr as u64), "t": "?"}),
            })
            .collect();
        let start = x.start_function().as_ref().to_string();
        let (lo, hi) = x.prover_data_bounds();
        let stmts: Vec<Value> = x.take_executable_statements()
            .map(|s| match s {
                Statement::DebugLoc { .. } => json!({"t": "d"}),
                Statement::Label(l) => json!({"t": "l", "n": l.as_ref()}),
                Statement::Instruction { op, args: a } => json!({"t": "i", "op": op, "a": args(&a)}),
            })
            .collect();
        json!({"labels": labels, "mem": mem, "start": start, "prover": [d32(lo as u64), d32(hi as u64)], "stmts": stmts})
    }));
    let (ok, out) = match got {
        Ok(v) => (true, v),
        Err(_) => (false, json!({"labels": [], "mem": [], "start": "", "prover": [], "stmts": []})),
    };
    json!({"kind": "rv32", "lift": lift, "ok": ok, "entry": d32(e.entry), "text": text, "data": data, "pie": e.dynamic,
        "hi20": p.hi20.iter().map(|x| d32(*x)).collect::<Vec<_>>(), "rel32": p.rel32.iter().map(|x| d32(*x)).collect::<Vec<_>>(),
        "rela": e.dynrelas.iter().map(|(a, v)| json!([d32(*a), d32(*v)])).collect::<Vec<_>>(),
        "pd": e.prover.map(|(a, b)| json!([d32(a), d32(b)])).unwrap_or(json!([d32(0), d32(0)])),
        "out": out})
}

fn record64(r: &mut Rng) -> Value {
    let base0 = *r.pick(&[0x1_0000u64, 0x20_0000, 0x8000_0000, 0x8040_0000, 0x7fff_f000, 0xffff_f000, 0x12_3456_7000, 0xffff_ffff_8000_0000, 0x7f00_0000_0000]);
    let mut segs = vec![];
    let mut at = base0;
    for _ in 0..r.range(1, 2) {
        let mut w: Vec<u32> = vec![];
        for _ in 0..r.range(2, 12) {
            let d = reg(r);
            match r.below(9) {
                0 => w.push(plain(r, true)),
                1 => w.push(jt(d, imm(r, 21) & !1)),
                2 | 3 => w.push(bt(*r.pick(&BR), reg(r), reg(r), imm(r, 13) & !1)),
                4 => w.push(it(0x67, 0, reg(r), reg(r), imm(r, 12) & !1)),
                5 => w.push(ut(0x17, d, (imm(r, 20) as u32) << 12)),
                k => {
                    let d = if d == 0 { 1 } else { d };
                    w.push(ut(0x17, d, (imm(r, 20) as u32) << 12));
                    if k == 6 {
                        w.push(it(0x67, 0, d, d, imm(r, 12) & !1));
                    } else {
                        w.push(it(0x67, 0, reg(r), d, imm(r, 12) & !1));
                    }
                }
            }
        }
        let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        let memsz = bytes.len() as u64 + if r.chance(1, 3) { 16 } else { 0 };
        segs.push(Seg { base: at, exec: true, memsz, bytes });
        at += *r.pick(&[0x1000u64, 0x10_0000, 0x200]);
    }
    let dl = r.range(1, 6) as usize;
    segs.push(Seg { base: at + 0x1000, exec: false, memsz: 64, bytes: (0..dl).flat_map(|_| (r.next() as u32).to_le_bytes()).collect() });
    let mut syms = vec![];
    for s in &segs {
        for _ in 0..r.below(4) {
            let o = match r.below(4) { 0 => 0, 1 => s.memsz - 4, _ => 4 * r.below(s.memsz / 4) };
            syms.push((r.pick(&["f", "g", "", "main"]).to_string(), s.base + o, *r.pick(&[0u8, 1, 2])));
        }
    }
    let entry = segs[0].base + 4 * r.below(segs[0].bytes.len() as u64 / 4);
    let text: Vec<Value> = segs.iter().filter(|s| s.exec).map(|s| json!({"base": d64(s.base), "size": s.memsz, "code": s.bytes.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>()})).collect();
    if r.chance(1, 2) {
        segs.reverse();
    }
    let e = Elf { is64: true, entry, segs, syms, ..Default::default() };
    let bytes = e.bytes();
    let got = catch_unwind(AssertUnwindSafe(|| compute_jumpdests_from_buffer(&bytes)));
    let (ok, dests, en, base) = match &got {
        Ok(x) => (true, x.jumpdests.iter().map(|a| d64(*a)).collect(), x.entry_point, x.pc_base),
        Err(_) => (false, vec![], 0, 0),
    };
    json!({"kind": "rv64", "ok": ok, "entry": d64(entry), "text": text, "syms": e.syms.iter().map(|s| d64(s.1)).collect::<Vec<_>>(),
        "out": {"dests": dests, "entry": d64(en), "base": d64(base)}})
}

/// elf <seed> <count> <what> <out>
pub fn cases(seed: u64, n: u64, what: &str, path: &str) {
    let r = &mut Rng::new(seed ^ 0xE1F);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for i in 0..n {
        let v = match (what, i % 2) {
            ("lift", _) => record32(&prog32(r, true), true),
            (_, 0) => record64(r),
            _ => record32(&prog32(r, false), false),
        };
        writeln!(f, "{v}").unwrap();
    }
    println!("{}", json!({"cases": n}));
}
