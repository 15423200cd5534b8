//! Grids of operand values (see spec/Batch.tla): one instruction on every combination of listed operands and flags.

use crate::core::{set_regs, set_sr, Core};
use crate::mem::Mem;
use crate::rng::{value, Rng, LONGS};
use crate::table::Row;
use crate::trace::{guarded, pair};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
enum Place { Reg(usize), Mem(u32), No }
use Place::*;
impl Place {
    fn json(self) -> String {
        match self { Reg(r) => format!("[0,{}]", r + 1), Mem(a) => format!("[1,{a}]"), No => "[2,0]".into() }
    }
}

const CODE: u32 = 0x1000;
const DATA: u32 = 0x2000;
const DATB: u32 = 0x3000;

/// Where the operands (a, of size z, and b, of size zb) and results of an instruction are.
struct Form { a: Place, b: Place, out: Vec<Place>, z: u8, zb: u8, words: Vec<u16>, regs: [u32; 18] }

fn form(row: &Row, r: &mut Rng) -> Option<Form> {
    let mut regs = [0u32; 18];
    for v in regs.iter_mut().take(15) { *v = value(r); }
    regs[15] = 0x8000;
    regs[16] = 0x9000;
    regs[17] = CODE;
    let (x, y) = (row.x as usize, row.r as usize);
    let n = row.name.as_str();
    let z = row.sz;
    let imm = Mem(if z == 1 { CODE + 3 } else { CODE + 2 });
    // The operand at the effective address: register, (An), (An)+, -(An) or immediate
    let ea = |regs: &mut [u32; 18], z: u8| -> Option<Place> {
        match (row.m, row.r) {
            (0, q) => Some(Reg(q as usize)),
            (1, q) if q < 7 => Some(Reg(8 + q as usize)),
            (2, q) | (3, q) if q < 7 => { regs[8 + q as usize] = DATA; Some(Mem(DATA)) },
            (4, q) if q < 7 => { regs[8 + q as usize] = DATA + z as u32; Some(Mem(DATA)) },
            (7, 4) => Some(imm),
            _ => None,
        }
    };
    let mut words = vec![row.op];
    let mk = |a: Place, b: Place, out: Vec<Place>, z: u8, zb: u8, words: Vec<u16>, regs: [u32; 18]| Some(Form { a, b, out, z, zb, words, regs });
    match n {
        "Add" | "Sub" | "And" | "Or" | "Cmp" | "Eor" => {
            let e = ea(&mut regs, z)?;
            if n == "Eor" || row.k == 1 { mk(Reg(x), e, vec![e], z, z, words, regs) } else { mk(e, Reg(x), vec![Reg(x)], z, z, words, regs) }
        },
        "Adda" | "Suba" | "Cmpa" | "Movea" => {
            if x == 7 || row.m > 1 && row.r == row.x { return None; }
            let e = ea(&mut regs, z)?;
            mk(e, Reg(8 + x), vec![Reg(8 + x)], z, 4, words, regs)
        },
        "Move" => {
            let e = ea(&mut regs, z)?;
            let b = match row.y { 0 => Reg(x), 2 | 3 if x < 7 && !(row.m > 1 && row.r == row.x) && !(row.m == 1 && row.r == row.x) => { regs[8 + x] = DATB; Mem(DATB) }, _ => return None };
            mk(e, b, vec![b], z, z, words, regs)
        },
        "Addi" | "Subi" | "Andi" | "Ori" | "Eori" | "Cmpi" => {
            if row.m == 7 { return None; }
            let e = ea(&mut regs, z)?;
            mk(imm, e, vec![e], z, z, words, regs)
        },
        "Addx" | "Subx" | "Abcd" | "Sbcd" | "Cmpm" => {
            if row.k == 0 && n != "Cmpm" { return mk(Reg(y), Reg(x), vec![Reg(x)], z, z, words, regs); }
            if x == 7 || y == 7 || x == y { return None; }
            let d = if n == "Cmpm" { 0 } else { z as u32 };
            regs[8 + y] = DATA + d;
            regs[8 + x] = DATB + d;
            mk(Mem(DATA), Mem(DATB), vec![Mem(DATB)], z, z, words, regs)
        },
        "Neg" | "Negx" | "Not" | "Clr" | "Tst" | "Tas" | "Nbcd" | "Scc" | "Addq" | "Subq" | "Asm" | "Lsm" | "Roxm" | "Rom" | "Movefsr" => {
            let e = ea(&mut regs, z)?;
            if e == imm { return None; }
            mk(No, e, vec![e], z, if row.m == 1 { 4 } else { z }, words, regs)
        },
        "Mulu" | "Muls" | "Divu" | "Divs" | "Chk" => {
            let e = ea(&mut regs, 2)?;
            mk(e, Reg(x), vec![Reg(x)], 2, 4, words, regs)
        },
        "Asr" | "Lsr" | "Roxr" | "Ror" => {
            if row.y == 1 { mk(Reg(x), Reg(y), vec![Reg(y)], 4, z, words, regs) } else { mk(No, Reg(y), vec![Reg(y)], z, z, words, regs) }
        },
        "Btst" | "Bchg" | "Bclr" | "Bset" => {
            if row.m == 7 { return None; }
            let e = ea(&mut regs, 1)?;
            if row.k == 1 { mk(Reg(x), e, vec![e], 4, z, words, regs) } else { mk(Mem(CODE + 2), e, vec![e], 2, z, words, regs) }
        },
        "Ext" | "Swap" => mk(No, Reg(y), vec![Reg(y)], 4, 4, words, regs),
        "Moveq" => mk(No, Reg(x), vec![Reg(x)], 4, 4, words, regs),
        "Exg" => {
            let (p, q) = match row.k { 0 => (x, y), 1 => (8 + x, 8 + y), _ => (x, 8 + y) };
            if p == 15 || q == 15 { return None; }
            mk(Reg(p), Reg(q), if p == q { vec![Reg(p)] } else { vec![Reg(p), Reg(q)] }, 4, 4, words, regs)
        },
        "Andiccr" | "Oriccr" | "Eoriccr" | "Andisr" | "Orisr" | "Eorisr" => mk(Mem(CODE + 2), No, vec![], 2, 2, words, regs),
        "Moveccr" | "Movesr" => { let e = ea(&mut regs, 2)?; mk(e, No, vec![], 2, 2, words, regs) },
        "Bcc" | "Bra" => { if row.y == 0 { mk(Mem(CODE + 2), No, vec![Reg(17)], 2, 2, words, regs) } else { mk(No, No, vec![Reg(17)], 2, 2, words, regs) } },
        "Dbcc" => { words.truncate(1); mk(Mem(CODE + 2), Reg(y), vec![Reg(y), Reg(17)], 2, 4, words, regs) },
        "Trapv" => mk(No, No, vec![], 2, 2, words, regs),
        _ => None,
    }
}

fn put(p: Place, z: u8, v: u32, regs: &mut [u32; 18], m: &mut Mem) {
    match p {
        Reg(r) => regs[r] = v,
        Mem(a) => match z { 4 => m.poke_l(a, v), 2 => m.poke_w(a, v as u16), _ => { m.poke(a, v as u8); m.poke(a ^ 1, 0x5A); } },
        No => (),
    }
}
fn get(p: Place, z: u8, regs: &[u32; 18], m: &Mem) -> u32 {
    match p {
        Reg(r) => regs[r],
        Mem(a) => (0..z as u32).fold(0, |v, i| v << 8 | m.peek(a + i) as u32),
        No => 0,
    }
}

fn line(id: &str, f: &Form, cpu: u8, sys: u16, la: &[u32], lb: &[u32], lf: &[u16]) -> String {
    let mut mem = Mem::new(1);
    for (i, w) in f.words.iter().enumerate() { mem.poke_w(CODE + 2 * i as u32, *w); }
    let mut core = Core::new(cpu, false);
    let mut o = String::new();
    let mut rx: Option<[u32; 18]> = None;
    for a in la { for b in lb { for c in lf {
        let mut regs = f.regs;
        put(f.a, f.z, *a, &mut regs, &mut mem);
        put(f.b, f.zb, *b, &mut regs, &mut mem);
        set_regs(core.regs_mut(), &regs);
        set_sr(core.regs_mut(), sys | c);
        mem.begin();
        let r = guarded(|| core.interpreter_exception(&mut mem).1);
        let after = core.list();
        let first = *rx.get_or_insert(after);
        let mut flag = r.is_err();
        for i in 0..18 {
            let reg = Reg(i);
            if f.out.contains(&reg) { continue; }
            let want = if reg == f.a || reg == f.b { regs[i] } else { first[i] };
            if after[i] != want { flag = true; }
        }
        for x in &mem.log {
            if x.write && !f.out.iter().any(|p| if let Mem(p) = p { *p <= x.addr && x.addr + x.n as u32 <= p + f.zb as u32 } else { false }) { flag = true; }
        }
        let vec = r.unwrap_or(None).unwrap_or(0);
        let _ = write!(o, "{}{}", if o.is_empty() { "" } else { "," }, core.sr() as u32 | (vec as u32) << 16 | (flag as u32) << 24);
        for p in &f.out { let v = get(*p, f.zb, &after, &mem); let _ = write!(o, ",{},{}", v >> 16, v & 0xFFFF); }
        core.set_stop(false);
    } } }
    let list = |l: &[u32]| l.iter().map(|v| pair(*v)).collect::<Vec<_>>().join(",");
    let words: Vec<String> = f.words.iter().enumerate().map(|(i, w)| format!("[{},{w}]", CODE as usize + 2 * i)).collect();
    format!("{{\"i\":\"{id}\",\"n\":{},\"c\":{cpu},\"m\":[{}],\"sy\":{sys},\"w\":[{}],\"z\":{},\"zb\":{},\"pa\":{},\"pb\":{},\"po\":[{}],\"as\":[{}],\"bs\":[{}],\"fs\":[{}],\"rx\":[{}],\"o\":[{o}]}}",
        la.len() * lb.len() * lf.len(), list(&f.regs), words.join(","), f.z, f.zb, f.a.json(), f.b.json(), f.out.iter().map(|p| p.json()).collect::<Vec<_>>().join(","),
        list(la), list(lb), lf.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","), list(&rx.unwrap()))
}

/// n values of size z: boundary values and random ones (all of them for bytes when n is 256).
fn values(r: &mut Rng, z: u8, n: usize) -> Vec<u32> {
    let up = |r: &mut Rng, v: u32| match z { 1 => v & 0xFF | r.u32() & 0xFFFF_FF00, 2 => v & 0xFFFF | r.u32() & 0xFFFF_0000, _ => v };
    if z == 1 && n >= 256 { return (0..256).map(|v| up(r, v)).collect(); }
    let mut l: Vec<u32> = match z {
        1 => vec![0, 1, 2, 9, 0x0F, 0x10, 0x7E, 0x7F, 0x80, 0x81, 0x99, 0xFE, 0xFF],
        2 => vec![0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFF80, 0xFFFE, 0xFFFF],
        _ => LONGS.to_vec(),
    };
    while l.len() > n { let i = r.below(l.len()); l.remove(i); }
    while l.len() < n { let v = value(r); l.push(if z == 2 && r.chance(1, 4) { v >> 16 } else { v }); }
    l.into_iter().map(|v| up(r, v)).collect()
}

/// Bytes made of decimal digits, mostly.
fn digits(r: &mut Rng, n: usize) -> Vec<u32> {
    (0..n).map(|i| if i % 8 == 7 { r.u32() } else { r.u32() & 0xFFFF_FF00 | (r.pick(&[0, 1, 4, 5, 8, 9, 9, r.0 as u32 % 10]) << 4) | r.below(10) as u32 }).collect()
}

pub struct Size { pub a: usize, pub b: usize, pub f: usize, pub user: bool }

fn flags(r: &mut Rng, n: usize) -> Vec<u16> {
    if n >= 32 { return (0..32).collect(); }
    // every combination of X and Z first
    (0..n).map(|i| ((i as u16 & 1) << 4 | (i as u16 >> 1 & 1) << 2) | r.u16() & 0x0B).collect()
}

/// The lines for one opcode. Each has at most some thousand combinations.
pub fn grid(r: &mut Rng, id: &str, row: &Row, s: &Size, out: &mut dyn FnMut(String)) {
    let f = match form(row, r) { Some(f) => f, None => return };
    let cpu = crate::core::cpu(r);
    let n = row.name.as_str();
    // with operand a and b the same register, only the values of b count
    let la = match n {
        _ if f.a == No || f.a == f.b => vec![0],
        "Asr" | "Lsr" | "Roxr" | "Ror" => (0..64u32).map(|v| v | r.u32() & !63).collect(),
        "Btst" | "Bchg" | "Bclr" | "Bset" if row.k == 0 => (0..if s.a >= 256 { 256 } else { 40 }).chain([0xFFFF, 0x8001]).collect(),
        "Btst" | "Bchg" | "Bclr" | "Bset" => (0..34).chain([63, 64, 255, 0x100, 0xFFFF_FFFF, 0x8000_0000]).collect(),
        "Andiccr" | "Oriccr" | "Eoriccr" | "Moveccr" | "Movesr" | "Andisr" | "Orisr" | "Eorisr" => {
            if s.a >= 256 { (0..65536).collect() } else { values(r, 2, 2000) }
        },
        "Bcc" | "Bra" | "Dbcc" => values(r, 2, s.a.min(24)).iter().map(|v| v & !1).collect(),
        "Abcd" | "Sbcd" if s.a < 256 => digits(r, s.a),
        _ => values(r, f.z, s.a),
    };
    let sz = match n { "Chk" => 2, "Movea" | "Adda" | "Suba" | "Cmpa" | "Ext" | "Swap" | "Mulu" | "Muls" | "Divu" | "Divs" | "Exg" | "Moveq" => 4, _ if row.m == 1 && f.a == No => 4, _ => row.sz.min(4) };
    let sz = if n == "Mulu" || n == "Muls" { 2 } else { sz };
    let lb = if f.b == No { vec![0] } else {
        match n {
            "Abcd" | "Sbcd" if s.b < 256 => digits(r, s.b),
            "Clr" | "Moveq" => values(r, sz, 12),
            "Move" | "Movea" => values(r, sz, 6),
            "Dbcc" => [0u32, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 0x100, 0xFF00].iter().map(|v| v | r.u32() & 0xFFFF_0000).collect(),
            _ if f.a == No => values(r, sz, if s.b >= 256 && row.sz == 2 { 4096 } else { s.b }),
            _ => values(r, sz, s.b),
        }
    };
    let lf = match n {
        "Scc" | "Bcc" | "Dbcc" | "Bra" | "Trapv" => flags(r, 32),
        _ if f.a == No => flags(r, 32),
        "Abcd" | "Sbcd" | "Addx" | "Subx" => flags(r, s.f.max(4)),
        "Andiccr" | "Oriccr" | "Eoriccr" | "Andisr" | "Orisr" | "Eorisr" => flags(r, if s.a >= 256 { 8 } else { 32 }),
        "Asr" | "Lsr" | "Roxr" | "Ror" => flags(r, s.f.max(2)),
        _ => flags(r, s.f),
    };
    let sys = if s.user { 0 } else { 0x2000 } | (r.below(8) as u16) << 8;
    let per = (4096 / (lb.len() * lf.len())).clamp(1, la.len());
    for (k, a) in la.chunks(per).enumerate() {
        for (j, b) in lb.chunks(4096).enumerate() { out(line(&format!("{id}-{k}-{j}"), &f, cpu, sys, a, b, &lf)); }
    }
}
