//! Every assembler function over its parameters, for spec/Asm.tla.

use crate::rng::Rng;
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::assembler::{self as a, Condition};
use m68000::instruction::{Direction as Dir, Size};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CONDS: [Condition; 16] = [Condition::T, Condition::F, Condition::HI, Condition::LS, Condition::CC, Condition::CS, Condition::NE, Condition::EQ,
    Condition::VC, Condition::VS, Condition::PL, Condition::MI, Condition::GE, Condition::LT, Condition::GT, Condition::LE];
pub const DIRS: [(Dir, &str); 13] = [(Dir::RegisterToMemory, "r2m"), (Dir::MemoryToRegister, "m2r"), (Dir::DstReg, "reg"), (Dir::DstEa, "ea"), (Dir::Left, "L"),
    (Dir::Right, "R"), (Dir::RegisterToUsp, "r2u"), (Dir::UspToRegister, "u2r"), (Dir::RegisterToRegister, "rr"), (Dir::MemoryToMemory, "mm"),
    (Dir::ExchangeData, "xd"), (Dir::ExchangeAddress, "xa"), (Dir::ExchangeDataAddress, "xda")];
pub const SIZES: [(Size, u8); 3] = [(Size::Byte, 1), (Size::Word, 2), (Size::Long, 4)];

fn word(r: &mut Rng) -> u16 { [0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF80, 0xFFFE, 0xFFFF, r.u32() as u16, r.u32() as u16][r.below(14)] }
fn long(r: &mut Rng) -> u32 { (word(r) as u32) << 16 | word(r) as u32 }

/// An addressing mode and its description [mode, register, parameters...]
pub fn am(r: &mut Rng, m: u8, n: u8) -> (Am, String) {
    let (w, l) = (word(r), long(r));
    let (x, xr, xl, d) = (r.chance(1, 2), r.below(8) as u8, r.chance(1, 2), word(r) as i8);
    let idx = format!("{},{xr},{},{}", x as u8, xl as u8, d as u8);
    let s = |p: String| format!("[{m},{n}{p}]");
    match m {
        0 => (Am::Drd(n), s(String::new())),
        1 => (Am::Ard(n), s(String::new())),
        2 => (Am::Ari(n), s(String::new())),
        3 => (Am::Ariwpo(n), s(String::new())),
        4 => (Am::Ariwpr(n), s(String::new())),
        5 => (Am::Ariwd(n, w as i16), s(format!(",{w}"))),
        6 => (Am::Ariwi8(n, Bew::new(x, xr, xl, d)), s(format!(",{idx}"))),
        _ => match n {
            0 => (Am::AbsShort(w), s(format!(",{w}"))),
            1 => (Am::AbsLong(l), s(format!(",{},{}", l >> 16, l & 0xFFFF))),
            2 => (Am::Pciwd(l, w as i16), s(format!(",{w}"))),
            3 => (Am::Pciwi8(l, Bew::new(x, xr, xl, d)), s(format!(",{idx}"))),
            _ => (Am::Immediate(l), s(format!(",{},{}", l >> 16, l & 0xFFFF))),
        },
    }
}

struct Rows<'a> { out: &'a mut dyn Write, line: Vec<String>, n: usize }
impl Rows<'_> {
    fn put(&mut self, f: &str, sz: u8, dir: &str, x: u32, y: u32, am: &str, am2: &str, imm: u32, call: impl FnOnce() -> Vec<u16>) {
        crate::trace::GUARD.store(true, std::sync::atomic::Ordering::Relaxed);
        let w = catch_unwind(AssertUnwindSafe(call)).unwrap_or_default();
        crate::trace::GUARD.store(false, std::sync::atomic::Ordering::Relaxed);
        let w: Vec<String> = w.iter().map(|x| x.to_string()).collect();
        self.line.push(format!("[\"{f}\",{sz},\"{dir}\",{x},{y},{am},{am2},{},{},[{}]]", imm >> 16, imm & 0xFFFF, w.join(",")));
        if self.line.len() == 250 { self.flush(); }
    }
    fn flush(&mut self) {
        if self.line.is_empty() { return; }
        self.n += 1;
        writeln!(self.out, "{{\"i\":\"asm-{}\",\"rows\":[{}]}}", self.n, self.line.join(",")).unwrap();
        self.line.clear();
    }
}

pub fn asm(r: &mut Rng, out: &mut dyn Write) {
    let mut o = Rows { out, line: Vec::new(), n: 0 };
    // Registers 0 to 7 and the numbers that are none
    let regs: [u8; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 255];
    let mut modes: Vec<(u8, u8)> = Vec::new();
    for m in 0..7 { for n in regs { modes.push((m, n)); } }
    for n in 0..5 { modes.push((7, n)); }
    let N = "[]";

    // One addressing mode
    type F1 = fn(Am) -> Vec<u16>;
    let f1: [(&str, F1); 8] = [("Jmp", a::jmp), ("Jsr", a::jsr), ("Moveccr", a::moveccr), ("Movefsr", a::movefsr), ("Movesr", a::movesr), ("Nbcd", a::nbcd),
        ("Pea", a::pea), ("Tas", a::tas)];
    // Size and addressing mode
    type F2 = fn(Size, Am) -> Vec<u16>;
    let f2: [(&str, F2); 5] = [("Clr", a::clr), ("Neg", a::neg), ("Negx", a::negx), ("Not", a::not), ("Tst", a::tst)];
    // Size, addressing mode, immediate
    type F3 = fn(Size, Am, u32) -> Vec<u16>;
    let f3: [(&str, F3); 6] = [("Addi", a::addi), ("Andi", a::andi), ("Cmpi", a::cmpi), ("Eori", a::eori), ("Ori", a::ori), ("Subi", a::subi)];
    // Register, addressing mode
    type F4 = fn(u8, Am) -> Vec<u16>;
    let f4: [(&str, F4); 10] = [("Lea", a::lea), ("Chk", a::chk), ("Divs", a::divs), ("Divu", a::divu), ("Muls", a::muls), ("Mulu", a::mulu),
        ("BtstD", a::btst_dynamic), ("BchgD", a::bchg_dynamic), ("BclrD", a::bclr_dynamic), ("BsetD", a::bset_dynamic)];
    // Addressing mode, bit number
    type F5 = fn(Am, u8) -> Vec<u16>;
    let f5: [(&str, F5); 4] = [("BtstS", a::btst_static), ("BchgS", a::bchg_static), ("BclrS", a::bclr_static), ("BsetS", a::bset_static)];
    // Register, size, addressing mode
    type F6 = fn(u8, Size, Am) -> Vec<u16>;
    let f6: [(&str, F6); 5] = [("Adda", a::adda), ("Suba", a::suba), ("Cmpa", a::cmpa), ("Cmp", a::cmp), ("Eor", a::eor)];
    // Register, direction, size, addressing mode
    type F7 = fn(u8, Dir, Size, Am) -> Vec<u16>;
    let f7: [(&str, F7); 4] = [("Add", a::add), ("Sub", a::sub), ("And", a::and), ("Or", a::or)];
    // Data, size, addressing mode
    let f8: [(&str, F6); 2] = [("Addq", a::addq), ("Subq", a::subq)];
    // Direction, addressing mode
    type F9 = fn(Dir, Am) -> Vec<u16>;
    let f9: [(&str, F9); 4] = [("Asm", a::asm), ("Lsm", a::lsm), ("Rom", a::rom), ("Roxm", a::roxm)];

    for (m, n) in &modes {
        let (m, n) = (*m, *n);
        for (name, f) in f1 { for _ in 0..if m > 4 && n < 8 { 24 } else { 2 } { let (x, d) = am(r, m, n); o.put(name, 0, "", 0, 0, &d, N, 0, || f(x)); } }
        for (name, f) in f5 { for c in 0..=255u8 { if c > 33 && c != 64 && c != 255 && (m != 0 && m != 2 || n != 3) { continue; } let (x, d) = am(r, m, n); o.put(name, 0, "", 0, c as u32, &d, N, 0, || f(x, c)); } }
        for (name, f) in f4 { for g in regs { let (x, d) = am(r, m, n); o.put(name, 0, "", g as u32, 0, &d, N, 0, || f(g, x)); } }
        for (dir, dn) in DIRS { for (name, f) in f9 { let (x, d) = am(r, m, n); o.put(name, 0, dn, 0, 0, &d, N, 0, || f(dir, x)); } }
        for (i, c) in CONDS.iter().enumerate() { let (x, d) = am(r, m, n); o.put("Scc", 0, "", 0, i as u32, &d, N, 0, || a::scc(*c, x)); }
        for (size, sz) in SIZES {
            for (name, f) in f2 { let (x, d) = am(r, m, n); o.put(name, sz, "", 0, 0, &d, N, 0, || f(size, x)); }
            for (name, f) in f3 { for _ in 0..3 { let (x, d) = am(r, m, n); let v = long(r); o.put(name, sz, "", 0, 0, &d, N, v, || f(size, x, v)); } }
            for (name, f) in f6 { for g in regs { let (x, d) = am(r, m, n); o.put(name, sz, "", g as u32, 0, &d, N, 0, || f(g, size, x)); } }
            for (name, f) in f8 { for g in regs { let (x, d) = am(r, m, n); o.put(name, sz, "", g as u32, 0, &d, N, 0, || f(g, size, x)); } }
            for (name, f) in f7 {
                for (dir, dn) in DIRS {
                    for g in regs {
                        if dn != "reg" && dn != "ea" && g != 3 { continue; }
                        let (x, d) = am(r, m, n);
                        o.put(name, sz, dn, g as u32, 0, &d, N, 0, || f(g, dir, size, x));
                    }
                }
            }
            for (dir, dn) in DIRS {
                // Every list of no, one, all but one and all registers, and others
                let one = |k: usize| if k < 16 { 1 << k } else if k < 32 { !(1 << (k - 16)) } else if k == 32 { 0 } else if k == 33 { 0xFFFF } else { word(r) };
                let masks: Vec<u16> = (0..38).map(one).collect();
                for mask in &masks[if (dn == "m2r" || dn == "r2m") && (n < 8) { 0 } else { 37 }..] {
                    let ((x, d), mask) = (am(r, m, n), *mask);
                    o.put("Movem", sz, dn, 0, mask as u32, &d, N, 0, || a::movem(dir, size, x, mask));
                }
            }
            for g in regs { let (x, d) = am(r, m, n); o.put("Movea", sz, "", g as u32, 0, &d, N, 0, || a::movea(size, g, x)); }
            for (m2, n2) in &modes {
                let ((x, d), (x2, d2)) = (am(r, m, n), am(r, *m2, *n2));
                o.put("Move", sz, "", 0, 0, &d, &d2, 0, || a::r#move(size, x2, x));
            }
        }
    }
    // Registers
    for x in regs {
        for y in regs {
            for (dir, dn) in DIRS {
                o.put("Abcd", 0, dn, x as u32, y as u32, N, N, 0, || vec![a::abcd(x, dir, y)]);
                o.put("Sbcd", 0, dn, x as u32, y as u32, N, N, 0, || vec![a::sbcd(x, dir, y)]);
                o.put("Exg", 0, dn, x as u32, y as u32, N, N, 0, || vec![a::exg(x, dir, y)]);
                for (size, sz) in SIZES {
                    o.put("Addx", sz, dn, x as u32, y as u32, N, N, 0, || vec![a::addx(x, size, dir, y)]);
                    o.put("Subx", sz, dn, x as u32, y as u32, N, N, 0, || vec![a::subx(x, size, dir, y)]);
                    let d = word(r);
                    o.put("Movep", sz, dn, x as u32, y as u32, N, N, d as u32, || a::movep(x, dir, size, y, d as i16).to_vec());
                    type S = fn(u16, Dir, Size, bool, u16) -> u16;
                    let s: [(&str, S); 4] = [("Asr", a::asr), ("Lsr", a::lsr), ("Ror", a::ror), ("Roxr", a::roxr)];
                    if dn == "L" || dn == "R" || x == 3 {
                        for (name, f) in s {
                            for k in [false, true] { o.put(name, sz, dn, x as u32, y as u32, N, N, k as u32, || vec![f(x as u16, dir, size, k, y as u16)]); }
                        }
                    }
                }
            }
            for (size, sz) in SIZES { o.put("Cmpm", sz, "", x as u32, y as u32, N, N, 0, || vec![a::cmpm(x, size, y)]); }
        }
        for k in [false, true] { o.put("Ext", 0, "", x as u32, k as u32, N, N, 0, || vec![a::ext(k, x)]); }
        for (dir, dn) in DIRS { o.put("Moveusp", 0, dn, x as u32, 0, N, N, 0, || vec![a::moveusp(dir, x)]); }
        o.put("Swap", 0, "", x as u32, 0, N, N, 0, || vec![a::swap(x)]);
        o.put("Unlk", 0, "", x as u32, 0, N, N, 0, || vec![a::unlk(x)]);
        o.put("Trap", 0, "", 0, x as u32, N, N, 0, || vec![a::trap(x)]);
        for _ in 0..16 { let d = word(r); o.put("Link", 0, "", x as u32, 0, N, N, d as u32, || a::link(x, d as i16).to_vec()); }
        for (i, c) in CONDS.iter().enumerate() {
            for _ in 0..4 { let d = word(r); o.put("Dbcc", 0, "", x as u32, i as u32, N, N, d as u32, || a::dbcc(*c, x, d as i16).to_vec()); }
        }
        for d in 0..256 { o.put("Moveq", 0, "", x as u32, 0, N, N, d, || vec![a::moveq(x, d as u8 as i8)]); }
    }
    for x in 10..20 { o.put("Trap", 0, "", 0, x as u32, N, N, 0, || vec![a::trap(x)]); }
    // Every displacement of the branches, every immediate word
    for d in 0..=0xFFFFu32 {
        let every = d < 0x200 || d > 0xFE00 || (d >= 0x7F00 && d < 0x8100) || d % 61 == 0;
        if !every { continue; }
        o.put("Bra", 0, "", 0, 0, N, N, d, || a::bra(d as u16 as i16));
        o.put("Bsr", 0, "", 0, 0, N, N, d, || a::bsr(d as u16 as i16));
        for (i, c) in CONDS.iter().enumerate() { if i == d as usize % 16 || d % 16 == 0 { o.put("Bcc", 0, "", 0, i as u32, N, N, d, || a::bcc(*c, d as u16 as i16)); } }
        type W = fn(u16) -> [u16; 2];
        let w: [(&str, W); 7] = [("Andiccr", a::andiccr), ("Andisr", a::andisr), ("Oriccr", a::oriccr), ("Orisr", a::orisr), ("Eoriccr", a::eoriccr),
            ("Eorisr", a::eorisr), ("Stop", a::stop)];
        for (name, f) in w { o.put(name, 0, "", 0, 0, N, N, d, || f(d as u16).to_vec()); }
    }
    type Z = fn() -> u16;
    let z: [(&str, Z); 7] = [("Illegal", a::illegal), ("Nop", a::nop), ("Reset", a::reset), ("Rte", a::rte), ("Rtr", a::rtr), ("Rts", a::rts), ("Trapv", a::trapv)];
    for (name, f) in z { o.put(name, 0, "", 0, 0, N, N, 0, || vec![f()]); }
    // BriefExtensionWord::new
    for x in [false, true] { for l in [false, true] { for g in regs { for d in 0..256u32 {
        o.put("Bew", l as u8, "", x as u32, g as u32, N, N, d, || vec![Bew::new(x, g, l, d as u8 as i8).0]);
    } } } }
    o.flush();
}
