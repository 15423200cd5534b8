//! Generation of machine states and histories, driven by the decode table of the specification.

use crate::core::{set_regs, set_sr, Core};
use crate::mem::Mem;
use crate::rng::{value, Rng, LONGS};
use crate::table::{Pool, Row};
use crate::trace::{call, Trace};
use std::rc::Rc;

#[derive(Clone)]
pub struct Opts {
    /// Probabilities out of 16.
    pub user: usize,
    pub trace: usize,
    pub odd: usize,
    pub fault: usize,
    pub code_fault: bool,
    pub pending: usize,
    pub kinds: &'static str,
    /// Also run the disassembling interpreter on a copy.
    pub alt: bool,
    pub more: usize,
    /// Random opcode words after the first instruction: flow instructions.
    pub flow: bool,
    /// Also ask the public decoder.
    pub public: bool,
}
pub const PLAIN: Opts = Opts { public: false, user: 6, trace: 1, odd: 1, fault: 0, code_fault: false, pending: 0, kinds: "eeeD", alt: false, more: 0, flow: false };

pub fn word(r: &mut Rng) -> u16 { if r.chance(1, 3) { (value(r) >> 16) as u16 } else { value(r) as u16 } }

pub fn rand_regs(r: &mut Rng, odd: usize) -> [u32; 18] {
    let mut v = [0; 18];
    for x in v.iter_mut().take(8) { *x = value(r); }
    for x in v.iter_mut().skip(8).take(9) {
        *x = match r.below(8) {
            0 => value(r),
            1 => 0xFFFF_FFF0u32.wrapping_add(r.below(32) as u32),
            2 => (r.pick(&LONGS) & 0xFFFF_0000).wrapping_add(0x7FF0 + r.below(32) as u32),
            3 => 0x400 + r.below(64) as u32,
            _ => r.u32() & r.pick(&[0xFFFF, 0xFF_FFFF, 0xFFFF_FFFF]),
        };
        if !r.chance(odd, 16) { *x &= !1; }
    }
    if r.chance(1, 6) { let (a, b) = (8 + r.below(9), 8 + r.below(9)); v[a] = v[b]; }
    v[17] = match r.below(8) {
        0 => 0xFFFF_FFF0u32.wrapping_add(r.below(16) as u32),
        1 => r.u32() & 0xFFFF_0000 | 0xFFF0 + r.below(16) as u32,
        _ => r.u32() & r.pick(&[0xFFFF, 0xFF_FFFF, 0xFFFF_FFFF]) | 0x400,
    } & !1;
    if r.chance(odd, 64) { v[17] |= 1; }
    v
}

pub fn rand_sr(r: &mut Rng, o: &Opts) -> u16 {
    let mut sr = r.u16() & 0x1F | (r.below(8) as u16) << 8;
    if !r.chance(o.user, 16) { sr |= 0x2000; }
    if r.chance(o.trace, 16) { sr |= 0x8000; }
    sr
}

/// Extension words for one effective address; parity is the parity of its base.
fn ext_words(r: &mut Rng, m: u8, reg: u8, sz: u8, regs: &[u32; 18], sup: bool, pc: u32, odd: usize) -> Vec<u16> {
    let a = |n: u8| if n < 7 { regs[8 + n as usize] } else if sup { regs[16] } else { regs[15] };
    let want_odd = r.chance(odd, 16);
    let fix = |w: u16, base: u32| if (w as u32 ^ base) & 1 == want_odd as u32 { w } else { w ^ 1 };
    match (m, reg) {
        (5, _) => vec![fix(word(r), a(reg))],
        (7, 2) => vec![fix(word(r), pc)],
        (6, _) | (7, 3) => {
            let w = if r.chance(1, 2) { r.u16() } else { (r.u16() & 0xF800) | word(r) & 0xFF };
            let n = (w >> 12 & 7) as u8;
            let x = if w & 0x8000 != 0 { a(n) } else { regs[n as usize] };
            vec![fix(w, x.wrapping_add(if m == 6 { a(reg) } else { pc }))]
        },
        (7, 0) => vec![fix(word(r), 0)],
        (7, 1) => { let v = if r.chance(1, 2) { value(r) } else { r.u32() }; vec![(v >> 16) as u16, fix(v as u16, 0)] },
        (7, 4) => { let v = value(r); if sz == 4 { vec![(v >> 16) as u16, v as u16] } else { vec![word(r)] } },
        _ => vec![],
    }
}

/// Makes the operands of instruction `row` interesting, and writes it at the PC.
pub fn place(r: &mut Rng, row: &Row, regs: &mut [u32; 18], sr: u16, mem: &mut Mem, cpu: u8, odd: usize) {
    let sup = sr & 0x2000 != 0;
    let sp = if sup { 16 } else { 15 };
    match row.name.as_str() {
        "Asr" | "Lsr" | "Roxr" | "Ror" if row.y == 1 => {
            let n = r.pick(&[0u32, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 40, 62, 63]);
            regs[row.x as usize] = value(r) & !63 | if r.chance(3, 4) { n } else { r.u32() & 63 };
        },
        "Dbcc" if r.chance(1, 3) => { regs[row.r as usize] = regs[row.r as usize] & 0xFFFF_0000 | r.pick(&[0, 0, 1, 0xFFFF, 0x8000]); },
        "Rte" if cpu == 1 => {
            let f = match r.below(6) { 0 => r.u16(), 1 | 2 => 0xF000 | r.u16() & 0xFFF, _ => r.u16() & 0xFFF };
            mem.poke_w(regs[16].wrapping_add(6), f);
        },
        _ => (),
    }
    if matches!(row.name.as_str(), "Rte" | "Rts" | "Rtr") {
        let at = regs[sp].wrapping_add(if row.name == "Rts" { 0 } else { 2 });
        let t = value(r);
        mem.poke_l(at, if r.chance(odd, 16) { t } else { t & !1 });
        if row.name != "Rts" { mem.poke_w(regs[sp], r.u16()); }
    }
    // Extension words
    let pc = regs[17];
    let mut at = pc.wrapping_add(2);
    let mut words: Vec<u16> = Vec::new();
    for i in 0..row.imm_words() {
        let w = match row.name.as_str() {
            "Btst" | "Bchg" | "Bclr" | "Bset" => r.u16() & if r.chance(7, 8) { 0x1F } else { 0xFFFF },
            "Movem" => match r.below(6) { 0 => 1 << r.below(16), 1 => 0xFFFF, 2 => r.pick(&[0x8000, 1, 0x8001, 0x00FF, 0xFF00]), 3 => 0xFFFF ^ 1 << r.below(16), _ => r.u16() },
            "Bra" | "Bsr" | "Bcc" | "Dbcc" => { let w = word(r); if r.chance(odd, 16) { w } else { w & !1 } },
            "Stop" | "Orisr" | "Andisr" | "Eorisr" | "Oriccr" | "Andiccr" | "Eoriccr" => {
                if r.chance(1, 2) { r.u16() } else if row.name == "Andisr" { 0xFFFF ^ 1 << r.below(16) } else { r.pick(&[0u16, 0x2000, 0x2700, 0x0700, 0xA000, 0x8000, 0x2300, 0x5F1F, 0xFFFF]) ^ 1 << r.below(16) }
            },
            "Movep" | "Link" => { let w = word(r); if row.name == "Link" && !r.chance(odd, 16) { w & !1 } else { w } },
            _ => { let v = value(r); if row.imm_words() == 2 && i == 0 { (v >> 16) as u16 } else { v as u16 } },
        };
        words.push(w);
        at = at.wrapping_add(2);
    }
    if row.m >= 0 {
        let e = ext_words(r, row.m as u8, row.r, row.sz, regs, sup, at, odd);
        at = at.wrapping_add(2 * e.len() as u32);
        words.extend(e);
    }
    if row.name == "Move" { words.extend(ext_words(r, row.y, row.x, row.sz, regs, sup, at, odd)); }
    // Division: dividends around the overflow boundary
    if row.name.starts_with("Div") && r.chance(3, 4) {
        let s = match r.below(6) { 0 => 0, 1 => word(r), 2 => r.pick(&[1u16, 2, 0xFFFF, 0x8000, 0x7FFF]), _ => r.u16() };
        let q = r.pick(&[0u32, 1, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x1_0000, 0x1_0001, 0x1234]);
        let rem = if s == 0 { 0 } else { match r.below(3) { 0 => 0, 1 => (s as u32).wrapping_sub(1), _ => r.u32() % s as u32 } };
        let d = if row.name == "Divu" { (s as u32).wrapping_mul(q).wrapping_add(rem) }
            else {
                let sa = (s as i16 as i32).unsigned_abs();
                let rem = if sa == 0 { 0 } else { rem % sa };
                let n = sa.wrapping_mul(q).wrapping_add(rem);
                if r.chance(1, 2) { n.wrapping_neg() } else { n }
            };
        if row.m == 0 && row.r != row.x { regs[row.r as usize] = regs[row.r as usize] & 0xFFFF_0000 | s as u32; regs[row.x as usize] = d; }
        else if row.m == 7 && row.r == 4 { words = vec![s]; regs[row.x as usize] = d; }
        else if row.m == 2 || row.m == 3 {
            let ai = if row.r < 7 { 8 + row.r as usize } else { sp };
            mem.poke_w(regs[ai], s);
            regs[row.x as usize] = d;
        }
    }
    if row.name == "Chk" && r.chance(1, 2) {
        let b = word(r);
        let x = b.wrapping_add(r.below(3) as u16).wrapping_sub(1);
        if row.m == 0 && row.r != row.x { regs[row.r as usize] = regs[row.r as usize] & 0xFFFF_0000 | b as u32; regs[row.x as usize] = regs[row.x as usize] & 0xFFFF_0000 | x as u32; }
        else if row.m == 7 && row.r == 4 { words = vec![b]; regs[row.x as usize] = regs[row.x as usize] & 0xFFFF_0000 | x as u32; }
    }
    mem.poke_w(pc, row.op);
    let mut at = pc.wrapping_add(2);
    for w in words { mem.poke_w(at, w); at = at.wrapping_add(2); }
}

pub const VECS: [u8; 52] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 40, 47, 57, 58, 59, 60, 61, 62, 63, 64,
    65, 100, 255, 25, 26, 27, 28, 29, 30, 31, 57, 58, 63, 9, 9, 31, 30, 26, 24];

/// One instruction from a random state (then `more` further steps).
pub fn single(r: &mut Rng, id: &str, pool: &Pool, o: &Opts) -> String {
    let cpu = crate::core::cpu(r);
    let row = pool.pick(r);
    one(r, id, &row, o, cpu)
}

pub fn one(r: &mut Rng, id: &str, row: &Row, o: &Opts, cpu: u8) -> String {
    let mut core = Core::start(r, cpu);
    let mut regs = rand_regs(r, o.odd);
    let sr = rand_sr(r, o);
    let mut mem = Mem::new(r.u64());
    if o.flow { mem.words = Some(Rc::new(FLOW.to_vec())); }
    place(r, row, &mut regs, sr, &mut mem, cpu, o.odd);
    set_regs(core.regs_mut(), &regs);
    set_sr(core.regs_mut(), sr);
    let mut pend = Vec::new();
    if r.chance(o.pending, 16) { for _ in 0..1 + r.below(3) { pend.push(r.pick(&VECS)); } }
    if r.chance(o.fault, 16) { refuse(r, &core, &mut mem, &pend, regs[17], row.len, o.code_fault); }
    let mut t = Trace::start(id, cpu, false, &core, &mem);
    if o.alt { t.twin_dis(&core, &mem); }
    for v in &pend { t.request(&mut core, *v); }
    for i in 0..=o.more {
        if t.dead { break; }
        let kind = o.kinds.as_bytes()[r.below(o.kinds.len())] as char;
        if o.public { t.public(&core, &mem); }
        let out = t.step(&mut core, &mut mem, kind);
        if out.vec != 0 && !t.dead && i < o.more { t.request(&mut core, out.vec); }
    }
    t.finish()
}

/// Refuses one of the accesses the next step is going to make.
pub fn refuse(r: &mut Rng, core: &Core, mem: &mut Mem, pend: &[u8], pc: u32, len: u8, code: bool) {
    let (mut c, mut m) = (core.clone(), mem.clone());
    for v in pend { c.exception(*v); }
    call(&mut c, &mut m, 'i', 0);
    if r.chance(1, 2) { call2(&mut c, &mut m); }
    let cand: Vec<(u32, u8)> = m.log.iter().filter(|a| code || a.write || a.addr.wrapping_sub(pc) >= 2 * len as u32).map(|a| (a.addr, a.n)).collect();
    if cand.is_empty() { return; }
    let (a, n) = cand[r.below(cand.len())];
    let mut lo = a.wrapping_add(r.below(n as usize) as u32);
    let mut hi = lo;
    match r.below(4) {
        0 => { lo &= !1; hi = lo | 1; },
        1 => { lo &= !0xF; hi = lo | 0xF; },
        _ => (),
    }
    if !code {
        // keep the code itself accessible
        for i in 0..2 * len as u32 { let x = pc.wrapping_add(i); if lo <= x && x <= hi { return; } }
    }
    mem.refused.push((lo, hi));
}
fn call2(c: &mut Core, m: &mut Mem) {
    let log = m.log.clone();
    call(c, m, 'i', 0);
    let mut l = log;
    l.extend(m.log.iter().copied());
    m.log = l;
}

/// Words of small programs: control-flow and system instructions, and status register values.
pub const FLOW: [u16; 64] = [
    0x4E71, 0x4E71, 0x4E71, 0x4E73, 0x4E73, 0x4E73, 0x4E73, 0x4E72, 0x4E72, 0x4E40, 0x4E4F, 0x4E45, 0x46FC, 0x46FC, 0x46FC, 0x027C,
    0x007C, 0x0A7C, 0x2700, 0x2000, 0x2300, 0x0000, 0x8000, 0xA000, 0xA700, 0x2500, 0x0700, 0x4AFC, 0xA123, 0xF0FF, 0x4E76, 0x4E70,
    0x4E75, 0x4E77, 0x4E60, 0x4E69, 0x60FE, 0x6002, 0x6102, 0x7001, 0x70FF, 0x5240, 0x5388, 0x41D1, 0x4E91, 0x4180, 0x83C0, 0x80C1,
    0x023C, 0x003C, 0x44FC, 0x3F00, 0x2F01, 0x321F, 0x4E50, 0x4E58, 0x4850, 0x46C0, 0x40C1, 0x4E71, 0x4E73, 0x4E72, 0x46DF, 0x51C8,
];

pub struct Seq { pub faults: usize, pub odd: usize, pub reqs: usize, pub vecs: &'static [u8], pub len: usize, pub kinds: &'static str, pub words: &'static [u16], pub alt: bool, pub reset: usize, pub user: usize, pub trace: usize, pub burst: usize }

/// A history: requests and steps of a small program with exception handlers.
pub fn seq(r: &mut Rng, id: &str, s: &Seq) -> String {
    let cpu = crate::core::cpu(r);
    let reset = r.chance(s.reset, 16);
    let (mut core, mut mem) = seq_start(r, s, cpu, reset);
    if r.chance(s.faults, 16) {
        let (c, m) = (core.clone(), mem.clone());
        refuse(r, &c, &mut mem, &[], m.seed as u32, 0, false);
        if r.chance(1, 2) { let sp = core.regs().ssp.0; let lo = sp.wrapping_sub(2 * r.below(24) as u32); mem.refused.push((lo, lo + 1)); }
    }
    let mut t = Trace::start(id, cpu, reset, &core, &mem);
    if s.alt { t.twin_dis(&core, &mem); }
    let n = 3 + r.below(s.len);
    let crowd = if s.burst > 0 { r.below(3.min(n)) } else { n };
    for i in 0..n {
        if t.dead { break; }
        // many different exceptions pending at once
        if i == crowd { for _ in 0..2 + r.below(s.burst) { let v = if r.chance(1, 3) { r.pick(&INTS) } else { 1 + r.below(255) as u8 }; t.request(&mut core, v); } }
        if r.chance(s.reqs, 16) { for _ in 0..1 + r.below(3) { let v = r.pick(s.vecs); t.request(&mut core, v); } }
        let kind = s.kinds.as_bytes()[r.below(s.kinds.len())] as char;
        let out = t.step(&mut core, &mut mem, kind);
        if out.vec != 0 && !t.dead && r.chance(7, 8) { t.request(&mut core, out.vec); }
    }
    t.finish()
}

pub fn seq_start(r: &mut Rng, s: &Seq, cpu: u8, reset: bool) -> (Core, Mem) {
    let mut core = if reset { Core::new(cpu, true) } else { Core::start(r, cpu) };
    let mut mem = Mem::new(r.u64());
    mem.words = Some(Rc::new(s.words.to_vec()));
    let base = r.pick(&[0x1000u32, 0x20_0000, 0xFFFF_0000]);
    let ssp = base + 0x8000 + if r.chance(s.odd, 64) { 1 } else { 0 };
    for v in 0..256u32 {
        let h = base + 0x2000 + 0x20 * r.below(64) as u32 + if r.chance(s.odd, 64) { 1 } else { 0 };
        mem.poke_l(v * 4, h);
    }
    mem.poke_l(0, ssp);
    if r.chance(1, 2) { for v in 1..256u32 { if r.chance(1, 2) { let h = u32::from_be_bytes([mem.peek(v * 4), mem.peek(v * 4 + 1), mem.peek(v * 4 + 2), mem.peek(v * 4 + 3)]); mem.poke_w(h & !1, 0x4E73); } } }
    let mut regs = rand_regs(r, 0);
    for x in regs.iter_mut().skip(8).take(7) { *x = base + 0x4000 + 2 * r.below(512) as u32; }
    regs[15] = base + 0x6000 + 2 * r.below(16) as u32;
    regs[16] = ssp;
    regs[17] = base + 0x1000 + 2 * r.below(128) as u32 + if r.chance(s.odd, 64) { 1 } else { 0 };
    let mut sr = r.u16() & 0x1F | (r.below(8) as u16) << 8;
    if r.chance(1, 3) { sr &= !0x700; }
    if !r.chance(s.user, 16) { sr |= 0x2000; }
    if r.chance(s.trace, 16) { sr |= 0x8000; }
    // Some stack content an RTE can return with
    let fmt = r.pick(&[0u16, 0, 0x0064, 0xF008, 0x1000]);
    mem.poke_w(ssp & !1, r.u16());
    mem.poke_l((ssp & !1).wrapping_add(2), base + 0x1000 + 2 * r.below(256) as u32);
    mem.poke_w((ssp & !1).wrapping_add(6), fmt);
    set_regs(core.regs_mut(), &regs);
    set_sr(core.regs_mut(), sr);
    (core, mem)
}

pub const INTS: [u8; 14] = [25, 26, 27, 28, 29, 30, 31, 24, 15, 57, 58, 60, 63, 31];
pub fn profile(name: &str) -> Seq {
    let base = Seq { faults: 0, odd: 0, reqs: 5, vecs: &VECS, len: 14, kinds: "eeeeiDd", words: &FLOW, alt: false, reset: 2, user: 5, trace: 1, burst: 0 };
    match name {
        "mixed" => base,
        "faults" => Seq { faults: 12, odd: 3, ..base },
        "ints" => Seq { vecs: &INTS, reqs: 7, reset: 0, ..base },
        "trace" => Seq { trace: 10, reqs: 2, ..base },
        "crowd" => Seq { burst: 40, faults: 2, odd: 1, len: 6, reset: 1, ..base },
        "long" => Seq { len: 200, reqs: 2, ..base },
        "user" => Seq { user: 14, ..base },
        "reset" => Seq { reset: 14, faults: 2, odd: 1, ..base },
        "stop" => Seq { words: &STOPS, vecs: &INTS, reqs: 6, user: 2, ..base },
        "twin" => Seq { alt: true, kinds: "eeei", faults: 4, odd: 1, ..base },
        "quiet" => Seq { kinds: "iid", faults: 2, ..base },
        _ => panic!("{name}"),
    }
}
const STOPS: [u16; 16] = [0x4E72, 0x2000, 0x4E72, 0x2300, 0x4E72, 0x2700, 0x4E72, 0xA500, 0x4E73, 0x4E71, 0x4E73, 0x46FC, 0x2100, 0x4E72, 0x2600, 0x027C];

/// The histories of the known findings (see /verif/known_findings.txt).
pub fn known() -> Vec<String> {
    let mut out = Vec::new();
    for cpu in 0..2 {
        for case in 0..3 {
            let mut core = Core::new(cpu, case == 2);
            let mut mem = Mem::new(7);
            let mut regs = [0u32; 18];
            regs[15] = 0x2000;
            regs[16] = 0x3000;
            regs[17] = 0x1000;
            mem.poke_w(0x1000, if case == 0 { 0x303C } else { 0x4A50 });
            mem.refused = match case {
                0 => vec![(0x1002, 0x1003)],                        // extension word of MOVE.W #imm, D0
                1 => vec![(0, 1), (0x2FF0, 0x2FFF)],                // TST.W (A0), and the supervisor stack
                _ => vec![(0, 7)],                                  // the reset vector
            };
            set_regs(core.regs_mut(), &regs);
            set_sr(core.regs_mut(), 0x2700);
            let mut t = Trace::start(&format!("known-{case}-{cpu}"), cpu, case == 2, &core, &mem);
            let v = t.step(&mut core, &mut mem, 'e').vec;
            if v != 0 && !t.dead { t.request(&mut core, v); }
            if !t.dead { t.step(&mut core, &mut mem, 'e'); }
            out.push(t.finish());
        }
    }
    out
}
/// An address error at the entry of an address error: the run loop makes no progress.
pub fn hang(cpu: u8) {
    let mut core = Core::new(cpu, false);
    let mut mem = Mem::new(7);
    let mut regs = [0u32; 18];
    regs[16] = 0x3001;
    regs[17] = 0x1001;
    set_regs(core.regs_mut(), &regs);
    set_sr(core.regs_mut(), 0x2700);
    call(&mut core, &mut mem, 'N', 100);
}

/// Histories of a core and its twin behind the C interface.
pub fn ffi(r: &mut Rng, id: &str, pool: &Pool, cls: &str) -> String {
    let s = profile(cls);
    let cpu = crate::core::cpu(r);
    let reset = r.chance(s.reset, 16);
    let (mut core, mut mem) = seq_start(r, &s, cpu, reset);
    mem.long = true;
    if r.chance(1, 2) { mem.words = None; }
    if r.chance(1, 2) {
        let row = pool.pick(r);
        let mut regs = core.list();
        let sr = core.sr();
        place(r, &row, &mut regs, sr, &mut mem, cpu, s.odd);
        set_regs(core.regs_mut(), &regs);
    }
    if r.chance(s.faults, 16) {
        let (c, m) = (core.clone(), mem.clone());
        refuse(r, &c, &mut mem, &[], m.seed as u32, 0, false);
        if r.chance(1, 2) { let sp = core.regs().ssp.0; let lo = sp.wrapping_sub(2 * r.below(24) as u32); mem.refused.push((lo, lo + 1)); }
        // a refused word right after the code: get_next_word and the like
        if r.chance(1, 4) { let pc = core.regs().pc.0.wrapping_add(2 * r.below(6) as u32); mem.refused.push((pc, pc)); }
    }
    let mut t = Trace::start(id, cpu, reset, &core, &mem);
    t.twin_ffi(&core, &mem, cpu, reset);
    let l = core.list();
    let sr = core.sr();
    t.set(&mut core, &mut mem, &l, sr, r.chance(1, 2));
    let kinds = b"eeeiidddDDDwlpNUNULs";
    for _ in 0..4 + r.below(12) {
        if t.dead { break; }
        if r.chance(s.reqs, 16) { for _ in 0..1 + r.below(3) { let v = r.pick(s.vecs); if crate::ffi::named(v).is_some() { t.request(&mut core, v); } } }
        let kind = kinds[r.below(kinds.len())] as char;
        if kind == 's' {
            let mut l = core.list();
            let (i, v) = (r.below(18), r.u32() & !1);
            if i < 16 { l[i] = v; }
            let sr = core.sr() ^ (1 << r.pick(&[0u16, 1, 2, 3, 4, 8, 9, 10, 13]));
            t.set(&mut core, &mut mem, &l, sr, r.chance(1, 2));
            continue;
        }
        let len = match r.below(8) { 0 => r.below(4), 1 => 100, _ => 2 + r.below(40) };
        let n = match r.below(4) { 0 => r.below(3), 1 => 4 * r.below(10), _ => r.below(200) };
        // (a machine that can make no progress is a known finding of C24)
        if kind == 'N' && !progresses(&core, &mem, n) { continue; }
        let out = t.step_n(&mut core, &mut mem, kind, n, len);
        if out.vec != 0 && !t.dead && r.chance(7, 8) { t.request(&mut core, out.vec); }
    }
    t.finish()
}

/// Histories in which the host handles exceptions itself.
pub fn host(r: &mut Rng, id: &str) -> String {
    let s = Seq { user: 10, ..profile("mixed") };
    let cpu = crate::core::cpu(r);
    let reset = r.chance(1, 4);
    if r.chance(1, 16) {
        // As created
        let mut core = Core::new(cpu, reset);
        let mut mem = Mem::new(r.u64());
        mem.poke_l(4, 0x1000);
        let mut t = Trace::start(id, cpu, reset, &core, &mem);
        t.fresh = true;
        for k in ['e', 'e'] { if !t.dead { if reset { t.step(&mut core, &mut mem, k); } else { t.renew(&mut core, &mut mem); } } }
        return t.finish();
    }
    let (mut core, mut mem) = seq_start(r, &s, cpu, reset);
    if r.chance(1, 4) { let pc = core.regs().pc.0.wrapping_add(2 * r.below(8) as u32); mem.refused.push((pc, pc.wrapping_add(r.below(3) as u32))); }
    if r.chance(1, 16) { let p = r.pick(&[0xFFFF_FFFCu32, 0xFFFF_FFFE, 0x7FFF_FFFE]); core.regs_mut().pc.0 = p; }
    let mut t = Trace::start(id, cpu, reset, &core, &mem);
    for _ in 0..6 + r.below(16) {
        if t.dead { break; }
        match r.below(16) {
            0 => { let v = r.pick(s.vecs); t.request(&mut core, v); },
            1 => { t.step(&mut core, &mut mem, 'w'); },
            2 => { t.step(&mut core, &mut mem, 'l'); },
            3 => { t.step(&mut core, &mut mem, 'p'); },
            4 => t.renew(&mut core, &mut mem),
            5 => { t.step(&mut core, &mut mem, 'i'); },
            6..=9 => {
                let q = r.pick(&["db", "dw", "ra", "wa", "sp", "ws"]);
                let g = if q.ends_with('s') || q == "sp" { 7 } else { r.below(8) as u8 };
                let x = if q.starts_with('w') && r.chance(3, 4) { core.regs().a[0].0.wrapping_add(r.below(64) as u32) } else { value(r) };
                t.helper(&mut core, &mut mem, q, g, x);
            },
            _ => {
                let out = t.step(&mut core, &mut mem, 'e');
                // the vector is for the host: an inline argument, a result, and on with the program
                if out.vec != 0 && !t.dead {
                    if r.chance(1, 2) { let k = r.pick(&['w', 'l', 'p']); t.step(&mut core, &mut mem, k); }
                    if r.chance(1, 2) && !t.dead { let (g, x) = (r.below(8) as u8, value(r)); t.helper(&mut core, &mut mem, r.pick(&["db", "dw"]), g, x); }
                }
            },
        }
    }
    t.finish()
}

fn progresses(core: &Core, mem: &Mem, n: usize) -> bool {
    let (mut c, mut m) = (core.clone(), mem.clone());
    let mut total = 0;
    for _ in 0..n + 8 {
        if total >= n { return true; }
        let o = call(&mut c, &mut m, 'i', 0);
        if !o.panic.is_empty() { return false; }
        total += o.cycles;
        if c.stop() { return true; }
    }
    total >= n
}
