//! The small public values around the core, for spec/Helpers.tla.

use crate::rng::{value, Rng};
use crate::trace::pair;
use m68000::exception::{Exception, Vector};
use m68000::instruction::Size;
use m68000::isa::Isa;
use m68000::memory_access::MemoryAccess;
use m68000::utils::{bit, bits, CarryingOps, IsEven, SliceAs};
use std::cmp::Ordering;
use std::io::Write;
use std::num::Wrapping;

fn list<T: ToString>(l: impl Iterator<Item = T>) -> String { format!("[{}]", l.map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn order(o: Ordering) -> i8 { o as i8 }

macro_rules! vectors { ($($v:ident)*) => { [$((stringify!($v), Vector::$v)),*] } }

/// The sum and the difference by every way of the public trait.
macro_rules! car {
    ($s:ty, $u:ty, $a:expr, $b:expr, $c:expr) => {{
        let (a, b, c) = ($a as $u, $b as $u, $c);
        let (i, j) = (a as $s, b as $s);
        let sa: [($s, bool); 3] = [i.carryingadd(j, c), CarryingOps::<$s, $u>::signed_carrying_add(i, j, c), CarryingOps::<$s, $u>::signed_carrying_add(a, b, c)];
        let ua: [($u, bool); 3] = [a.carryingadd(b, c), CarryingOps::<$s, $u>::unsigned_carrying_add(i, j, c), CarryingOps::<$s, $u>::unsigned_carrying_add(a, b, c)];
        let ss: [($s, bool); 3] = [i.borrowingsub(j, c), CarryingOps::<$s, $u>::signed_borrowing_sub(i, j, c), CarryingOps::<$s, $u>::signed_borrowing_sub(a, b, c)];
        let us: [($u, bool); 3] = [a.borrowingsub(b, c), CarryingOps::<$s, $u>::unsigned_borrowing_sub(i, j, c), CarryingOps::<$s, $u>::unsigned_borrowing_sub(a, b, c)];
        let same = sa.iter().all(|x| *x == sa[0]) && ua.iter().all(|x| *x == ua[0]) && ss.iter().all(|x| *x == ss[0]) && us.iter().all(|x| *x == us[0])
            && sa[0].0 as $u == ua[0].0 && ss[0].0 as $u == us[0].0;
        format!("[[{},{},{}],[{},{},{}],{}]", pair(ua[0].0 as u32), sa[0].1 as u8, ua[0].1 as u8, pair(us[0].0 as u32), ss[0].1 as u8, us[0].1 as u8, same as u8)
    }};
}
fn carries(size: u32, a: u32, c: bool, bs: &[u32]) -> String {
    let l = bs.iter().map(|b| match size {
        1 => car!(i8, u8, a, *b, c),
        2 => car!(i16, u16, a, *b, c),
        _ => car!(i32, u32, a, *b, c),
    });
    format!("[\"car\",{size},{},{},{},{}]", pair(a), c as u8, list(bs.iter().map(|b| pair(*b))), list(l))
}

/// Memory whose words are a function of their address, refused between two addresses.
struct Made { lo: u32, hi: u32 }
impl MemoryAccess for Made {
    fn get_byte(&mut self, _: u32) -> Option<u8> { None }
    fn get_word(&mut self, a: u32) -> Option<u16> { if self.lo <= a && a <= self.hi { None } else { Some((a >> 1) as u16 ^ 23130) } }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { None }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { None }
    fn reset_instruction(&mut self) {}
}

pub fn helpers(r: &mut Rng, n: u64, out: &mut dyn Write) {
    let mut k = 0;
    let mut emit = |rows: Vec<String>| {
        writeln!(out, "{{\"i\":\"helpers-{k}\",\"rows\":[{}]}}", rows.join(",")).unwrap();
        k += 1;
    };
    for b in 0..16u32 {
        emit((0..16).map(|l| {
            let v = (b * 16 + l) as u8;
            let e = Exception::from(v);
            format!("[\"ex\",{v},{},{},{},{}]", e.vector, e.is_interrupt() as u8, list((0..=255u8).map(|w| {
                let f = Exception::from(w);
                let o = order(e.cmp(&f));
                if e.partial_cmp(&f).map(order) == Some(o) && order(f.cmp(&e)) == -o { o } else { 9 }
            })), list((0..=255u8).map(|w| (e == Exception::from(w)) as u8)))
        }).collect());
        emit((0..16).map(|l| {
            let h = b * 16 + l;
            format!("[\"isa\",{h},{}]", list((0..256u32).map(|x| Isa::from((h * 256 + x) as u16).is_privileged() as u8)))
        }).collect());
    }
    let v = vectors!(ResetSspPc AccessError AddressError IllegalInstruction ZeroDivide ChkInstruction TrapVInstruction PrivilegeViolation Trace LineAEmulator
        LineFEmulator FormatError UninitializedInterrupt SpuriousInterrupt Level1Interrupt Level2Interrupt Level3Interrupt Level4Interrupt Level5Interrupt
        Level6Interrupt Level7Interrupt Trap0Instruction Trap1Instruction Trap2Instruction Trap3Instruction Trap4Instruction Trap5Instruction
        Trap6Instruction Trap7Instruction Trap8Instruction Trap9Instruction Trap10Instruction Trap11Instruction Trap12Instruction Trap13Instruction
        Trap14Instruction Trap15Instruction Level1OnChipInterrupt Level2OnChipInterrupt Level3OnChipInterrupt Level4OnChipInterrupt
        Level5OnChipInterrupt Level6OnChipInterrupt Level7OnChipInterrupt UserInterrupt);
    emit(v.iter().map(|(s, v)| format!("[\"vec\",\"{s}\",{},{}]", *v as u8, Exception::from(*v).vector)).collect());
    let bytes: Vec<u32> = (0..256).collect();
    for a in 0..256 { emit([false, true].iter().map(|c| carries(1, a, *c, &bytes)).collect()); }
    for _ in 0..n {
        for size in [2, 4] {
            let m = if size == 2 { 0xFFFF } else { 0xFFFF_FFFF };
            let mut rows = Vec::new();
            for _ in 0..16 {
                let a = value(r) & m;
                let bs: Vec<u32> = (0..64).map(|i| match i { 0 => a, 1 => !a & m, 2 => a.wrapping_neg() & m, 3 => a.wrapping_add(1) & m, 4 => a.wrapping_sub(1) & m, _ => value(r) & m }).collect();
                rows.push(carries(size, a, r.chance(1, 2), &bs));
            }
            emit(rows);
        }
        emit((0..64).map(|_| {
            let v = value(r);
            let e: [(bool, u8); 3] = [
                (v.is_even(), v.even().map_or_else(|e| e, |x| if x == v { 0 } else { 99 })),
                (Wrapping(v).is_even(), Wrapping(v).even().map_or_else(|e| e, |x| if x.0 == v { 0 } else { 99 })),
                ((v as usize).is_even(), (v as usize).even().map_or_else(|e| e, |x| if x == v as usize { 0 } else { 99 })),
            ];
            let one = e.iter().all(|x| *x == e[0]);
            format!("[\"even\",{},{},{}]", pair(v), if one { e[0].0 as u8 } else { 9 }, e[0].1)
        }).collect());
        emit((0..64).map(|_| {
            let (v, b) = (r.u16(), r.below(16) as u16);
            let e = b + r.below(if b == 0 { 15 } else { 16 - b as usize }) as u16;
            format!("[\"bits\",{v},{b},{e},{},{}]", bits(v, b, e), bit(v, b) as u8)
        }).collect());
        emit((0..32).map(|_| {
            let w: Vec<u16> = (0..2 + r.below(3)).map(|_| value(r) as u16).collect();
            let mut s = &w[..];
            let (u, i) = (s.u32_be(), [Size::Byte, Size::Word, Size::Long].map(|z| pair(s.i32_be_sized(z) as u32)));
            let x = s.get_next_word();
            format!("[\"sl\",{},{},[{}],{x},{}]", list(w.iter()), pair(u), i.join(","), list(s.iter()))
        }).collect());
        emit((0..32).map(|_| {
            let a = if r.chance(1, 2) { value(r) } else { value(r) & !1 };
            let lo = if r.chance(1, 2) { a.wrapping_add(r.below(8) as u32) } else { value(r) };
            let hi = lo.saturating_add(r.below(4) as u32);
            let mut m = Made { lo, hi };
            let mut it = m.iter_u16(a);
            let l: Vec<String> = (0..8).map(|_| {
                let w = match it.next() { None => "\"none\"".to_string(), Some(Ok(w)) => w.to_string(), Some(Err(e)) => format!("-{e}") };
                format!("[{w},{}]", pair(it.next_addr))
            }).collect();
            format!("[\"it\",{},{},{},[{}]]", pair(a), pair(lo), pair(hi), l.join(","))
        }).collect());
    }
}

/// What the shipped headers declare (told by the C program).
pub fn headers(out: &mut dyn Write) {
    use m68000::{addressing_modes::*, instruction::*, status_register::StatusRegister, Registers};
    use m68000_ffi::*;
    use std::mem::size_of;
    let mut rows: Vec<String> = crate::client::vectors().iter().map(|(s, v)| format!("[\"vec\",\"{s}\",{v},{v}]")).collect();
    let sizes = [size_of::<Registers>(), size_of::<StatusRegister>(), size_of::<Vector>(), size_of::<Size>(), size_of::<Direction>(), size_of::<BriefExtensionWord>(),
        size_of::<AddressingMode>(), size_of::<Operands>(), size_of::<Instruction>(), size_of::<m68000_callbacks_t>(), size_of::<m68000_memory_result_t>(),
        size_of::<m68000_exception_result_t>(), size_of::<m68000_disassembler_result_t>(), size_of::<m68000_disassembler_exception_result_t>()];
    rows.push(format!("[\"size\",{},{}]", list(sizes.iter()), list(crate::client::sizes().iter())));
    rows.push(format!("[\"sr\",{}]", crate::client::default_sr()));
    writeln!(out, "{{\"i\":\"headers\",\"rows\":[{}]}}", rows.join(",")).unwrap();
}
