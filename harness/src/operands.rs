//! What the public decoder says of instructions, addressing modes, sizes and index words, for spec/Operands.tla.

use crate::asm::{am, DIRS, SIZES};
use crate::mem::Mem;
use crate::rng::Rng;
use crate::trace::{esc, guarded, pair};
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::instruction::{self as ins, Direction, Instruction, Operands as Op, Size};
use m68000::isa::{Isa, IsaEntry};
use m68000::memory_access::{MemoryAccess, MemoryIter};
use std::io::Write;

/// A value as the specification writes it
trait E { fn e(&self) -> String; }
impl E for u8 { fn e(&self) -> String { self.to_string() } }
impl E for i8 { fn e(&self) -> String { (*self as u8).to_string() } }
impl E for u16 { fn e(&self) -> String { self.to_string() } }
impl E for i16 { fn e(&self) -> String { (*self as u16).to_string() } }
impl E for u32 { fn e(&self) -> String { pair(*self) } }
impl E for bool { fn e(&self) -> String { (*self as u8).to_string() } }
impl E for Size { fn e(&self) -> String { SIZES.iter().find(|(s, _)| s == self).map(|(_, n)| n.to_string()).unwrap() } }
impl E for Direction { fn e(&self) -> String { DIRS.iter().find(|(d, _)| d == self).map(|(_, n)| format!("\"{n}\"")).unwrap() } }
impl E for Am {
    fn e(&self) -> String {
        match *self {
            Am::Drd(r) => format!("[0,{r}]"),
            Am::Ard(r) => format!("[1,{r}]"),
            Am::Ari(r) => format!("[2,{r}]"),
            Am::Ariwpo(r) => format!("[3,{r}]"),
            Am::Ariwpr(r) => format!("[4,{r}]"),
            Am::Ariwd(r, d) => format!("[5,{r},{}]", d as u16),
            Am::Ariwi8(r, b) => format!("[6,{r},{}]", b.0),
            Am::AbsShort(a) => format!("[7,0,{a}]"),
            Am::AbsLong(a) => format!("[7,1,{},{}]", a >> 16, a & 0xFFFF),
            Am::Pciwd(p, d) => format!("[7,2,{},{},{}]", d as u16, p >> 16, p & 0xFFFF),
            Am::Pciwi8(p, b) => format!("[7,3,{},{},{}]", b.0, p >> 16, p & 0xFFFF),
            Am::Immediate(i) => format!("[7,4,{},{}]", i >> 16, i & 0xFFFF),
        }
    }
}
/// The operands in a row
trait L { fn l(&self) -> String; }
macro_rules! single { ($($t:ty)*) => { $(impl L for $t { fn l(&self) -> String { format!(",{}", self.e()) } })* } }
single!(u8 u16 i16 Am);
macro_rules! tuple { ($($t:ident $n:tt),*) => { impl<$($t: E),*> L for ($($t,)*) { fn l(&self) -> String { let mut s = String::new(); $(s += ","; s += &self.$n.e();)* s } } } }
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, F 4);

/// Every public way to tell the operands: the variant, its accessor, its constructor and the free function.
macro_rules! ways {
    ($op:expr, $w:expr, $it:expr; $($v:ident ($($f:ident)*) $acc:ident $new:ident ($($free:tt)*);)*) => {
        match $w {
            Op::NoOperands => vec!["[\"NoOperands\"]".to_string()],
            $(Op::$v($($f),*) => {
                let name = concat!("[\"", stringify!($v), "\"");
                let new = { let it = &mut $it(); Op::$new($op, it) };
                let free = { #[allow(unused)] let (op, mut it) = ($op, $it()); ways!(@ op it $acc $($free)*) };
                vec![format!("{name}{}]", ($($f,)*).l()), format!("{name}{}]", $w.$acc().l()), match new { Op::$v($($f),*) => format!("{name}{}]", ($($f,)*).l()), _ => "[]".into() },
                    format!("{name}{}]", free.l())]
            },)*
        }
    };
    (@ $o:ident $i:ident $acc:ident op) => { ins::$acc($o) };
    (@ $o:ident $i:ident $acc:ident mem) => { ins::$acc(&mut $i) };
    (@ $o:ident $i:ident $acc:ident op mem) => { ins::$acc($o, &mut $i) };
}
fn told(op: u16, w: Op, mem: &Mem, at: u32) -> Vec<String> {
    let mut copies: Vec<Mem> = (0..2).map(|_| mem.clone()).collect();
    let mut next = copies.iter_mut();
    let mut it = || -> MemoryIter<'_, Mem> { next.next().unwrap().iter_u16(at) };
    ways!(op, w, it;
        Immediate(a) immediate new_immediate (mem);
        SizeEffectiveAddressImmediate(a b c) size_effective_address_immediate new_size_effective_address_immediate (op mem);
        EffectiveAddressCount(a b) effective_address_count new_effective_address_count (op mem);
        EffectiveAddress(a) effective_address new_effective_address (op mem);
        SizeEffectiveAddress(a b) size_effective_address new_size_effective_address (op mem);
        RegisterEffectiveAddress(a b) register_effective_address new_register_effective_address (op mem);
        RegisterDirectionSizeRegisterDisplacement(a b c d e) register_direction_size_register_displacement new_register_direction_size_register_displacement (op mem);
        SizeRegisterEffectiveAddress(a b c) size_register_effective_address new_size_register_effective_address (op mem);
        SizeEffectiveAddressEffectiveAddress(a b c) size_effective_address_effective_address new_size_effective_address_effective_address (op mem);
        RegisterOpmodeRegister(a b c) register_opmode_register new_register_opmode_register (op);
        OpmodeRegister(a b) opmode_register new_opmode_register (op);
        Vector(a) vector new_vector (op);
        RegisterDisplacement(a b) register_displacement new_register_displacement (op mem);
        Register(a) register new_register (op);
        DirectionRegister(a b) direction_register new_direction_register (op);
        DirectionSizeEffectiveAddressList(a b c d) direction_size_effective_address_list new_direction_size_effective_address_list (op mem);
        DataSizeEffectiveAddress(a b c) data_size_effective_address new_data_size_effective_address (op mem);
        ConditionEffectiveAddress(a b) condition_effective_address new_condition_effective_address (op mem);
        ConditionRegisterDisplacement(a b c) condition_register_displacement new_condition_register_displacement (op mem);
        Displacement(a) displacement new_displacement (op mem);
        ConditionDisplacement(a b) condition_displacement new_condition_displacement (op mem);
        RegisterData(a b) register_data new_register_data (op);
        RegisterDirectionSizeEffectiveAddress(a b c d) register_direction_size_effective_address new_register_direction_size_effective_address (op mem);
        RegisterSizeEffectiveAddress(a b c) register_size_effective_address new_register_size_effective_address (op mem);
        RegisterSizeModeRegister(a b c d) register_size_mode_register new_register_size_mode_register (op);
        RegisterSizeRegister(a b c) register_size_register new_register_size_register (op);
        DirectionEffectiveAddress(a b) direction_effective_address new_direction_effective_address (op mem);
        RotationDirectionSizeModeRegister(a b c d e) rotation_direction_size_mode_register new_rotation_direction_size_mode_register (op);
    )
}

fn word(r: &mut Rng) -> u16 { [0, 1, 2, 7, 8, 0x1F, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF80, 0xFFFE, 0xFFFF, r.u32() as u16, r.u32() as u16, r.u32() as u16][r.below(18)] }
fn list(w: &[u16]) -> String { format!("[{}]", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn address(r: &mut Rng) -> u32 { [0, 0x1000, 0xFFFA, 0xFFFF_FFF8, 0xFFFF_FFFC, 0x7FFF_FFFE, r.u32() & !1, r.u32() & !1][r.below(8)] }

fn instruction(r: &mut Rng, op: u16) -> String {
    let at = address(r);
    let words: Vec<u16> = (0..5).map(|_| word(r)).collect();
    let mut mem = Mem::new(1);
    mem.poke_w(at, op);
    for (i, w) in words.iter().enumerate() { mem.poke_w(at.wrapping_add(2 + 2 * i as u32), *w); }
    let ext = at.wrapping_add(2);
    let r = guarded(|| {
        let mut a = mem.clone();
        let (i, after) = { let mut it = a.iter_u16(at); let i = Instruction::from_memory(&mut it).unwrap(); (i, it.next_addr) };
        let mut b = mem.clone();
        let (j, after2) = { let mut it = b.iter_u16(ext); let j = Instruction::from_opcode(op, at, &mut it); (j, it.next_addr) };
        let mut c = mem.clone();
        let k = (IsaEntry::<Mem>::ISA_ENTRY[Isa::from(op) as usize].decode)(op, &mut c.iter_u16(ext));
        let mut d = told(op, i.operands, &mem, ext);
        d.extend(told(op, j.operands, &mem, ext));
        d.extend(told(op, k, &mem, ext));
        if i != j || after != after2 { d.push("[]".into()); }
        // what a C program reads there
        if crate::client::loaded() {
            let (o, pc, t) = crate::client::instruction(&i);
            d.push(if o == i.opcode && pc == i.pc { t } else { "[]".into() });
        }
        d.sort();
        d.dedup();
        format!("{},{},{},[{}]", i.opcode, pair(i.pc), pair(after), d.join(","))
    });
    format!("[\"ins\",{op},{},{},{}]", list(&words), pair(at), r.unwrap_or("-1,[0,0],[0,0],[]".into()))
}

fn half(x: Result<(u16, Box<[u16]>), String>) -> String { match x { Ok((f, w)) => format!("[{f},{}]", list(&w)), Err(_) => "[]".into() } }
fn mode(r: &mut Rng, m: u16, n: u8, size: Size) -> String {
    let at = address(r);
    let words: Vec<u16> = (0..2).map(|_| word(r)).collect();
    let mut mem = Mem::new(1);
    for (i, w) in words.iter().enumerate() { mem.poke_w(at.wrapping_add(2 * i as u32), *w); }
    let head = format!("[\"am\",{m},{n},{},{},{}", size.e(), list(&words), pair(at));
    let (a, after) = match guarded(|| { let mut it = mem.iter_u16(at); let a = Am::from_memory(m, n, Some(size), &mut it); (a, it.next_addr) }) {
        Ok(x) => x,
        Err(_) => return format!("{head},[],[0,0],[],[],0,[],[],[]]"),
    };
    let reg = a.register().map(|x| x as i32).unwrap_or(-1);
    let is = [a.is_drd(), a.is_ard(), a.is_dard(), a.is_ariwpo(), a.is_ariwpr(), a.is_immediate()].map(|b| (b as u8).to_string()).join(",");
    let texts = [format!("{a}"), format!("{a:x}"), format!("{a:X}")].map(|s| esc(&s)).join(",");
    let mut ver = Vec::new();
    for _ in 0..4 {
        let pick = |r: &mut Rng, top: usize| -> Vec<u8> { (0..top as u8).filter(|_| r.chance(1, 2)).collect() };
        let (ms, rs) = (pick(r, 8), pick(r, 5));
        // the register of a mode made by hand may be none
        let g = if r.chance(1, 2) { n } else { r.pick(&[0u8, 7, 8, 9, 16, 255]) };
        let b = if m < 7 { am(r, m as u8, g).0 } else { a };
        let l = |v: &[u8]| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        ver.push(format!("[{},{},{g},{}]", l(&ms), l(&rs), b.verify(&ms, &rs) as u8));
    }
    format!("{head},{},{},{},{},{reg},[{is}],[{texts}],[{}]]", a.e(), pair(after), half(guarded(|| a.assemble(size == Size::Long))), half(guarded(|| a.assemble_move_dst())), ver.join(","))
}

pub fn operands(r: &mut Rng, n: u64, out: &mut dyn Write) {
    let mut rows: Vec<String> = Vec::new();
    for _ in 0..n {
        for op in 0..=0xFFFFu16 { rows.push(instruction(r, op)); }
        if crate::client::loaded() { continue; }
        for _ in 0..8 {
            for m in 0..8u16 { for x in 0..if m == 7 { 5 } else { 8 } { for (s, _) in SIZES { rows.push(mode(r, m, x, s)); } } }
        }
    }
    if !crate::client::loaded() { values(&mut rows); }
    for (i, c) in rows.chunks(400).enumerate() { writeln!(out, "{{\"i\":\"operands-{i}\",\"rows\":[{}]}}", c.join(",")).unwrap(); }
}

/// Index words, sizes and directions
fn values(rows: &mut Vec<String>) {
    for a in [false, true] { for l in [false, true] { for g in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 255] { for d in 0..=255u8 {
        let b = guarded(|| { let b = Bew::new(a, g, l, d as i8); (b.0, b.disp() as u8, format!("{b}")) });
        rows.push(match b {
            Ok((w, disp, t)) => format!("[\"bew\",{},{g},{},{d},{w},{disp},{}]", a.e(), l.e(), esc(&t)),
            Err(_) => format!("[\"bew\",{},{g},{},{d},-1,0,\"\"]", a.e(), l.e()),
        });
    } } } }
    for (s, _) in SIZES {
        let or = |f: &dyn Fn() -> Size| guarded(|| f()).map(|s| s.e()).unwrap_or("-1".into());
        rows.push(format!("[\"sz\",{},[{},{},{},{},{},{},{},{},{},[{},{}],[{}],[{}]]]", s.e(), guarded(|| s.into_bit() as i32).unwrap_or(-1), s.into_move(), u16::from(s), s.as_word_long().e(),
            s.is_byte() as u8, s.is_word() as u8, s.is_long() as u8, s as u32, esc(&format!("{s}")), Size::from_bit(false).e(), Size::from_bit(true).e(),
            [1, 2, 3, 0, 4].map(|d| or(&|| Size::from_move(d))).join(","), [0, 1, 2, 3].map(|d: u16| or(&|| Size::from(d))).join(",")));
    }
    for (d, n) in DIRS { rows.push(format!("[\"dir\",\"{n}\",{}]", esc(&format!("{d}")))); }
}
