//! The memory given to the core: any address is mapped, its default content is a function of the seed, chosen address
//! ranges are refused, and every access is logged.

use crate::rng::{mix, Rng, value};
use m68000::MemoryAccess;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Access { pub write: bool, pub addr: u32, pub n: u8, pub val: u32, pub ok: bool }

#[derive(Clone)]
pub struct Mem {
    pub seed: u64,
    /// Words the default content is drawn from (besides boundary values), if any.
    pub words: Option<std::rc::Rc<Vec<u16>>>,
    pub over: HashMap<u32, u8>,
    pub refused: Vec<(u32, u32)>,
    pub log: Vec<Access>,
    pub resets: u32,
    pub odd: u32,
    pub cap: usize,
    pub capped: bool,
    /// Long accesses reach the memory as such, and not as two word accesses.
    pub long: bool,
    /// The default content is zero.
    pub zero: bool,
    /// At this access the word at the address becomes another one.
    pub flip: Option<(usize, u32, u16)>,
}

impl Mem {
    pub fn new(seed: u64) -> Self {
        Mem { seed, words: None, over: HashMap::new(), refused: Vec::new(), log: Vec::new(), resets: 0, odd: 0, cap: 4000, capped: false, long: false, zero: false, flip: None }
    }

    fn default_word(&self, addr: u32) -> u16 {
        if self.zero { return 0; }
        let mut r = Rng(mix(self.seed ^ (addr >> 1) as u64));
        if addr < 1024 {
            // The vector table: mostly even addresses.
            return if addr & 2 == 0 { (value(&mut r) >> 8) as u16 } else { let w = value(&mut r) as u16; if r.chance(15, 16) { w & !1 } else { w } };
        }
        if let Some(ws) = &self.words {
            if r.chance(7, 8) { return ws[r.below(ws.len())]; }
        }
        let v = value(&mut r);
        if r.chance(1, 4) { (v >> 16) as u16 } else { v as u16 }
    }

    pub fn peek(&self, addr: u32) -> u8 {
        if let Some(b) = self.over.get(&addr) { return *b; }
        let w = self.default_word(addr & !1);
        if addr & 1 == 0 { (w >> 8) as u8 } else { w as u8 }
    }
    pub fn poke(&mut self, addr: u32, b: u8) { self.over.insert(addr, b); }
    pub fn poke_w(&mut self, addr: u32, w: u16) {
        self.poke(addr, (w >> 8) as u8);
        self.poke(addr.wrapping_add(1), w as u8);
    }
    pub fn poke_l(&mut self, addr: u32, l: u32) {
        self.poke_w(addr, (l >> 16) as u16);
        self.poke_w(addr.wrapping_add(2), l as u16);
    }
    fn is_refused(&self, addr: u32) -> bool { self.refused.iter().any(|(lo, hi)| *lo <= addr && addr <= *hi) }
    fn ok(&mut self, addr: u32, n: u32) -> bool {
        if self.log.len() >= self.cap { self.capped = true; return false; }
        (0..n).all(|i| !self.is_refused(addr.wrapping_add(i)))
    }
    pub fn begin(&mut self) { self.log.clear(); self.resets = 0; self.odd = 0; self.capped = false; }

    pub fn read(&mut self, addr: u32, n: u8) -> Option<u32> {
        if n > 1 && addr & 1 != 0 { self.odd += 1; }
        if let Some((k, a, w)) = self.flip { if self.log.len() == k { self.poke_w(a, w); } }
        let ok = self.ok(addr, n as u32);
        let mut v = 0;
        if ok { for i in 0..n as u32 { v = v << 8 | self.peek(addr.wrapping_add(i)) as u32; } }
        self.log.push(Access { write: false, addr, n, val: v, ok });
        if ok { Some(v) } else { None }
    }
    pub fn write(&mut self, addr: u32, n: u8, v: u32) -> Option<()> {
        if n > 1 && addr & 1 != 0 { self.odd += 1; }
        let ok = self.ok(addr, n as u32);
        if ok { for i in 0..n as u32 { self.poke(addr.wrapping_add(i), (v >> (8 * (n as u32 - 1 - i))) as u8); } }
        self.log.push(Access { write: true, addr, n, val: v, ok });
        if ok { Some(()) } else { None }
    }
}

impl MemoryAccess for Mem {
    fn get_byte(&mut self, addr: u32) -> Option<u8> { self.read(addr, 1).map(|v| v as u8) }
    fn get_word(&mut self, addr: u32) -> Option<u16> { self.read(addr, 2).map(|v| v as u16) }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> { self.write(addr, 1, value as u32) }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> { self.write(addr, 2, value as u32) }
    fn get_long(&mut self, addr: u32) -> Option<u32> {
        if self.long { self.read(addr, 4) } else { Words(self).get_long(addr) }
    }
    fn set_long(&mut self, addr: u32, value: u32) -> Option<()> {
        if self.long { self.write(addr, 4, value) } else { Words(self).set_long(addr, value) }
    }
    fn reset_instruction(&mut self) { self.resets += 1; }
}

/// The same memory with the long accesses the trait provides.
struct Words<'a>(&'a mut Mem);
impl MemoryAccess for Words<'_> {
    fn get_byte(&mut self, addr: u32) -> Option<u8> { self.0.get_byte(addr) }
    fn get_word(&mut self, addr: u32) -> Option<u16> { self.0.get_word(addr) }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> { self.0.set_byte(addr, value) }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> { self.0.set_word(addr, value) }
    fn reset_instruction(&mut self) { self.0.resets += 1; }
}
