//! The core under test, for either CPU model.

use m68000::{M68000, Registers};
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::Exception;
use crate::details::{Fifth, Fourth, Sixth, Third};
use crate::mem::Mem;
use crate::rng::Rng;

#[derive(Clone)]
pub enum Core { A(M68000<Mc68000>), B(M68000<Scc68070>), C(M68000<Third>), D(M68000<Fourth>), E(M68000<Fifth>), F(M68000<Sixth>) }

/// Added to the CPU models chosen by the generators.
pub static MODELS: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub fn cpu(r: &mut Rng) -> u8 { r.below(2) as u8 + MODELS.load(std::sync::atomic::Ordering::Relaxed) }

macro_rules! both { ($s:expr, $c:ident => $e:expr) => { match $s { Core::A($c) => $e, Core::B($c) => $e, Core::C($c) => $e, Core::D($c) => $e, Core::E($c) => $e, Core::F($c) => $e } } }

/// The 18 registers in the order of the specification: D0-D7, A0-A6, USP, SSP, PC.
pub fn regs_list(r: &Registers) -> [u32; 18] {
    let mut v = [0; 18];
    for i in 0..8 { v[i] = r.d[i].0; }
    for i in 0..7 { v[8 + i] = r.a[i].0; }
    v[15] = r.usp.0;
    v[16] = r.ssp.0;
    v[17] = r.pc.0;
    v
}

/// The status register word, made from its fields and not through the code under test.
pub fn sr_word(r: &Registers) -> u16 {
    let s = &r.sr;
    (s.t as u16) << 15 | (s.s as u16) << 13 | (s.interrupt_mask as u16) << 8
        | (s.x as u16) << 4 | (s.n as u16) << 3 | (s.z as u16) << 2 | (s.v as u16) << 1 | s.c as u16
}
pub fn set_sr(r: &mut Registers, w: u16) {
    let b = |n: u16| w >> n & 1 != 0;
    r.sr.t = b(15);
    r.sr.s = b(13);
    r.sr.interrupt_mask = (w >> 8 & 7) as u8;
    r.sr.x = b(4);
    r.sr.n = b(3);
    r.sr.z = b(2);
    r.sr.v = b(1);
    r.sr.c = b(0);
}
pub fn set_regs(r: &mut Registers, v: &[u32; 18]) {
    for i in 0..8 { r.d[i].0 = v[i]; }
    for i in 0..7 { r.a[i].0 = v[8 + i]; }
    r.usp.0 = v[15];
    r.ssp.0 = v[16];
    r.pc.0 = v[17];
}

impl Core {
    pub fn new(cpu: u8, reset: bool) -> Core {
        match (cpu, reset) {
            (0, false) => Core::A(M68000::new_no_reset()),
            (0, true) => Core::A(M68000::new()),
            (1, false) => Core::B(M68000::new_no_reset()),
            (1, true) => Core::B(M68000::new()),
            (2, false) => Core::C(M68000::new_no_reset()),
            (2, true) => Core::C(M68000::new()),
            (3, false) => Core::D(M68000::new_no_reset()),
            (3, true) => Core::D(M68000::new()),
            (4, false) => Core::E(M68000::new_no_reset()),
            (4, true) => Core::E(M68000::new()),
            (_, false) => Core::F(M68000::new_no_reset()),
            (_, true) => Core::F(M68000::new()),
        }
    }
    /// A core without reset: a new one, or one that has lived and is now like a new one, which no history must tell apart.
    pub fn start(r: &mut Rng, cpu: u8) -> Core { if r.chance(3, 8) { aged(r, cpu) } else { Core::new(cpu, false) } }
    pub fn regs(&self) -> &Registers { both!(self, c => &c.regs) }
    pub fn regs_mut(&mut self) -> &mut Registers { both!(self, c => &mut c.regs) }
    pub fn list(&self) -> [u32; 18] { regs_list(self.regs()) }
    pub fn sr(&self) -> u16 { sr_word(self.regs()) }
    pub fn stop(&self) -> bool { both!(self, c => c.stop) }
    pub fn set_stop(&mut self, s: bool) { both!(self, c => c.stop = s) }
    pub fn exception(&mut self, v: u8) { both!(self, c => c.exception(Exception::from(v))) }

    pub fn interpreter(&mut self, m: &mut Mem) -> usize { both!(self, c => c.interpreter(m)) }
    pub fn interpreter_exception(&mut self, m: &mut Mem) -> (usize, Option<u8>) { both!(self, c => c.interpreter_exception(m)) }
    pub fn disassembler_interpreter(&mut self, m: &mut Mem) -> (u32, String, usize) { both!(self, c => c.disassembler_interpreter(m)) }
    pub fn disassembler_interpreter_exception(&mut self, m: &mut Mem) -> (u32, String, usize, Option<u8>) {
        both!(self, c => c.disassembler_interpreter_exception(m))
    }
    pub fn cycle(&mut self, m: &mut Mem, n: usize) -> usize { both!(self, c => c.cycle(m, n)) }
    pub fn cycle_until_exception(&mut self, m: &mut Mem, n: usize) -> (usize, Option<u8>) { both!(self, c => c.cycle_until_exception(m, n)) }
    pub fn loop_until_exception_stop(&mut self, m: &mut Mem) -> (usize, Option<u8>) { both!(self, c => c.loop_until_exception_stop(m)) }
    pub fn get_next_word(&mut self, m: &mut Mem) -> Result<u16, u8> { both!(self, c => c.get_next_word(m)) }
    pub fn get_next_long(&mut self, m: &mut Mem) -> Result<u32, u8> { both!(self, c => c.get_next_long(m)) }
    pub fn peek_next_word(&self, m: &mut Mem) -> Result<u16, u8> { both!(self, c => c.peek_next_word(m)) }
}

thread_local! { static LIVED: std::cell::RefCell<std::collections::HashMap<(u8, usize), Core>> = Default::default(); }

/// A core that has executed programs, requests and failures for some time.  A reset then discards what is pending, and
/// the last word it executes is the line F word FFFF, which a new core has as its current opcode.
fn aged(r: &mut Rng, cpu: u8) -> Core {
    let age = r.pick(&[40, 40, 700, 700, 700, 9000, 9000, 70_000]);
    if let Some(c) = LIVED.with(|l| l.borrow().get(&(cpu, age)).cloned()) { return c; }
    crate::trace::BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut core = Core::new(cpu, false);
    let mut mem = Mem::new(age as u64);
    mem.words = Some(std::rc::Rc::new(crate::gen::FLOW.to_vec()));
    for v in 0..256u32 { mem.poke_l(v * 4, 0x2000 + 0x20 * v); }
    mem.refused.push((0x30_0000, 0x3F_FFFF));
    let mut calm = Mem::new(0);
    calm.zero = true;
    calm.poke_l(0, 0x8000);
    calm.poke_l(4, 0x1000);
    for i in 0..8 { calm.poke_w(0x1000 + 2 * i, [0x4E71, 0x7001, 0x5280, 0x4E71, 0x3000, 0x4840, 0x4E71, 0x60F0][i as usize]); }
    for i in 0..age {
        if i % 32 == 0 {
            let mut l = crate::gen::rand_regs(r, 0);
            for x in l.iter_mut().skip(8).take(9) { *x = 0x8000 + 2 * r.below(0x1000) as u32; }
            if r.chance(1, 4) { l[8] = 0x30_0000; }
            l[17] = 0x1000 + 2 * r.below(0x1000) as u32;
            set_regs(core.regs_mut(), &l);
            set_sr(core.regs_mut(), r.u16() & 0x271F);
            core.set_stop(false);
            mem.over.retain(|a, _| *a < 0x400);
            if r.chance(1, 4) {
                // the loops, over a calm program from a reset
                core.exception(0);
                for _ in 0..r.below(64) { crate::trace::call(&mut core, &mut calm, r.pick(&['N', 'U']), r.below(60)); }
            }
        }
        if r.chance(1, 24) { core.exception(r.pick(&crate::gen::VECS)); }
        let out = crate::trace::call(&mut core, &mut mem, r.pick(&['e', 'e', 'e', 'e', 'i', 'i', 'D', 'd', 'w', 'l', 'p']), 0);
        if !out.panic.is_empty() { core = Core::new(cpu, false); }
        if out.vec != 0 && r.chance(7, 8) { core.exception(out.vec); }
    }
    mem.poke_l(0, 0x8000);
    mem.poke_l(4, 0x1000);
    mem.poke_w(0x1000, 0xFFFF);
    core.set_stop(false);
    core.exception(0);
    let _ = crate::trace::guarded(|| core.interpreter_exception(&mut mem));
    set_regs(core.regs_mut(), &[0; 18]);
    set_sr(core.regs_mut(), 0x2700);
    LIVED.with(|l| l.borrow_mut().insert((cpu, age), core.clone()));
    core
}
