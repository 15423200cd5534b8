//! The core behind its C interface.

use crate::core::{set_regs, set_sr, sr_word, regs_list, Core};
use crate::mem::Mem;
use crate::trace::Out;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::Vector;
use m68000::{Registers, M68000};
use m68000_ffi::*;
use m68000_ffi::{mc68000 as fa, scc68070 as fb};
use std::ffi::c_void;

/// A core behind the C functions, called directly or by a C program (src/client.rs).
pub enum Ffi { A(*mut M68000<Mc68000>), B(*mut M68000<Scc68070>), C(crate::client::Core) }

fn mem<'a>(p: *mut c_void) -> &'a mut Mem { unsafe { &mut *(p as *mut Mem) } }
// The unused bits of a result are not zero.
fn res(v: Option<u32>, unused: u32) -> m68000_memory_result_t {
    match v {
        Some(v) => m68000_memory_result_t { data: v | unused, exception: 0 },
        None => m68000_memory_result_t { data: 0x5A5A_5A5A, exception: 2 },
    }
}
fn ok(v: Option<()>) -> m68000_memory_result_t {
    match v { Some(_) => m68000_memory_result_t { data: 0xA5A5_A5A5, exception: 0 }, None => m68000_memory_result_t { data: 0, exception: 2 } }
}
extern "C" fn get_byte(a: u32, u: *mut c_void) -> m68000_memory_result_t { res(mem(u).read(a, 1), 0xA5A5_A500) }
extern "C" fn get_word(a: u32, u: *mut c_void) -> m68000_memory_result_t { res(mem(u).read(a, 2), 0xA5A5_0000) }
extern "C" fn get_long(a: u32, u: *mut c_void) -> m68000_memory_result_t { res(mem(u).read(a, 4), 0) }
extern "C" fn set_byte(a: u32, d: u8, u: *mut c_void) -> m68000_memory_result_t { ok(mem(u).write(a, 1, d as u32)) }
extern "C" fn set_word(a: u32, d: u16, u: *mut c_void) -> m68000_memory_result_t { ok(mem(u).write(a, 2, d as u32)) }
extern "C" fn set_long(a: u32, d: u32, u: *mut c_void) -> m68000_memory_result_t { ok(mem(u).write(a, 4, d)) }
extern "C" fn reset(u: *mut c_void) { mem(u).resets += 1; }

/// The vectors the C enumeration names.
pub fn named(v: u8) -> Option<Vector> {
    match v {
        0 | 2..=11 | 14 | 15 | 24..=47 | 57..=64 => Some(unsafe { std::mem::transmute::<i32, Vector>(v as i32) }),
        _ => None,
    }
}
const _: () = assert!(std::mem::size_of::<Vector>() == 4);

macro_rules! each { ($s:expr, $p:ident, $a:expr, $b:expr) => { match $s { Ffi::A($p) => $a, Ffi::B($p) => $b, Ffi::C(_) => unreachable!() } } }

const FILL: u8 = 0xAA;

impl Ffi {
    pub fn new(cpu: u8, reset: bool, like: &Core) -> Ffi {
        let f = if crate::client::loaded() { Ffi::C(crate::client::Core::new(cpu, reset)) } else { match (cpu, reset) {
            (0, false) => Ffi::A(fa::m68000_mc68000_new_no_reset()),
            (0, true) => Ffi::A(fa::m68000_mc68000_new()),
            (_, false) => Ffi::B(fb::m68000_scc68070_new_no_reset()),
            (_, true) => Ffi::B(fb::m68000_scc68070_new()),
        } };
        let mut f = f;
        f.set(&like.list(), like.sr(), like.regs().d[0].0 & 1 == 0);
        f
    }
    /// Sets the registers, as a whole or through the mutable pointer.
    pub fn set(&mut self, l: &[u32; 18], sr: u16, whole: bool) {
        if let Ffi::C(c) = self { return c.set(l, sr, whole); }
        if whole {
            let mut r: Registers = self.get();
            set_regs(&mut r, l);
            set_sr(&mut r, sr);
            unsafe { each!(self, p, fa::m68000_mc68000_set_registers(*p, r), fb::m68000_scc68070_set_registers(*p, r)) }
        } else {
            let r = unsafe { each!(self, p, &mut *fa::m68000_mc68000_registers_mut(*p), &mut *fb::m68000_scc68070_registers_mut(*p)) };
            set_regs(r, l);
            set_sr(r, sr);
        }
    }
    fn get(&self) -> Registers {
        unsafe { each!(self, p, fa::m68000_mc68000_get_registers(*p), fb::m68000_scc68070_get_registers(*p)) }
    }
    pub fn regs(&self) -> ([u32; 18], u16) {
        if let Ffi::C(c) = self { return c.regs(0); }
        let r = self.get();
        (regs_list(&r), sr_word(&r))
    }
    /// Whether the core is stopped; a C program cannot tell.
    pub fn stop(&self) -> Option<bool> {
        if let Ffi::C(_) = self { return None; }
        Some(unsafe { each!(self, p, (**p).stop, (**p).stop) })
    }
    /// The register views (copy, constant and mutable pointers) agree.
    pub fn views_agree(&self) -> bool {
        if let Ffi::C(c) = self { return (1..3).all(|i| c.regs(i) == c.regs(0)); }
        let r = self.get();
        let (c, m) = unsafe { each!(self, p,
            (*fa::m68000_mc68000_registers(*p), *fa::m68000_mc68000_registers_mut(*p)),
            (*fb::m68000_scc68070_registers(*p), *fb::m68000_scc68070_registers_mut(*p))) };
        [c, m].iter().all(|x| regs_list(x) == regs_list(&r) && sr_word(x) == sr_word(&r))
    }
    pub fn exception(&mut self, v: u8) {
        if let Ffi::C(c) = self { return c.exception(v); }
        let v = named(v).expect("vector of the C enumeration");
        unsafe { each!(self, p, fa::m68000_mc68000_exception(*p, v), fb::m68000_scc68070_exception(*p, v)) }
    }
    pub fn call(&mut self, m: &mut Mem, kind: char, n: usize, len: usize) -> (Out, Vec<u8>) {
        m.begin();
        let mut cb = m68000_callbacks_t { get_byte, get_word, get_long, set_byte, set_word, set_long, reset_instruction: reset, user_data: m as *mut Mem as *mut c_void };
        let cb = &mut cb as *mut m68000_callbacks_t;
        let mut buf = vec![FILL; len + 8];
        let s = buf.as_mut_ptr() as *mut std::ffi::c_char;
        if let Ffi::C(c) = self { return (c.call(m, kind, n, s, len), buf); }
        let exc = |r: m68000_exception_result_t| Out { cycles: r.cycles, vec: r.exception, ..Default::default() };
        let val = |r: m68000_memory_result_t| Out { val: r.data, vec: r.exception, ..Default::default() };
        let out = unsafe { match kind {
            'e' => exc(each!(self, p, fa::m68000_mc68000_interpreter_exception(*p, cb), fb::m68000_scc68070_interpreter_exception(*p, cb))),
            'i' => Out { cycles: each!(self, p, fa::m68000_mc68000_interpreter(*p, cb), fb::m68000_scc68070_interpreter(*p, cb)), ..Default::default() },
            'D' => {
                let r = each!(self, p, fa::m68000_mc68000_disassembler_interpreter_exception(*p, cb, s, len), fb::m68000_scc68070_disassembler_interpreter_exception(*p, cb, s, len));
                Out { cycles: r.cycles, vec: r.exception, addr: r.pc, ..Default::default() }
            },
            'd' => {
                let r = each!(self, p, fa::m68000_mc68000_disassembler_interpreter(*p, cb, s, len), fb::m68000_scc68070_disassembler_interpreter(*p, cb, s, len));
                Out { cycles: r.cycles, addr: r.pc, ..Default::default() }
            },
            'w' => val(each!(self, p, fa::m68000_mc68000_get_next_word(*p, cb), fb::m68000_scc68070_get_next_word(*p, cb))),
            'l' => val(each!(self, p, fa::m68000_mc68000_get_next_long(*p, cb), fb::m68000_scc68070_get_next_long(*p, cb))),
            'p' => val(each!(self, p, fa::m68000_mc68000_peek_next_word(*p, cb), fb::m68000_scc68070_peek_next_word(*p, cb))),
            'N' => Out { cycles: each!(self, p, fa::m68000_mc68000_cycle(*p, cb, n), fb::m68000_scc68070_cycle(*p, cb, n)), ..Default::default() },
            'U' => exc(each!(self, p, fa::m68000_mc68000_cycle_until_exception(*p, cb, n), fb::m68000_scc68070_cycle_until_exception(*p, cb, n))),
            'L' => exc(each!(self, p, fa::m68000_mc68000_loop_until_exception_stop(*p, cb), fb::m68000_scc68070_loop_until_exception_stop(*p, cb))),
            _ => unreachable!(),
        } };
        (out, buf)
    }
}

impl Drop for Ffi {
    fn drop(&mut self) {
        if let Ffi::C(_) = self { return; }
        unsafe { each!(self, p, fa::m68000_mc68000_delete(*p), fb::m68000_scc68070_delete(*p)) }
    }
}
