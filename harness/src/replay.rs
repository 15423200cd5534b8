//! Replays paths of the closed models (spec/MC.tla) into the real core.
//!
//! A path is a line: CPU model, refused bytes, status register, then the transitions: x<vector> a request, and
//! s<address>:<word>.<word> a step that executes the instruction made of the words, put at the address.

use crate::core::{set_regs, set_sr, Core};
use crate::mem::Mem;
use crate::rng::Rng;
use crate::trace::Trace;

fn num(s: &str) -> u32 { s.parse().unwrap() }

/// How the path is run: i queueing interpreter, e interpreter and a request of what it returns, d the same beside the
/// disassembling interpreter, f the same through the C interface.
pub fn replay(r: &mut Rng, id: &str, line: &str, how: &str) -> String {
    let w: Vec<&str> = line.split(' ').collect();
    let cpu = num(w[0]) as u8;
    let mut mem = Mem::new(0);
    mem.zero = true;
    mem.long = how == "f";
    for v in 0..256 { mem.poke_l(v * 4, if v == 0 { 12288 } else { 16384 + 64 * v }); }
    for b in w[1].split(',').filter(|b| *b != "-") { mem.refused.push((num(b), num(b))); }
    let mut core = Core::start(r, cpu);
    let mut l = [0; 18];
    l[15] = 10240;
    l[16] = 12288;
    l[17] = 4096;
    set_regs(core.regs_mut(), &l);
    set_sr(core.regs_mut(), num(w[2]) as u16);
    let mut t = Trace::start(id, cpu, false, &core, &mem);
    match how { "d" => t.twin_dis(&core, &mem), "f" => t.twin_ffi(&core, &mem, cpu, false), _ => () }
    for act in &w[3..] {
        if t.dead { break; }
        if let Some(v) = act.strip_prefix('x') { t.request(&mut core, num(v) as u8); continue; }
        let (at, code) = act[1..].split_once(':').unwrap();
        let at = num(at);
        let code: Vec<u16> = code.split('.').map(|x| num(x) as u16).collect();
        let n = 2 * code.len() as u32;
        let old: Vec<u8> = (0..n).map(|i| mem.peek(at + i)).collect();
        each(&mut t, &mut mem, &mut |m| for (i, x) in code.iter().enumerate() { m.poke_w(at + 2 * i as u32, *x); });
        let kind = match how { "i" => 'i', "e" => 'e', "d" => r.pick(&['i', 'e']), _ => r.pick(&['i', 'e', 'D', 'd']) };
        let out = t.step_n(&mut core, &mut mem, kind, 0, 40);
        if out.vec != 0 && !t.dead { t.request(&mut core, out.vec); }
        let written: Vec<u32> = mem.log.iter().filter(|a| a.write && a.ok).flat_map(|a| (0..a.n as u32).map(move |i| a.addr.wrapping_add(i))).collect();
        each(&mut t, &mut mem, &mut |m| for i in 0..n { if !written.contains(&(at + i)) { m.poke(at + i, old[i as usize]); } });
    }
    t.finish()
}

fn each(t: &mut Trace, mem: &mut Mem, f: &mut dyn FnMut(&mut Mem)) {
    f(mem);
    if let Some(m) = t.twin_mem() { f(m); }
}
