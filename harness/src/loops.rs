//! Run loops beside single steps, for spec/Loops.tla.

use crate::core::Core;
use crate::gen::{profile, refuse, seq_start};
use crate::mem::Mem;
use crate::rng::Rng;
use crate::trace::{call, esc, pair, runs, summary, Out, BUSY, CURRENT};

fn state(core: &Core) -> String {
    let r: Vec<String> = core.list().iter().map(|v| pair(*v)).collect();
    format!("\"r\":[{}],\"sr\":{},\"st\":{}", r.join(","), core.sr(), core.stop() as u8)
}
fn record(core: &Core, mem: &Mem, o: &Out) -> String {
    let s = summary(&mem.log);
    format!("\"v\":{},\"c\":{},{},\"rs\":{},\"wr\":{},\"ac\":{},\"p\":{}", o.vec, o.cycles.min(i32::MAX as usize), state(core), mem.resets, runs(&s.wr),
        mem.log.len(), (!o.panic.is_empty() || mem.capped) as u8)
}

pub fn loops(r: &mut Rng, id: &str, cls: &str) -> Option<String> {
    *CURRENT.lock().unwrap() = id.to_string();
    let s = profile(cls);
    let cpu = crate::core::cpu(r);
    let (mut core, mut mem) = seq_start(r, &s, cpu, r.clone().chance(1, 16));
    if r.chance(1, 8) { let (c, m) = (core.clone(), mem.clone()); refuse(r, &c, &mut mem, &[], m.seed as u32, 0, false); }
    // Any point of a history
    for _ in 0..r.below(12) {
        if r.chance(s.reqs, 16) { core.exception(r.pick(s.vecs)); }
        let o = call(&mut core, &mut mem, 'i', 0);
        if !o.panic.is_empty() { return None; }
    }
    for _ in 0..r.below(3) { core.exception(r.pick(s.vecs)); }
    let q = r.chance(1, 2);
    let (mut c, mut m) = (core.clone(), mem.clone());
    let mut steps = Vec::new();
    let mut sums = vec![0usize];
    let mut ended = None;
    for i in 0..28 {
        let o = call(&mut c, &mut m, if q { 'i' } else { 'e' }, 0);
        if !o.panic.is_empty() { break; }
        steps.push(format!("{{{}}}", record(&c, &m, &o)));
        sums.push(sums[i] + o.cycles);
        if ended.is_none() && (c.stop() || o.vec != 0) { ended = Some(i + 1); }
    }
    if steps.len() < 6 { return None; }
    let last = steps.len() - 3;
    let mut lp = Vec::new();
    for i in 0..4 {
        let j = r.below(last + 1);
        let n = match i { 0 => r.below(3), 1 => sums[j], 2 => sums[j] + 1 + r.below(3), _ => r.below(sums[last].max(1)) };
        let n = n.min(sums[last]);
        let k = if q { 'N' } else if i == 3 { if ended.is_some_and(|e| e <= last) { 'L' } else { continue } } else { 'U' };
        let (mut c, mut m) = (core.clone(), mem.clone());
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let o = call(&mut c, &mut m, k, n);
        let rec = record(&c, &m, &o);
        let mut x = Vec::new();
        if o.panic.is_empty() {
            for _ in 0..2 {
                let o = call(&mut c, &mut m, if q { 'i' } else { 'e' }, 0);
                x.push(format!("{{{}}}", record(&c, &m, &o)));
            }
        }
        lp.push(format!("{{\"k\":\"{k}\",\"n\":{n},{rec},\"x\":[{}]}}", x.join(",")));
    }
    Some(format!("{{\"i\":{},\"cpu\":{cpu},\"q\":{},{},\"s\":[{}],\"lp\":[{}]}}", esc(id), q as u8, state(&core), steps.join(","), lp.join(",")))
}

/// A program that comes back to the same state at every turn, so that its steps of any number of turns are known:
/// the loops are asked for many more cycles than can be recorded step by step.  "la" has the turn: after step la[2] the
/// machine is as after step la[1].
pub fn lasso(r: &mut Rng, id: &str) -> String {
    *CURRENT.lock().unwrap() = id.to_string();
    let cpu = crate::core::cpu(r);
    let mut core = Core::start(r, cpu);
    let mut mem = Mem::new(r.u64());
    let base = r.pick(&[0x1000u32, 0x20_0000, 0xFFFF_0000]);
    let mut regs = crate::gen::rand_regs(r, 0);
    for x in regs.iter_mut().skip(8).take(9) { *x = base + 0x4000; }
    regs[17] = base;
    crate::core::set_regs(core.regs_mut(), &regs);
    crate::core::set_sr(core.regs_mut(), r.u16() & 0x071F | if r.chance(1, 2) { 0x2000 } else { 0 });
    let mut code: Vec<u16> = Vec::new();
    let p = r.below(4);
    for _ in 0..p {
        code.extend_from_slice(r.pick(&[&[0x4E71u16][..], &[0x3401], &[0x4A50], &[0x2010], &[0x4A80], &[0xC2C1], &[0x303C, 0x1234], &[0x4E50, 0, 0x4E58], &[0x4843, 0x4843]]));
    }
    let back = (-(2 * code.len() as i32) - 2) as i8 as u8;
    code.push(0x6000 | back as u16);
    for (i, w) in code.iter().enumerate() { mem.poke_w(base + 2 * i as u32, *w); }
    mem.cap = usize::MAX;
    let q = r.chance(1, 2);
    let (mut c, mut m) = (core.clone(), mem.clone());
    let mut steps = Vec::new();
    // one turn to settle, then the turn, then another one that the specification finds equal
    let mut turn = [0usize; 4];
    let mut acs = [0usize; 4];
    let flip = r.pick(&[0x4E41u16, 0x4AFC, 0xA123, 0x4E72, 0xF000]);
    let mut after = String::new();
    for t in 1..4 {
        loop {
            let o = call(&mut c, &mut m, if q { 'i' } else { 'e' }, 0);
            steps.push(format!("{{{}}}", record(&c, &m, &o)));
            acs[t] += m.log.len();
            if !o.panic.is_empty() || c.list()[17] == base || steps.len() > 60 { break; }
        }
        turn[t] = steps.len();
        if t == 1 {
            let (mut c, mut m) = (c.clone(), m.clone());
            m.poke_w(base, flip);
            let o = call(&mut c, &mut m, 'e', 0);
            after = record(&c, &m, &o);
        }
    }
    let mut lp = Vec::new();
    for _ in 0..3 {
        let n = match r.below(4) { 0 => r.pick(&[0x7FFFusize, 0x8000, 0xFFFF, 0x1_0000]) + r.below(40), 1 => 0x2_0000 + r.below(40), 2 => r.below(100_000), _ => 100_000 + r.below(300_000) };
        let k = if q { 'N' } else { 'U' };
        let (mut c, mut m) = (core.clone(), mem.clone());
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let o = call(&mut c, &mut m, k, n);
        lp.push(format!("{{\"k\":\"{k}\",\"n\":{n},{},\"x\":[]}}", record(&c, &m, &o)));
    }
    // Many calls in a row: every different [steps before, cycles asked, result, vector, steps after] that was seen, where a
    // state is the one after some step of the turn (0: it is none of them)
    if r.chance(1, 4) {
        let (mut c, mut m) = (core.clone(), mem.clone());
        let mut states = Vec::new();
        for i in 1..=turn[2] {
            let _ = call(&mut c, &mut m, if q { 'i' } else { 'e' }, 0);
            if i > turn[1] { states.push((c.list(), c.sr(), c.stop())); }
        }
        let k = if q { 'N' } else { 'U' };
        let at = |c: &Core| states.iter().position(|x| *x == (c.list(), c.sr(), c.stop())).map(|i| turn[1] + 1 + i).unwrap_or(0);
        let mut seen = std::collections::BTreeSet::new();
        let (mut n, mut from) = (1, at(&c));
        for i in 0..9000 {
            if i % 500 == 0 { n = 1 + r.below(60); BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
            let o = call(&mut c, &mut m, k, n);
            let to = at(&c);
            seen.insert((from, n, o.cycles, o.vec, to));
            if to == 0 || !o.panic.is_empty() { break; }
            from = to;
        }
        let cs: Vec<String> = seen.iter().map(|(a, n, c, v, b)| format!("[{a},{n},{c},{v},{b}]")).collect();
        lp.push(format!("{{\"k\":\"{k}\",\"n\":0,\"cs\":[{}]}}", cs.join(",")));
    }
    if !q {
        // the memory changes after some turns, so that the loop ends
        for k in ['L', 'U'] {
            let n = 1 + if r.chance(1, 2) { 20_000 + r.below(10_000) } else { r.below(5000) };
            let (mut c, mut m) = (core.clone(), mem.clone());
            m.flip = Some((acs[1] + n * acs[2], base, flip));
            BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let o = call(&mut c, &mut m, k, 100_000_000);
            lp.push(format!("{{\"k\":\"{k}\",\"n\":100000000,{},\"x\":[],\"tn\":{n},\"z\":{{{after}}}}}", record(&c, &m, &o)));
        }
    }
    format!("{{\"i\":{},\"cpu\":{cpu},\"q\":{},{},\"la\":[{},{}],\"s\":[{}],\"lp\":[{}]}}", esc(id), q as u8, state(&core), turn[1], turn[2], steps.join(","), lp.join(","))
}
