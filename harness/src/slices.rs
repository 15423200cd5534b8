//! Slices as memory, for spec/Slices.tla.

use crate::core::Core;
use crate::gen::{profile, seq_start};
use crate::rng::{value, Rng};
use crate::trace::{guarded, pair, CURRENT, BUSY};
use m68000::{MemoryAccess, M68000};

fn read<M: MemoryAccess + ?Sized>(m: &mut M, k: &str, a: u32) -> String {
    match guarded(|| match k { "rb" => m.get_byte(a).map(|v| v as u32), "rw" => m.get_word(a).map(|v| v as u32), _ => m.get_long(a) }) {
        Ok(Some(v)) => format!("[1,{},{}]", v >> 16, v & 0xFFFF),
        Ok(None) => "[0]".into(),
        Err(_) => "[2]".into(),
    }
}
fn write<M: MemoryAccess + ?Sized>(m: &mut M, k: &str, a: u32, v: u32) -> String {
    match guarded(|| match k { "wb" => m.set_byte(a, v as u8), "ww" => m.set_word(a, v as u16), _ => m.set_long(a, v) }) {
        Ok(Some(())) => "[1]".into(),
        Ok(None) => "[0]".into(),
        Err(_) => "[2]".into(),
    }
}
fn items<M: MemoryAccess + ?Sized>(m: &mut M, a: u32) -> String {
    let r = guarded(|| {
        let mut it = m.iter_u16(a);
        let l: Vec<String> = (0..3).map(|_| match it.next() { Some(Ok(w)) => format!("[1,{w}]"), Some(Err(e)) => format!("[{e}]"), None => "[9]".into() }).collect();
        format!("[{}]", l.join(","))
    });
    r.unwrap_or("[[8]]".into())
}
fn list(b: &[u8]) -> String { format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn bytes(w: &[u16], n: usize) -> Vec<u8> { w.iter().flat_map(|x| x.to_be_bytes()).take(n).collect() }

pub fn ops(r: &mut Rng, id: &str, long: usize) -> String {
    *CURRENT.lock().unwrap() = id.to_string();
    let n = match r.below(4) { 0 => r.below(4), 1 => 16, _ => r.below(13) };
    let both = n % 2 == 0;
    let mut b8: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
    let mut b16: Vec<u16> = b8.chunks(2).map(|c| (c[0] as u16) << 8 | *c.get(1).unwrap_or(&0) as u16).collect();
    let init = list(&b8);
    let mut s = Vec::new();
    for _ in 0..2 + r.below(long) {
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let k = r.pick(&["rb", "rw", "rl", "wb", "ww", "wl", "wb", "ww", "wl", "it"]);
        let a = match r.below(8) {
            0 => 0u32.wrapping_sub(r.below(6) as u32),
            1 => (n as u32).wrapping_add(r.below(5) as u32).wrapping_sub(4),
            2 => r.pick(&[0x7FFF_FFFEu32, 0x8000_0000, 0x1_0000, 0xFFFF_0000, 0xFFFE]).wrapping_add(r.below(4) as u32),
            _ => r.below(n + 3) as u32,
        };
        let v = value(r);
        let odd = a & 1 != 0 && !k.ends_with('b');
        let mut extra = String::new();
        let skip = || String::from("[3]");
        let res: Vec<String> = match k {
            "it" => vec![items(&mut b8[..], a), items(&mut &b8[..], a), if both { items(&mut b16[..], a) } else { items(&mut b8[..], a) },
                if both { items(&mut &b16[..], a) } else { items(&mut &b8[..], a) }],
            "rb" | "rw" | "rl" => vec![read(&mut b8[..], k, a), read(&mut &b8[..], k, a), if both { read(&mut b16[..], k, a) } else { skip() }, if both { read(&mut &b16[..], k, a) } else { skip() }],
            _ => {
                let w16 = both && !odd;
                let x = vec![write(&mut b8[..], k, a, v), skip(), if w16 { write(&mut b16[..], k, a, v) } else { skip() }, skip()];
                if !w16 { b16 = b8.chunks(2).map(|c| (c[0] as u16) << 8 | *c.get(1).unwrap_or(&0) as u16).collect(); }
                extra = format!(",{},{}", list(&b8), list(&bytes(&b16, n)));
                x
            },
        };
        s.push(format!("[\"{k}\",{},{},[{}]{extra}]", pair(a), pair(v), res.join(",")));
    }
    format!("{{\"i\":\"{id}\",\"k\":\"ops\",\"ty\":[\"u8\",\"r8\",\"u16\",\"r16\"],\"b\":{init},\"s\":[{}]}}", s.join(","))
}

fn nonzero(b: impl Iterator<Item = u8>) -> String {
    format!("[{}]", b.enumerate().filter(|(_, b)| *b != 0).map(|(i, b)| format!("[{i},{b}]")).collect::<Vec<_>>().join(","))
}
/// Accesses to large slices, at their ends and at addresses that differ from others in high bits only.
pub fn big(r: &mut Rng, id: &str) -> String {
    *CURRENT.lock().unwrap() = id.to_string();
    let n = r.pick(&[0x1_0000usize, 0x1_0002, 0x1_8000, 0x2_0000, 0x10_0000, 0x80_0004, 0x100_0000, 0x100_0010]);
    let mut b8 = vec![0u8; n];
    let mut b16 = vec![0u16; n / 2];
    let mut s = Vec::new();
    let mut at = r.below(n) as u32;
    for _ in 0..12 {
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let k = r.pick(&["rb", "rw", "rl", "wb", "ww", "wl", "it"]);
        let mut a = match r.below(8) {
            0 | 1 => (n as u32).wrapping_add(r.below(5) as u32).wrapping_sub(4),
            2 => at ^ 1 << r.below(32),
            3 => { at = r.below(n) as u32; at },
            4 => 0xFFFC + r.below(6) as u32,
            _ => at.wrapping_add(r.below(4) as u32),
        };
        if !k.ends_with('b') { a &= !1; }
        let v = value(r);
        let mut extra = String::new();
        let skip = || String::from("[3]");
        let res: Vec<String> = match k {
            "it" => vec![items(&mut b8[..], a), items(&mut &b8[..], a), items(&mut b16[..], a), items(&mut &b16[..], a)],
            "rb" | "rw" | "rl" => vec![read(&mut b8[..], k, a), read(&mut &b8[..], k, a), read(&mut b16[..], k, a), read(&mut &b16[..], k, a)],
            _ => {
                let x = vec![write(&mut b8[..], k, a, v), skip(), write(&mut b16[..], k, a, v), skip()];
                extra = format!(",{},{}", nonzero(b8.iter().copied()), nonzero(b16.iter().flat_map(|w| w.to_be_bytes())));
                x
            },
        };
        s.push(format!("[\"{k}\",{},{},[{}]{extra}]", pair(a), pair(v), res.join(",")));
    }
    format!("{{\"i\":\"{id}\",\"k\":\"big\",\"ty\":[\"u8\",\"r8\",\"u16\",\"r16\"],\"n\":{n},\"b\":[],\"s\":[{}]}}", s.join(","))
}

enum Back { B(Vec<u8>), W(Vec<u16>) }
fn step<C: m68000::cpu_details::CpuDetails>(c: &mut M68000<C>, m: &mut Back) -> (usize, Option<u8>) {
    match m { Back::B(b) => c.interpreter_exception(&mut b[..]), Back::W(w) => c.interpreter_exception(&mut w[..]) }
}
fn state(core: &Core, o: Option<(usize, u8)>) -> String {
    let regs: Vec<String> = core.list().iter().map(|v| pair(*v)).collect();
    match o { Some((c, v)) => format!("[{c},{v},{},{},[{}]]", core.sr(), core.stop() as u8, regs.join(",")), None => "[2]".into() }
}
/// The core on a slice, and on the recording memory that refuses what is outside of the slice.
pub fn cpu(r: &mut Rng, id: &str) -> String {
    *CURRENT.lock().unwrap() = id.to_string();
    let p = profile("mixed");
    let kind = r.below(2) as u8;
    let (mut c1, mut mem, n) = loop {
        let (c, m) = seq_start(r, &p, kind, false);
        if c.regs().ssp.0 < 0x1_0000 { break (c, m, c_len(r)); }
    };
    mem.words = Some(std::rc::Rc::new(crate::gen::FLOW.to_vec()));
    mem.refused.push((n as u32, u32::MAX));
    let data: Vec<u8> = (0..n as u32).map(|a| mem.peek(a)).collect();
    let mut back = if r.chance(1, 2) { Back::B(data) } else { Back::W(data.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect()) };
    // Pointers near the end of the slice
    for i in 0..7 { if r.chance(1, 3) { c1.regs_mut().a[i].0 = (n as u32).wrapping_sub(8).wrapping_add(r.below(12) as u32); } }
    let mut c2 = c1.clone();
    let (mut s, mut w) = (Vec::new(), Vec::new());
    for _ in 0..12 {
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let o1 = crate::trace::call(&mut c1, &mut mem, 'e', 0);
        let r2 = guarded(|| match &mut c2 { Core::A(c) => step(c, &mut back), Core::B(c) => step(c, &mut back), _ => unreachable!() });
        let ok1 = o1.panic.is_empty();
        s.push(state(&c1, if ok1 { Some((o1.cycles, o1.vec)) } else { None }));
        w.push(state(&c2, r2.as_ref().ok().map(|(c, v)| (*c, v.unwrap_or(0)))));
        if !ok1 || r2.is_err() { break; }
        if o1.vec != 0 { c1.exception(o1.vec); c2.exception(o1.vec); }
    }
    format!("{{\"i\":\"{id}\",\"k\":\"cpu\",\"b\":[],\"s\":[{}],\"w\":[{}]}}", s.join(","), w.join(","))
}
fn c_len(r: &mut Rng) -> usize { 0x9000 + 2 * r.below(0x400) }
