//! Histories of a status register, for spec/Sr.tla.

use crate::rng::Rng;
use m68000::status_register::StatusRegister;
use std::io::Write;

fn fields(s: &StatusRegister) -> String {
    format!("[{},{},{},{},{},{},{},{}]", s.t as u8, s.s as u8, s.interrupt_mask, s.x as u8, s.n as u8, s.z as u8, s.v as u8, s.c as u8)
}
fn row(k: &str, w: u16, s: &StatusRegister) -> String {
    let c: Vec<String> = (0..16).map(|c| (s.condition(c) as u8).to_string()).collect();
    format!("[\"{k}\",{w},{},{},[{}]]", fields(s), u16::from(*s), c.join(","))
}

pub fn sr(r: &mut Rng, n: u64, out: &mut dyn Write) {
    let words = |r: &mut Rng| match r.below(4) {
        0 => 1u16 << r.below(16),
        1 => !(1u16 << r.below(16)),
        2 => r.pick(&[0, 0xFFFF, 0xFF, 0xFF00, 0x1F, 0xE0, 0x700, 0x2700, 0xA71F, 0x58E0]),
        _ => r.u16(),
    };
    // Every word
    for b in 0..256u32 {
        let l: Vec<String> = (0..256).map(|i| { let w = (b * 256 + i) as u16; row("from", w, &StatusRegister::from(w)) }).collect();
        writeln!(out, "{{\"i\":\"sr-from-{b}\",\"s\":[{}]}}", l.join(",")).unwrap();
    }
    // In new registers
    for b in 0..64u32 {
        let l: Vec<String> = (0..32).map(|i| {
            let w = if b < 32 { (b * 32 + i) as u16 | (i as u16 & 7) << 8 | (b as u16 & 0x18) << 11 } else { r.u16() };
            let g = m68000::Registers::with_sr(StatusRegister::from(w));
            let rest = g.d.iter().chain(&g.a).chain([&g.usp, &g.ssp, &g.pc]).any(|x| x.0 != 0);
            row(if rest { "changed" } else { "with" }, w, &g.sr)
        }).collect();
        writeln!(out, "{{\"i\":\"sr-with-{b}\",\"s\":[{}]}}", l.join(",")).unwrap();
    }
    // Every status register with every operation on single bits and their complements, and histories
    for b in 0..128u32 {
        for k in ["and", "or", "xor", "ccr"] {
            let mut l = Vec::new();
            let w = ((b & 0x40) << 9 | (b & 0x20) << 8 | (b & 0x1F)) as u16 | (r.below(8) << 8) as u16;
            for j in 0..40 {
                let v = match j { 0..=15 => 1u16 << j, 16..=31 => !(1u16 << (j - 16)), 32 => 0, 33 => 0xFFFF, _ => r.u16() };
                let mut s = StatusRegister::from(w);
                l.push(row("from", w, &s));
                apply(&mut s, k, v);
                l.push(row(k, v, &s));
            }
            writeln!(out, "{{\"i\":\"sr-{k}-{b}\",\"s\":[{}]}}", l.join(",")).unwrap();
        }
    }
    for i in 0..n {
        let mut s = StatusRegister::default();
        let mut l = vec![row("default", 0, &s)];
        for _ in 0..40 {
            let (k, v) = (r.pick(&["from", "and", "or", "xor", "ccr", "and", "or", "xor", "ccr"]), words(r));
            apply(&mut s, k, v);
            l.push(row(k, v, &s));
        }
        writeln!(out, "{{\"i\":\"sr-hist-{i}\",\"s\":[{}]}}", l.join(",")).unwrap();
    }
}

fn apply(s: &mut StatusRegister, k: &str, v: u16) {
    match k {
        "from" => *s = StatusRegister::from(v),
        "and" => *s &= v,
        "or" => *s |= v,
        "xor" => *s ^= v,
        "ccr" => s.set_ccr(v),
        _ => unreachable!(),
    }
}
