//! What the scc68070 programs print for a ROM, for spec/Board.tla.

use crate::rng::{Rng, value};
use crate::table::Row;
use crate::trace::esc;
use std::io::Read;
use std::path::Path;
use std::process::{Command, Stdio};

const ROM: u32 = 0x40_0000;
const HANDLERS: u32 = ROM + 0x3000;
const NAMES: [&str; 24] = ["Add", "Sub", "And", "Or", "Eor", "Cmp", "Not", "Neg", "Negx", "Tst", "Clr", "Swap", "Ext", "Addq", "Subq", "Moveq", "Asr", "Lsr", "Roxr", "Ror",
    "Muls", "Mulu", "Move", "Addx"];

/// Register to register instructions.
pub fn pool(rows: &[Row]) -> Vec<u16> {
    rows.iter().filter(|r| r.len == 1 && NAMES.contains(&r.name.as_str())
        && (matches!(r.name.as_str(), "Asr" | "Lsr" | "Roxr" | "Ror" | "Moveq") || r.op & 0x38 == 0)
        && (r.name != "Move" || r.op >> 6 & 7 == 0)).map(|r| r.op).collect()
}

struct Rom {
    code: Vec<u16>, hand: Vec<u16>,
    /// The program accesses the serial port with bytes only.
    bytes: bool,
}
impl Rom {
    fn abs(&mut self, op: u16, a: u32) { self.code.extend([op, (a >> 16) as u16, a as u16]); }
    fn print(&mut self, r: &mut Rng) {
        let n = r.below(8) as u16;
        match if self.bytes { 2 + r.below(6) } else { r.below(8) } {
            0 => self.abs(0x33C0 | n, 0x8000_2018),                         // MOVE.W Dn
            1 => self.abs(0x23C0 | n, 0x8000_2016),                         // MOVE.L Dn
            2 => { self.code.extend([0x13FC, r.u16() & 0xFF, 0x8000, 0x2019]); },
            3 => { self.code.extend([0x287C, 0x8000, 0x2000, 0x1940 | n, 0x19]); }, // MOVEA.L #, A4; MOVE.B Dn, ($19, A4)
            _ => self.abs(0x13C0 | n, 0x8000_2019),
        }
    }
    /// A handler made of the words, and the code that puts its address in the vector.
    fn handler(&mut self, v: u32, words: &[u16]) {
        let at = HANDLERS + 2 * self.hand.len() as u32;
        self.hand.extend(words);
        self.code.extend([0x23FC, (at >> 16) as u16, at as u16, 0, (v * 4) as u16]);
    }
}

/// Runs the program with a ROM of a few hundred steps that ends with STOP.  The scc68070_ffi program has a port for bytes.
pub fn board(r: &mut Rng, id: &str, ops: &[u16], tool: &str, dir: &Path, long: bool) -> String {
    let mut m = Rom { code: Vec::new(), hand: Vec::new(), bytes: tool.ends_with("_ffi") };
    let ssp = r.pick(&[0x8000u32, 0x50_0000, 0x40_0000, 0x4_0000]);
    let start = ROM + 8 + 2 * r.below(8) as u32;
    if long {
        // as many steps as the program makes up to the line feed
        let (k, p) = ((1_000_000_000 - 4) / 65538, (1_000_000_000 - 4) % 65538);
        m.code.extend([0x323C, k as u16 - 1, 0x70FF, 0x51C8, 0xFFFE, 0x51C9, 0xFFF8, 0x343C, p as u16, 0x51CA, 0xFFFE]);
        for c in [0x0A, 0x42, 0x43] { m.code.extend([0x13FC, c, 0x8000, 0x2019]); }
        m.code.extend([0x4E72, 0x2700]);
        return finish(id, m, ssp, start, tool, dir);
    }
    for n in 0..8u16 { let v = value(r); m.code.extend([0x203C | n << 9, (v >> 16) as u16, v as u16]); }
    let show = |c: u16| [0x13FCu16, c, 0x8000, 0x2019];
    if r.chance(7, 8) { m.handler(2, &[&show(0x45)[..], &[0x4E73]].concat()); } else { m.handler(2, &[&show(0x0A)[..], &[0x4E72, 0x2700]].concat()); }
    for _ in 0..8 + r.below(50) {
        let n = r.below(8) as u16;
        match r.below(12) {
            0..=3 => { for _ in 0..1 + r.below(4) { m.code.push(r.pick(ops)); } },
            4 => m.abs(0x1039 | n << 9, 0x8000_2011 + r.below(11) as u32),
            5 if m.bytes => m.abs(0x1039 | n << 9, 0x8000_2013),
            5 => m.abs(0x3039 | n << 9, 0x8000_2012 + 2 * r.below(5) as u32),
            6 => {                                                          // RAM
                let a = r.pick(&[0x1000u32, 0x40_1000, 0x4F_FFFC, 0x40_0000 - 4, 0x12_3456, 0x48_0000]);
                m.abs(0x23C0 | n, a);
                m.abs(0x1039 | (r.below(8) as u16) << 9, a + r.below(4) as u32);
            },
            7 => {                                                          // no memory there
                let a = r.pick(&[0x50_0000u32, 0x8000_2010, 0x8000_201C, 0x9000_0000, 0x7FFF_FFFE, 0x4_0000_00 << 2, 0xFFFF_FFFE, 0x8000_2000, 0x4F_FFFE + 2]);
                let op = r.pick(&[0x1039u16, 0x3039, 0x2039, 0x13C0, 0x33C0, 0x23C0]);
                m.abs(op | if op < 0x1100 || op == 0x3039 || op == 0x2039 { n << 9 } else { n }, a);
            },
            8 => {
                let k = r.below(16) as u16;
                let c = show(r.u16() & 0x7F);
                m.handler(32 + k as u32, &[&c[..], &[0x4E73]].concat());
                m.code.push(0x4E40 | k);
            },
            9 => {                                                          // a counted loop
                m.code.extend([0x7E00 | 1 + r.below(6) as u16, 0x13C7, 0x8000, 0x2019, 0x51CF, 0xFFF8]);
            },
            10 => {                                                         // a string of the ROM
                let k = 1 + r.below(5) as u16;
                let at = HANDLERS + 2 * m.hand.len() as u32;
                for _ in 0..k { m.hand.push(r.u16()); }
                m.code.extend([0x207C, (at >> 16) as u16, at as u16, 0x7C00 | 2 * k - 1, 0x13D8, 0x8000, 0x2019, 0x51CE, 0xFFF8]);
            },
            _ => m.code.push(r.pick(&[0x4E70u16, 0x4E71])),
        }
        if r.chance(2, 3) { m.print(r); }
    }
    if r.chance(1, 4) {                                                     // the end in user mode: STOP is privileged
        m.handler(8, &[&show(0x50)[..], &show(0x0A)[..], &[0x4E72, 0x2700]].concat());
        m.code.extend([0x027C, 0xDFFF]);
    } else { m.code.extend(show(0x0A)); }
    m.code.extend([0x4E72, 0x2700]);
    finish(id, m, ssp, start, tool, dir)
}

fn finish(id: &str, m: Rom, ssp: u32, start: u32, tool: &str, dir: &Path) -> String {
    let mut rom = vec![0u16; (HANDLERS - ROM) as usize / 2];
    for (i, w) in [ssp >> 16, ssp, start >> 16, start].iter().enumerate() { rom[i] = *w as u16; }
    for (i, w) in m.code.iter().enumerate() { rom[(start - ROM) as usize / 2 + i] = *w; }
    rom.extend(&m.hand);
    let _ = std::fs::create_dir_all(dir);
    std::fs::write(dir.join("cpudiag40.rom"), rom.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    let (mut text, rc) = run(tool, dir);
    // the last line is the time taken
    let timed = match text.char_indices().rev().skip_while(|(_, c)| *c == '\n').find(|(_, c)| *c == '\n') {
        Some((i, _)) if text[i + 1..].strip_suffix("s\n").is_some_and(|t| t.starts_with(|c: char| c.is_ascii_digit())) => { text.truncate(i + 1); 1 },
        _ => 0,
    };
    let nums = |w: &[u16]| w.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(",");
    format!("{{\"i\":{},\"vec\":[{}],\"at\":{},\"w\":[{}],\"h\":[{}],\"rc\":{rc},\"time\":{timed},\"got\":[{}]}}", esc(id), nums(&rom[..4]), start as u16, nums(&m.code), nums(&m.hand),
        text.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(","))
}

/// The standard output (at most 64 KB) and the exit status, -1 when the program is killed after some minutes.
fn run(tool: &str, dir: &Path) -> (String, i32) {
    let mut p = Command::new(tool).current_dir(dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut o = p.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = (&mut o).take(0x1_0000).read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let t = std::time::Instant::now();
    let rc = loop {
        if let Some(s) = p.try_wait().unwrap() { break s.code().unwrap_or(-1); }
        if t.elapsed().as_secs() > 300 { let _ = p.kill(); let _ = p.wait(); break -1; }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    (reader.join().unwrap(), rc)
}
