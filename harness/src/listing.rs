//! What the disassemble program lists of files, for spec/Listing.tla.

use crate::rng::Rng;
use crate::table::{Pool, Row};
use crate::trace::esc;
use std::path::Path;
use std::process::Command;

fn lines(b: &[u8]) -> String { format!("[{}]", String::from_utf8_lossy(b).lines().map(esc).collect::<Vec<_>>().join(",")) }

/// Runs the program with a file of whole instructions and a range; the scratch folder is the caller's.
pub fn listing(r: &mut Rng, id: &str, pool: &Pool, rows: &[Row], tool: &str, dir: &Path) -> String {
    let mut words: Vec<u16> = Vec::new();
    let mut starts: Vec<usize> = Vec::new();
    // one file of more than 64 KB
    let large = id.ends_with("-0");
    let n = if large { 9000 } else if r.chance(1, 16) { 0 } else { 1 + r.below(60) };
    for _ in 0..n {
        starts.push(2 * words.len());
        let mut op = if r.chance(1, 8) { r.u16() } else { pool.pick(r).op };
        if large { while rows[op as usize].len < 4 { op = pool.pick(r).op; } }
        words.push(op);
        for _ in 1..rows[op as usize].len { words.push(match r.below(4) { 0 => r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF]), _ => r.u16() }); }
    }
    let len = 2 * words.len();
    let bytes: Vec<u8> = words.iter().flat_map(|w| w.to_be_bytes()).collect();
    let file = dir.join("in.bin");
    std::fs::write(&file, &bytes).unwrap();
    let out = dir.join("out.txt");
    let _ = std::fs::remove_file(&out);
    let mut opts: Vec<Vec<String>> = Vec::new();
    let (mut b, mut e) = (0, len);
    if r.chance(1, 2) && n > 0 && !large {
        b = starts[r.below(starts.len())];
        if r.chance(1, 8) { b = len; }
        opts.push(vec!["-b".into(), b.to_string()]);
    }
    if r.chance(1, 2) && !large {
        e = r.below(len + 8);
        opts.push(vec!["-e".into(), e.to_string()]);
    }
    // where the listing goes: to a file, or to the standard output (also when the file cannot be made)
    let to = r.below(3);
    if to == 1 { opts.push(vec!["-o".into(), out.to_str().unwrap().into()]); }
    if to == 2 { opts.push(vec!["-o".into(), dir.join("none").join("out.txt").to_str().unwrap().into()]); }
    for i in (1..opts.len()).rev() { let j = r.below(i + 1); opts.swap(i, j); }
    let p = Command::new(tool).arg(&file).args(opts.concat()).env("RUST_BACKTRACE", "0").output().unwrap();
    let written = std::fs::read(&out).unwrap_or_default();
    let (got, other) = if to == 1 { (&written, &p.stdout) } else { (&p.stdout, &written) };
    format!("{{\"i\":{},\"w\":[{}],\"b\":{b},\"e\":{e},\"rc\":{},\"got\":{},\"other\":{}}}", esc(id),
        words.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(","), p.status.code().unwrap_or(-1), lines(got), lines(other))
}
