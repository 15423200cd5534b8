//! Drives the real m68000 core and records traces for the specification to judge.

mod asm;
mod batch;
mod core;
mod details;
mod client;
mod ffi;
mod gen;
mod helpers;
mod board;
mod listing;
mod loops;
mod mem;
mod operands;
mod replay;
mod rng;
mod slices;
mod sr;
mod table;
mod trace;

use gen::*;
use rng::Rng;
use std::io::Write;

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> { self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str()) }
    fn num(&self, k: &str, d: u64) -> u64 { self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d) }
}

fn options(a: &Args) -> Opts {
    let mut o = PLAIN;
    if let Some(p) = a.get("--opts") {
        for kv in p.split(',') {
            let (k, v) = kv.split_once('=').unwrap();
            match k {
                "user" => o.user = v.parse().unwrap(),
                "trace" => o.trace = v.parse().unwrap(),
                "odd" => o.odd = v.parse().unwrap(),
                "fault" => o.fault = v.parse().unwrap(),
                "code" => o.code_fault = v == "1",
                "pending" => o.pending = v.parse().unwrap(),
                "more" => o.more = v.parse().unwrap(),
                "alt" => o.alt = v == "1",
                "flow" => o.flow = v == "1",
                "public" => o.public = v == "1",
                "kinds" => o.kinds = Box::leak(v.to_string().into_boxed_str()),
                _ => panic!("{k}"),
            }
        }
    }
    o
}

fn main() {
    std::panic::set_hook(Box::new(|i| if !trace::GUARD.load(std::sync::atomic::Ordering::Relaxed) { eprintln!("harness: {i}") }));
    let a = Args(std::env::args().collect());
    let cmd = a.0[1].clone();
    let seed = a.num("--seed", 1);
    let n = a.num("--n", 1000);
    let class = a.get("--class").unwrap_or("all").to_string();
    let rows = a.get("--table").map(table::load).unwrap_or_default();
    let mut out: Box<dyn Write> = Box::new(std::io::BufWriter::new(std::fs::File::create(a.get("--out").unwrap()).unwrap()));
    let mut r = Rng::new(seed);
    // Only the histories in which a call did not return normally (the others are all alike for C24).
    let panics = a.get("--only") == Some("panics");
    let keep = |out: &mut Box<dyn Write>, l: String| if !panics || l.contains("\"p\":1") { writeln!(out, "{l}").unwrap() };
    trace::watchdog(20);
    core::MODELS.store(a.num("--models", 0) as u8, std::sync::atomic::Ordering::Relaxed);
    if let Some(f) = a.get("--client") { client::load(f); }
    match cmd.as_str() {
        "single" => {
            let names: Vec<String> = a.get("--names").map(|s| s.split(',').map(String::from).collect()).unwrap_or_default();
            let pool = table::pool(&rows, |row| if names.is_empty() { row.name != "Unknown" } else { names.contains(&row.name) });
            let o = options(&a);
            for i in 0..n { keep(&mut out, single(&mut r, &format!("{class}-{seed}-{i}"), &pool, &o)); }
        },
        // Every opcode (or every k-th), on both CPU models
        "ops" => {
            let o = options(&a);
            let k = a.num("--every", 1) as usize;
            for row in rows.iter().skip(seed as usize % k).step_by(k) {
                for cpu in 0..2 { let cpu = cpu + a.num("--models", 0) as u8; writeln!(out, "{}", one(&mut r, &format!("op-{:04X}-{cpu}", row.op), row, &o, cpu)).unwrap(); }
            }
        },
        // Grids of operand values: --per opcodes of every form, --grid a.b.f values
        "batch" => {
            let names: Vec<String> = a.get("--names").map(|s| s.split(',').map(String::from).collect()).unwrap_or_default();
            let g: Vec<usize> = a.get("--grid").unwrap_or("16.16.2").split('.').map(|x| x.parse().unwrap()).collect();
            let s = batch::Size { a: g[0], b: g[1], f: g[2], user: a.get("--mode") == Some("user") };
            let sizes = a.get("--sizes").unwrap_or("0124");
            let modes: Vec<i8> = a.get("--modes").map(|m| m.split('.').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
            let pool = table::pool(&rows, |row| names.contains(&row.name) && sizes.contains(&row.sz.to_string()) && (modes.is_empty() || modes.contains(&row.m)));
            for f in pool.by_name.iter().flatten() {
                for _ in 0..n {
                    let op = f[r.below(f.len())];
                    batch::grid(&mut r, &format!("{op:04X}-{seed}"), &rows[op as usize], &s, &mut |l| writeln!(out, "{l}").unwrap());
                }
            }
        },
        "lasso" => for i in 0..n { writeln!(out, "{}", loops::lasso(&mut r, &format!("lasso-{seed}-{i}"))).unwrap(); },
        "loops" => for i in 0..n { if let Some(l) = loops::loops(&mut r, &format!("{class}-{seed}-{i}"), &class) { writeln!(out, "{l}").unwrap(); } },
        "ffi" => {
            let pool = table::pool(&rows, |row| row.name != "Unknown");
            for i in 0..n { writeln!(out, "{}", ffi(&mut r, &format!("{class}-{seed}-{i}"), &pool, &class)).unwrap(); }
        },
        "host" => for i in 0..n { writeln!(out, "{}", host(&mut r, &format!("host-{seed}-{i}"))).unwrap(); },
        "slices" => for i in 0..n {
            let id = format!("slice-{seed}-{i}");
            writeln!(out, "{}", if i % 128 == 5 { slices::big(&mut r, &id) } else if i % 8 == 0 { slices::cpu(&mut r, &id) } else { slices::ops(&mut r, &id, 16) }).unwrap();
        },
        "sr" => sr::sr(&mut r, n, &mut out),
        "listing" => {
            let pool = table::pool(&rows, |row| row.name != "Unknown");
            let dir = std::path::PathBuf::from(a.get("--dir").unwrap());
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            for i in 0..n { writeln!(out, "{}", listing::listing(&mut r, &format!("list-{seed}-{i}"), &pool, &rows, a.get("--tool").unwrap(), &dir)).unwrap(); }
            std::fs::remove_dir_all(&dir).unwrap();
        },
        "board" => {
            let ops = board::pool(&rows);
            let dir = std::path::PathBuf::from(a.get("--dir").unwrap());
            let _ = std::fs::remove_dir_all(&dir);
            for i in 0..n {
                trace::BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                writeln!(out, "{}", board::board(&mut r, &format!("rom-{seed}-{i}"), &ops, a.get("--tool").unwrap(), &dir, class == "long")).unwrap();
            }
            std::fs::remove_dir_all(&dir).unwrap();
        },
        "headers" => helpers::headers(&mut out),
        "helpers" => helpers::helpers(&mut r, n, &mut out),
        "operands" => operands::operands(&mut r, n, &mut out),
        "asm" => asm::asm(&mut r, &mut out),
        "known" => for l in known() { writeln!(out, "{l}").unwrap(); },
        "hang" => { *trace::CURRENT.lock().unwrap() = format!("cpu {seed}"); trace::watchdog(3); hang(seed as u8) },
        // Paths of the closed models: --paths FILE, every --every-th from the --from-th on
        "replay" => {
            let text = std::fs::read_to_string(a.get("--paths").unwrap()).unwrap();
            let k = a.num("--every", 1) as usize;
            for (i, l) in text.lines().enumerate().skip(seed as usize % k).step_by(k) {
                writeln!(out, "{}", replay::replay(&mut r, &format!("path-{}-{i}", a.get("--how").unwrap()), l, a.get("--how").unwrap())).unwrap();
            }
        },
        "seq" => {
            let s = profile(&class);
            for i in 0..n { keep(&mut out, seq(&mut r, &format!("{class}-{seed}-{i}"), &s)); }
        },
        _ => panic!("unknown command {cmd}"),
    }
    out.flush().unwrap();
}
