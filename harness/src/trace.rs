//! Recording of what the real core does, one JSON line per trace (see spec/Trace.tla for the meaning of the fields).

use crate::core::Core;
use crate::ffi::Ffi;
use crate::mem::{Access, Mem};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn pair(v: u32) -> String { format!("[{},{}]", v >> 16, v & 0xFFFF) }

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => { let _ = write!(o, "?{:02X}", c as u32); },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Maximal runs of consecutive bytes, split at 64 KB boundaries: [[[hi,lo],[b,...]],...]
pub fn runs(m: &BTreeMap<u32, u8>) -> String {
    let mut o = String::from("[");
    let mut last: Option<u32> = None;
    for (a, b) in m {
        match last {
            Some(l) if l.wrapping_add(1) == *a && *a & 0xFFFF != 0 => { let _ = write!(o, ",{b}"); },
            _ => {
                if last.is_some() { o.push_str("]],"); }
                let _ = write!(o, "[{},[{b}", pair(*a));
            },
        }
        last = Some(*a);
    }
    if last.is_some() { o.push_str("]]"); }
    o.push(']');
    o
}

pub struct Summary { pub rd: BTreeMap<u32, u8>, pub wr: BTreeMap<u32, u8>, pub refused: usize, pub rr: bool }
pub fn summary(log: &[Access]) -> Summary {
    let mut s = Summary { rd: BTreeMap::new(), wr: BTreeMap::new(), refused: 0, rr: false };
    for a in log {
        if !a.ok { s.refused += 1; continue; }
        for i in 0..a.n as u32 {
            let addr = a.addr.wrapping_add(i);
            let b = (a.val >> (8 * (a.n as u32 - 1 - i))) as u8;
            if a.write { s.wr.insert(addr, b); }
            else if let Some(old) = s.rd.get(&addr) { if *old != b { s.rr = true; } }
            else { s.rd.insert(addr, b); }
        }
    }
    s
}

/// What one interpreter call did.
#[derive(Clone, Default)]
pub struct Out { pub cycles: usize, pub vec: u8, pub addr: u32, pub val: u32, pub text: String, pub panic: String }

/// True while the code under test runs (its panics are data, those of the harness are not).
pub static GUARD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARD.store(true, std::sync::atomic::Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.store(false, std::sync::atomic::Ordering::Relaxed);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else { String::from("panic") }
    })
}

/// Kinds of calls: e interpreter_exception, i interpreter, D disassembler_interpreter_exception,
/// d disassembler_interpreter, w get_next_word, l get_next_long, p peek_next_word, N cycle(n),
/// U cycle_until_exception(n), L loop_until_exception_stop.
pub fn call(core: &mut Core, mem: &mut Mem, kind: char, n: usize) -> Out {
    mem.begin();
    let r = guarded(|| match kind {
        'e' => { let (c, v) = core.interpreter_exception(mem); Out { cycles: c, vec: v.unwrap_or(0), ..Default::default() } },
        'i' => Out { cycles: core.interpreter(mem), ..Default::default() },
        'D' => {
            let (a, t, c, v) = core.disassembler_interpreter_exception(mem);
            Out { cycles: c, vec: v.unwrap_or(0), addr: a, text: t, ..Default::default() }
        },
        'd' => { let (a, t, c) = core.disassembler_interpreter(mem); Out { cycles: c, addr: a, text: t, ..Default::default() } },
        'w' => match core.get_next_word(mem) { Ok(w) => Out { val: w as u32, ..Default::default() }, Err(v) => Out { vec: v, ..Default::default() } },
        'p' => match core.peek_next_word(mem) { Ok(w) => Out { val: w as u32, ..Default::default() }, Err(v) => Out { vec: v, ..Default::default() } },
        'l' => match core.get_next_long(mem) { Ok(w) => Out { val: w, ..Default::default() }, Err(v) => Out { vec: v, ..Default::default() } },
        'N' => Out { cycles: core.cycle(mem, n), ..Default::default() },
        'U' => { let (c, v) = core.cycle_until_exception(mem, n); Out { cycles: c, vec: v.unwrap_or(0), ..Default::default() } },
        'L' => { let (c, v) = core.loop_until_exception_stop(mem); Out { cycles: c, vec: v.unwrap_or(0), ..Default::default() } },
        _ => unreachable!(),
    });
    match r { Ok(o) => o, Err(p) => Out { panic: p, ..Default::default() } }
}

fn deltas(before: &[u32; 18], after: &[u32; 18]) -> String {
    let mut o = String::from("[");
    for i in 0..18 {
        if before[i] != after[i] {
            if o.len() > 1 { o.push(','); }
            let _ = write!(o, "[{},{}]", i + 1, pair(after[i]));
        }
    }
    o.push(']');
    o
}

/// What is observed of a machine after a call.
pub struct After<'a> { pub regs: [u32; 18], pub sr: u16, pub stop: bool, pub mem: &'a Mem }
pub fn after<'a>(core: &Core, mem: &'a Mem) -> After<'a> { After { regs: core.list(), sr: core.sr(), stop: core.stop(), mem } }

/// The observation after a call, as JSON object fields.
pub fn obs_fields(before: &[u32; 18], a: &After, out: &Out) -> String {
    let s = summary(&a.mem.log);
    let mut o = String::new();
    let _ = write!(o, "\"v\":{},\"c\":{},\"r\":{},\"sr\":{},\"st\":{},\"rd\":{},\"wr\":{},\"na\":{},\"od\":{},\"rs\":{},\"rr\":{},\"p\":{}",
        out.vec, out.cycles.min(i32::MAX as usize), deltas(before, &a.regs), a.sr, a.stop as u8, runs(&s.rd), runs(&s.wr),
        s.refused, a.mem.odd, a.mem.resets, s.rr as u8, if out.panic.is_empty() && !a.mem.capped { 0 } else { 1 });
    o
}
/// Every access made, in order: [write, address, bytes, value, granted].
pub fn log_json(m: &Mem) -> String {
    let l: Vec<String> = m.log.iter().map(|a| format!("[{},{},{},{},{}]", a.write as u8, pair(a.addr), a.n, pair(a.val), a.ok as u8)).collect();
    format!("[{}]", l.join(","))
}

/// A machine run beside the main one.
pub enum Twin { None, Dis(Core, Mem), Ffi(Ffi, Mem) }

pub struct Trace { pub head: String, pub steps: Vec<String>, pub dead: bool, pub twin: Twin, pub fresh: bool, twin_regs: [u32; 18], extra: String }

/// What the harness is running, for the watchdog.
pub static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub static BUSY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn watchdog(limit: u64) {
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::spawn(move || {
        let (mut last, mut age) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BUSY.load(Relaxed);
            if b == last && GUARD.load(Relaxed) { age += 1; } else { age = 0; last = b; }
            if age >= limit {
                println!("HANG {}", CURRENT.lock().unwrap());
                std::process::exit(42);
            }
        }
    });
}

impl Trace {
    pub fn start(id: &str, cpu: u8, reset: bool, core: &Core, mem: &Mem) -> Trace {
        let l = core.list();
        let regs: Vec<String> = l.iter().map(|v| pair(*v)).collect();
        let rf: Vec<String> = mem.refused.iter().map(|(a, b)| format!("[{},{}]", pair(*a), pair(*b))).collect();
        let head = format!("\"i\":{},\"c\":{cpu},\"n\":{},\"m\":[{}],\"sr\":{},\"st\":{},\"rf\":[{}],\"s\":[", esc(id), reset as u8,
            regs.join(","), core.sr(), core.stop() as u8, rf.join(","));
        *CURRENT.lock().unwrap() = id.to_string();
        Trace { head, steps: Vec::new(), dead: false, twin: Twin::None, fresh: false, twin_regs: l, extra: String::new() }
    }
    /// A twin that runs the disassembling interpreter.
    pub fn twin_dis(&mut self, core: &Core, mem: &Mem) { self.twin = Twin::Dis(core.clone(), mem.clone()); }
    /// A twin behind the C interface.
    pub fn twin_ffi(&mut self, core: &Core, mem: &Mem, cpu: u8, reset: bool) {
        self.twin = Twin::Ffi(Ffi::new(cpu, reset, core), mem.clone());
    }
    pub fn twin_mem(&mut self) -> Option<&mut Mem> { match &mut self.twin { Twin::None => None, Twin::Dis(_, m) | Twin::Ffi(_, m) => Some(m) } }
    pub fn step(&mut self, core: &mut Core, mem: &mut Mem, kind: char) -> Out { self.step_n(core, mem, kind, 0, 0) }
    /// Executes and records one call; n is the cycle count of the run loops, len the text buffer of the C interface.
    pub fn step_n(&mut self, core: &mut Core, mem: &mut Mem, kind: char, n: usize, len: usize) -> Out {
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let before = core.list();
        let out = call(core, mem, kind, n);
        let mut o = format!("{{\"k\":\"{kind}\",{}", obs_fields(&before, &after(core, mem), &out));
        if kind == 'D' || kind == 'd' { let _ = write!(o, ",\"a\":{},\"t\":{}", pair(out.addr), esc(&out.text)); }
        if matches!(kind, 'w' | 'l' | 'p') { let _ = write!(o, ",\"x\":{}", pair(out.val)); }
        if !out.panic.is_empty() {
            let _ = write!(o, ",\"pm\":{}", esc(&out.panic));
            self.dead = true;
        }
        if mem.capped { self.dead = true; }
        o.push_str(&std::mem::take(&mut self.extra));
        let tb = self.twin_regs;
        match &mut self.twin {
            Twin::None => (),
            Twin::Dis(c2, m2) => {
                let k2 = match kind { 'e' => 'D', 'i' => 'd', k => k };
                let out2 = call(c2, m2, k2, n);
                let a = after(c2, m2);
                let _ = write!(o, ",\"alt\":{{\"k\":\"{k2}\",{},\"a\":{},\"t\":{}}}", obs_fields(&tb, &a, &out2), pair(out2.addr), esc(&out2.text));
                self.twin_regs = a.regs;
                if !out2.panic.is_empty() { self.dead = true; }
            },
            Twin::Ffi(f, m2) => if !self.dead {
                // A panic would abort at the C boundary: the call is made only when the Rust one returned.
                let (out2, buf) = f.call(m2, kind, n, len);
                let regs = f.regs();
                let a = After { regs: regs.0, sr: regs.1, stop: f.stop().unwrap_or(core.stop()), mem: m2 };
                let _ = write!(o, ",\"n\":{n},\"lg\":{},\"cr\":1", log_json(mem));
                if kind == 'D' || kind == 'd' {
                    let codes: Vec<String> = out.text.bytes().map(|b| b.to_string()).collect();
                    let _ = write!(o, ",\"tc\":[{}],\"len\":{len}", codes.join(","));
                }
                let b: Vec<String> = buf.iter().map(|b| b.to_string()).collect();
                let _ = write!(o, ",\"ffi\":{{\"k\":\"{kind}\",{},\"a\":{},\"x\":{},\"lg\":{},\"buf\":[{}],\"same\":{}}}", obs_fields(&tb, &a, &out2),
                    pair(out2.addr), pair(out2.val), log_json(m2), b.join(","), f.views_agree() as u8);
                self.twin_regs = a.regs;
            },
        }
        o.push('}');
        self.steps.push(o);
        out
    }
    /// Sets the registers of both machines (a step of kind s).
    pub fn set(&mut self, core: &mut Core, mem: &mut Mem, l: &[u32; 18], sr: u16, whole: bool) {
        let before = core.list();
        mem.begin();
        crate::core::set_regs(core.regs_mut(), l);
        crate::core::set_sr(core.regs_mut(), sr);
        let tb = self.twin_regs;
        if let Twin::Ffi(f, m2) = &mut self.twin {
            m2.begin();
            f.set(l, sr, whole);
            let regs = f.regs();
            let a = After { regs: regs.0, sr: regs.1, stop: f.stop().unwrap_or(core.stop()), mem: m2 };
            let none = Out::default();
            self.steps.push(format!("{{\"k\":\"s\",{},\"lg\":[],\"ffi\":{{\"k\":\"s\",{},\"lg\":[],\"same\":{}}}}}", obs_fields(&before, &after(core, mem), &none),
                obs_fields(&tb, &a, &none), f.views_agree() as u8));
            self.twin_regs = a.regs;
        }
    }
    /// A helper of the registers, called by the host (a step of kind h).
    pub fn helper(&mut self, core: &mut Core, mem: &mut Mem, q: &str, g: u8, x: u32) {
        BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let before = core.list();
        mem.begin();
        let r = core.regs_mut();
        let y = guarded(|| match q {
            "db" => { r.d_byte(g, x as u8); 0 },
            "dw" => { r.d_word(g, x as u16); 0 },
            "ra" => r.a(g),
            "wa" => { r.a_mut(g).0 = x; 0 },
            "sp" => r.sp(),
            _ => { r.sp_mut().0 = x; 0 },
        });
        let out = Out { panic: y.clone().err().unwrap_or_default(), ..Default::default() };
        if y.is_err() { self.dead = true; }
        self.steps.push(format!("{{\"k\":\"h\",\"q\":\"{q}\",\"g\":{g},\"x\":{},\"y\":{},{}}}", pair(x), pair(y.unwrap_or(0)), obs_fields(&before, &after(core, mem), &out)));
    }
    /// The core is replaced by its clone (a step of kind y).
    pub fn renew(&mut self, core: &mut Core, mem: &mut Mem) {
        let before = core.list();
        mem.begin();
        *core = core.clone();
        self.steps.push(format!("{{\"k\":\"y\",{}}}", obs_fields(&before, &after(core, mem), &Out::default())));
    }
    /// What the public decoder and disassembler say about the next instruction, added to the next step.
    pub fn public(&mut self, core: &Core, mem: &Mem) {
        use m68000::instruction::Instruction;
        use m68000::isa::Isa;
        use m68000::memory_access::MemoryAccess;
        let mut m = mem.clone();
        m.begin();
        let pc = core.regs().pc.0;
        let r = guarded(|| {
            let mut it = m.iter_u16(pc);
            match Instruction::from_memory(&mut it) {
                Ok(i) => {
                    let isa = Isa::from(i.opcode);
                    let t = i.disassemble();
                    let same = format!("{i}") == t;
                    format!("\"n\":\"{isa:?}\",\"o\":{},\"at\":{},\"to\":{},\"t\":{},\"same\":{}", i.opcode, pair(i.pc), pair(it.next_addr), esc(&t), same as u8)
                },
                Err(v) => format!("\"v\":{v}"),
            }
        });
        if let Ok(t) = r { self.extra = format!(",\"pub\":{{{t}}}"); }
    }
    pub fn request(&mut self, core: &mut Core, v: u8) {
        core.exception(v);
        match &mut self.twin { Twin::None => (), Twin::Dis(c, _) => c.exception(v), Twin::Ffi(f, _) => f.exception(v) }
        self.steps.push(format!("{{\"k\":\"x\",\"v\":{v},\"st\":{}}}", core.stop() as u8));
    }
    pub fn finish(self) -> String { format!("{{\"fr\":{},{}{}]}}", self.fresh as u8, self.head, self.steps.join(",")) }
    pub fn finish_with(self, extra: &str) -> String { format!("{{\"fr\":{},{}{}],{extra}}}", self.fresh as u8, self.head, self.steps.join(",")) }
}
