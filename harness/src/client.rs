//! A C program's side of the C interface: harness/c/client.c, compiled with the shipped headers and loaded from the file
//! named by --client.

use crate::mem::Mem;
use crate::trace::Out;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(file: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
}

#[repr(C)]
struct Host {
    memory: *mut c_void,
    read: extern "C" fn(*mut c_void, u32, c_int, *mut u32) -> c_int,
    write: extern "C" fn(*mut c_void, u32, c_int, u32) -> c_int,
    reset: extern "C" fn(*mut c_void),
}
#[repr(C)]
#[derive(Default)]
struct Res { cycles: usize, pc: u32, value: u32, vector: u8 }

struct Cpu {
    new: extern "C" fn(c_int) -> *mut c_void,
    delete: extern "C" fn(*mut c_void),
    set: extern "C" fn(*mut c_void, *const u32, u16, c_int),
    get: extern "C" fn(*mut c_void, *mut u32, *mut u16, c_int),
    exception: extern "C" fn(*mut c_void, c_int, *const c_char),
    call: extern "C" fn(*mut c_void, *mut Host, c_int, usize, *mut c_char, usize, *mut Res),
}
struct Client {
    cpus: [Cpu; 2],
    vector: extern "C" fn(usize, *mut c_int) -> *const c_char,
    instruction: extern "C" fn(*const c_void, *mut c_char, *mut u16, *mut u32),
    size: extern "C" fn(usize) -> usize,
    sr: extern "C" fn() -> u16,
}
static CLIENT: OnceLock<Client> = OnceLock::new();

pub fn load(file: &str) {
    let file = CString::new(file).unwrap();
    let lib = unsafe { dlopen(file.as_ptr(), 2) };
    assert!(!lib.is_null(), "the C client is not loaded");
    let sym = |n: String| {
        let c = CString::new(n.clone()).unwrap();
        let p = unsafe { dlsym(lib, c.as_ptr()) };
        assert!(!p.is_null(), "the C client has no {n}");
        p
    };
    macro_rules! get { ($($n:tt)*) => { unsafe { std::mem::transmute(sym(format!($($n)*))) } } }
    let cpu = |c: &str| Cpu { new: get!("client_{c}_new"), delete: get!("client_{c}_delete"), set: get!("client_{c}_set"), get: get!("client_{c}_get"),
        exception: get!("client_{c}_exception"), call: get!("client_{c}_call") };
    let c = Client { cpus: [cpu("mc68000"), cpu("scc68070")], vector: get!("client_vector"), instruction: get!("client_instruction"), size: get!("client_size"), sr: get!("client_default_sr") };
    assert!(CLIENT.set(c).is_ok());
}
pub fn loaded() -> bool { CLIENT.get().is_some() }
fn client() -> &'static Client { CLIENT.get().unwrap() }

/// The vectors the header names, with their numbers there.
pub fn vectors() -> Vec<(String, i32)> {
    (0..).map_while(|i| {
        let mut n = 0;
        let s = (client().vector)(i, &mut n);
        (!s.is_null()).then(|| (unsafe { CStr::from_ptr(s) }.to_str().unwrap().to_string(), n))
    }).collect()
}
pub fn sizes() -> Vec<usize> { (0..).map(|i| (client().size)(i)).take_while(|s| *s != 0).collect() }
pub fn default_sr() -> u16 { (client().sr)() }

/// What a C program reads in an instruction: opcode, address and description.
pub fn instruction(i: &m68000::instruction::Instruction) -> (u16, u32, String) {
    let mut buf = [0 as c_char; 512];
    let (mut op, mut pc) = (0, 0);
    (client().instruction)(i as *const _ as *const c_void, buf.as_mut_ptr(), &mut op, &mut pc);
    (op, pc, unsafe { CStr::from_ptr(buf.as_ptr()) }.to_str().unwrap().to_string())
}

fn mem<'a>(p: *mut c_void) -> &'a mut Mem { unsafe { &mut *(p as *mut Mem) } }
extern "C" fn read(m: *mut c_void, a: u32, size: c_int, v: *mut u32) -> c_int {
    match mem(m).read(a, size as u8) { Some(x) => { unsafe { *v = x }; 1 }, None => 0 }
}
extern "C" fn write(m: *mut c_void, a: u32, size: c_int, v: u32) -> c_int { mem(m).write(a, size as u8, v).is_some() as c_int }
extern "C" fn reset(m: *mut c_void) { mem(m).resets += 1; }

/// A core made and used by the C program.
pub struct Core(&'static Cpu, *mut c_void);
impl Core {
    pub fn new(cpu: u8, reset: bool) -> Core { let c = &client().cpus[cpu as usize]; Core(c, (c.new)(reset as c_int)) }
    pub fn set(&mut self, l: &[u32; 18], sr: u16, whole: bool) { (self.0.set)(self.1, l.as_ptr(), sr, whole as c_int) }
    pub fn regs(&self, how: i32) -> ([u32; 18], u16) {
        let (mut l, mut sr) = ([0; 18], 0);
        (self.0.get)(self.1, l.as_mut_ptr(), &mut sr, how);
        (l, sr)
    }
    pub fn exception(&mut self, v: u8) {
        // the C program names the vector
        let names = vectors();
        let name = NAMES.iter().find(|n| n.1 == v).expect("vector of the C enumeration").0;
        assert!(names.iter().any(|n| n.0 == name));
        let c = CString::new(name).unwrap();
        (self.0.exception)(self.1, v as c_int, c.as_ptr())
    }
    pub fn call(&mut self, m: &mut Mem, kind: char, n: usize, text: *mut c_char, len: usize) -> Out {
        let mut h = Host { memory: m as *mut Mem as *mut c_void, read, write, reset };
        let mut r = Res::default();
        (self.0.call)(self.1, &mut h, kind as c_int, n, text, len, &mut r);
        Out { cycles: r.cycles, vec: r.vector, addr: r.pc, val: r.value, ..Default::default() }
    }
}
impl Drop for Core { fn drop(&mut self) { (self.0.delete)(self.1) } }

pub const NAMES: [(&str, u8); 45] = [("ResetSspPc", 0), ("AccessError", 2), ("AddressError", 3), ("IllegalInstruction", 4), ("ZeroDivide", 5), ("ChkInstruction", 6),
    ("TrapVInstruction", 7), ("PrivilegeViolation", 8), ("Trace", 9), ("LineAEmulator", 10), ("LineFEmulator", 11), ("FormatError", 14), ("UninitializedInterrupt", 15),
    ("SpuriousInterrupt", 24), ("Level1Interrupt", 25), ("Level2Interrupt", 26), ("Level3Interrupt", 27), ("Level4Interrupt", 28), ("Level5Interrupt", 29),
    ("Level6Interrupt", 30), ("Level7Interrupt", 31), ("Trap0Instruction", 32), ("Trap1Instruction", 33), ("Trap2Instruction", 34), ("Trap3Instruction", 35),
    ("Trap4Instruction", 36), ("Trap5Instruction", 37), ("Trap6Instruction", 38), ("Trap7Instruction", 39), ("Trap8Instruction", 40), ("Trap9Instruction", 41),
    ("Trap10Instruction", 42), ("Trap11Instruction", 43), ("Trap12Instruction", 44), ("Trap13Instruction", 45), ("Trap14Instruction", 46), ("Trap15Instruction", 47),
    ("Level1OnChipInterrupt", 57), ("Level2OnChipInterrupt", 58), ("Level3OnChipInterrupt", 59), ("Level4OnChipInterrupt", 60), ("Level5OnChipInterrupt", 61),
    ("Level6OnChipInterrupt", 62), ("Level7OnChipInterrupt", 63), ("UserInterrupt", 64)];
