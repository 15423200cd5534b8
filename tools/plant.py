#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: plant.py SEEDS.py [id...]
SEEDS.py defines SEEDS: list of dicts id, property, needs, what_it_breaks, edits [(file, old, new)], demo (Rust main body).
Writes /verif/seeded/<id>/ when the change builds, passes the stable tests, and the demo tells it from the original."""
import json, os, shutil, subprocess, sys
S = '/tmp/plant'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly-2025-10-03')

DEMO_SH = '''#!/bin/sh
# Runs the demonstration beside this script against the m68000 crate of the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
m68000 = { path = "$repo/m68000", features = ["ffi"] }
m68000-ffi = { path = "$repo/m68000-ffi" }
[profile.dev]
incremental = false
EOF
export CARGO_NET_OFFLINE=true
if [ -z "$RUSTUP_TOOLCHAIN" ]; then RUSTUP_TOOLCHAIN=nightly-2025-10-03; export RUSTUP_TOOLCHAIN; fi
cd "$work"
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 2; }
exec_status=0
timeout 60 "$work/target/debug/demo" || exec_status=$?
exit $exec_status
'''

# A C program against the headers (demo_c), or a script of its own (demo_sh)
DEMO_C = '''#!/bin/sh
# Compiles the C program beside this script with the headers of the current directory, and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export CARGO_NET_OFFLINE=true
if [ -z "$RUSTUP_TOOLCHAIN" ]; then RUSTUP_TOOLCHAIN=nightly-2025-10-03; export RUSTUP_TOOLCHAIN; fi
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet --lib --manifest-path "$repo/m68000-ffi/Cargo.toml" 2> "$work/log" || { cat "$work/log"; exit 2; }
gcc -w -I "$repo/include" "$here/demo.c" "$work/target/debug/libm68000_ffi.a" -lpthread -ldl -lm -o "$work/demo" || exit 3
exec_status=0
timeout 60 "$work/demo" || exec_status=$?
exit $exec_status
'''

PRELUDE = '''#![allow(unused_imports, dead_code)]
use m68000::addressing_modes::*;
use m68000::assembler as asm;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::{Exception, Vector};
use m68000::instruction::{Direction, Size};
use m68000::status_register::StatusRegister;
use m68000::{MemoryAccess, M68000};

/// 64 KB of memory; the words are at 0x1000, where PC is.
fn memory(words: &[u16]) -> Vec<u8> {
    let mut m = vec![0u8; 0x10000];
    for v in 0..256 { put(&mut m, v * 4 + 2, 0x8000 + v as u16 * 16); }
    for (i, w) in words.iter().enumerate() { put(&mut m, 0x1000 + 2 * i, *w); }
    m
}
fn put(m: &mut [u8], a: usize, w: u16) { m[a] = (w >> 8) as u8; m[a + 1] = w as u8; }
fn get(m: &[u8], a: usize) -> u16 { (m[a] as u16) << 8 | m[a + 1] as u16 }
fn core() -> M68000<Mc68000> {
    let mut c = M68000::<Mc68000>::new_no_reset();
    c.regs.pc.0 = 0x1000;
    c.regs.ssp.0 = 0x4000;
    c.regs.usp.0 = 0x5000;
    c
}
fn core2() -> M68000<Scc68070> {
    let mut c = M68000::<Scc68070>::new_no_reset();
    c.regs.pc.0 = 0x1000;
    c.regs.ssp.0 = 0x4000;
    c.regs.usp.0 = 0x5000;
    c
}
fn sr(w: u16) -> StatusRegister { StatusRegister::from(w) }

'''


def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(d):
    rc, out = run(['cargo', 'test', '--offline', '--workspace', '--quiet', '--features', 'm68000/ffi'], d)
    if rc != 0:
        rc, out = run(['cargo', 'test', '--offline', '--workspace', '--quiet'], d)
    return rc, out


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.isdir(S):
        subprocess.check_call(['cp', '-a', '/repo', S])
    for s in ns['SEEDS']:
        if want and s['id'] not in want:
            continue
        subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
        d = os.path.join('/tmp/plantdemo', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(s.get('demo_sh') or (DEMO_C if 'demo_c' in s else DEMO_SH))
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo_c' in s:
            open(d + '/demo.c', 'w').write(s['demo_c'])
        elif 'demo' in s:
            open(d + '/demo.rs', 'w').write(PRELUDE + s['demo'])
        rc, out = run(['sh', d + '/demo.sh'], S)
        if rc != 0:
            print(s['id'], 'DEMO FAILS ON THE ORIGINAL', rc, out[-1500:])
            continue
        ok = True
        for f, old, new, *nth in s['edits']:
            p = os.path.join(S, 'm68000/src', f) if not f.startswith(('m68000-ffi', 'include')) else os.path.join(S, f)
            t = open(p).read()
            if f == 'decoder.rs':   # old is an opcode, new the Isa name
                k = t.index('= [\n') + 4
                pos, i = k, 0
                while i < old:
                    pos = t.index(',', pos) + 1
                    i += 1
                end = t.index(',', pos)
                lead = len(t[pos:end]) - len(t[pos:end].lstrip())
                t = t[:pos + lead] + new + t[end:]
                open(p, 'w').write(t)
                continue
            if (t.count(old) != 1 and not nth) or t.count(old) == 0:
                print(s['id'], 'edit matches', t.count(old), 'times:', old[:60])
                ok = False
                break
            if nth:
                parts = t.split(old)
                t = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
        if not ok:
            continue
        rc, out = tests(S)
        if rc != 0:
            print(s['id'], 'TESTS FAIL', out[-1500:])
            continue
        rc, out = run(['sh', d + '/demo.sh'], S)
        if rc in (0, 2):
            print(s['id'], 'DEMO DOES NOT FAIL', rc, out[-500:])
            continue
        diff = subprocess.check_output(['git', '-C', S, 'diff'])
        t = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded', s['id'])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        open(t + '/patch.diff', 'wb').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(t + '/meta.json', 'w'), indent=1)
        print(s['id'], 'kept')
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])


main()
