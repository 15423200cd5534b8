#!/usr/bin/env python3
"""Writes the timing table of the specification with two more CPU models, whose constants all differ, and those models for the
harness.  The first two columns of spec/TimingTable.tla are the source."""
import hashlib, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, 'spec', 'TimingTable.tla')
rows = re.findall(r'(\w+) \|-> <<(\d+), (\d+)', open(P).read())


def odd(name, k):
    return 10000 + int(hashlib.sha256(('%s %d' % (name, k)).encode()).hexdigest(), 16) % 900000


vals = {n: (a, b, odd(n, 2), odd(n, 3)) for n, a, b in rows}
assert len({v for t in vals.values() for v in t[2:]}) == 2 * len(rows)
body = ', '.join('%s |-> <<%s, %s, %d, %d>>' % ((n,) + vals[n]) for n, _, _ in rows)
lines, cur = [], '  '
for e in re.findall(r'\w+ \|-> <<[^>]*>>,?', body):
    if len(cur) + len(e) > 112:
        lines.append(cur.rstrip())
        cur = '  '
    cur += e + ' '
lines.append(cur.rstrip())
with open(P, 'w') as f:
    f.write('''---------------------------- MODULE TimingTable ----------------------------
(***************************************************************************)
(* The instruction times: <<MC68000, SCC68070, third, fourth>>.            *)
(* MC68000: M68000 8-/16-/32-Bit Microprocessors User's Manual, section 8, *)
(* reviewed from memory of that manual.  SCC68070: as the library          *)
(* documents them (cpu_details).  The third and fourth models are made up: *)
(* every constant differs from all others, so that which one an            *)
(* instruction takes can be told (C26); their columns are written by       *)
(* tools/mkdetails.py.                                                     *)
(***************************************************************************)
T == [
''' + '\n'.join(lines) + '\n]\n' + '=' * 77 + '\n')
with open(os.path.join(V, 'harness', 'src', 'details.rs'), 'w') as f:
    f.write('//! Two made-up CPU models whose constants all differ, and the built-in ones with their stack formats exchanged\n//! (written by tools/mkdetails.py).\n\nuse m68000::cpu_details::{Mc68000, Scc68070};\nuse m68000::{CpuDetails, StackFormat};\n')
    for k, name, fmt, base, step in ((2, 'Third', 'MC68000', 1000003, 7919), (3, 'Fourth', 'SCC68070', 2000003, 104729)):
        f.write('\n#[derive(Clone, Debug, Default)]\npub struct %s;\nimpl CpuDetails for %s {\n    const STACK_FORMAT: StackFormat = StackFormat::%s;\n'
                '    fn vector_execution_time(vector: u8) -> usize { %d + %d * vector as usize }\n' % (name, name, fmt, base, step))
        for n, _, _ in rows:
            f.write('    const %s: usize = %d;\n' % (n, vals[n][k]))
        f.write('}\n')
    for name, fmt, of in (('Fifth', 'MC68000', 'Scc68070'), ('Sixth', 'SCC68070', 'Mc68000')):
        f.write('\n#[derive(Clone, Debug, Default)]\npub struct %s;\nimpl CpuDetails for %s {\n    const STACK_FORMAT: StackFormat = StackFormat::%s;\n'
                '    fn vector_execution_time(vector: u8) -> usize { %s::vector_execution_time(vector) }\n' % (name, name, fmt, of))
        for n, _, _ in rows:
            f.write('    const %s: usize = %s::%s;\n' % (n, of, n))
        f.write('}\n')
