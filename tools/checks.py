"""Which recorded histories and which models decide each property."""

import re

ASSUME = ['the specification under /verif/spec states the MC68000 and SCC68070 correctly',
          'the harness records what the core did (registers read from its public fields, accesses logged by its memory)']

ARITH = 'Add Adda Addi Addq Addx Sub Suba Subi Subq Subx Cmp Cmpa Cmpi Cmpm Neg Negx Muls Mulu Divs Divu Abcd Sbcd Nbcd Ext Chk'
LOGIC = ('And Andi Or Ori Eor Eori Not Andiccr Oriccr Eoriccr Andisr Orisr Eorisr Asr Asm Lsr Lsm Roxr Roxm Ror Rom Btst Bchg Bclr Bset '
         'Tas Tst Clr Swap Exg Scc Move Movea Moveq Moveccr Movesr Movefsr')
FLOW = 'Bcc Bra Bsr Dbcc Jmp Jsr Rts Rtr Link Unlk Pea'
CALM = 'Nop Moveq Rte Stop Movesr Andisr Orisr Eorisr Moveusp Reset Trap Illegal Unknown Trapv Bra'
PRIV = 'Andisr Orisr Eorisr Movesr Moveusp Reset Rte Stop Moveusp'
RAISE = 'Trap Trapv Chk Divs Divu Illegal Unknown'
EAS = ('Add Sub Cmp And Or Eor Adda Cmpa Addq Subq Addi Cmpi Andi Neg Not Clr Tst Tas Move Movea Lea Pea Jmp Jsr Moveccr Movesr Movefsr Scc Asm Rom '
       'Btst Bset Chk Muls Divu Movem Nbcd Addx Abcd Cmpm Movep')

LIMIT = 420   # seconds after which a thorough check starts no further round


def names(s):
    return ','.join(s.split())


def single(n, which='', **opts):
    a = ['single', '--n', n]
    if which:
        a += ['--names', names(which)]
    if opts:
        a += ['--opts', ','.join('%s=%s' % kv for kv in opts.items())]
    return a


def only_panics(a):
    """Keeps the histories in which a call did not return (every other one is accepted by C24)."""
    return a + ['--only', 'panics']


def seq(n, cls):
    return ['seq', '--class', cls, '--n', n]


def batch(which, grid, n=1, **opts):
    """Grids of operand values, judged by Batch.tla."""
    a = ['batch', '--names', names(which), '--grid', grid, '--n', n]
    for k, v in opts.items():
        a += ['--' + k, v]
    return a


def grids(c, camps, seed):
    """Judges grids; the operand combinations are counted in the evidence."""
    for i in range(0, len(camps), 8):
        groups = c.record(camps[i:i + 8], seed + i)
        for args, lines in groups:
            for l in lines:
                c.notes['operand combinations'] = c.notes.get('operand combinations', 0) + int(re.match(r'.*?"n":(\d+)', l).group(1))
        c.judge(groups, module='Batch.tla', cfg='Batch.cfg')
        if c.bad:
            return


def rounds(quick, thorough=None, times=40, spec='Trace', grid=(), full=(), paths=(), how='ie', deep=5):
    """A check made of campaigns judged by Trace.tla (or another module of the specification), and of operand grids:
    grid is judged in both tiers, full in the thorough one.  paths are the closed models whose paths are replayed, how
    the ways to replay them."""
    def run(c):
        if paths:
            c.judge(c.models(['MC' + m for m in paths], 4, how, 5000), module=spec + '.tla', cfg=spec + '.cfg')
            if c.tier != 'quick' and not c.bad:
                for m in paths:
                    c.judge(c.models(['MC' + m], deep, how, 60000, workers=8), module=spec + '.tla', cfg=spec + '.cfg')
        if grid and not c.bad:
            grids(c, list(grid), c.seed * 7919)
        for k, g in enumerate(full if c.tier != 'quick' else ()):
            if not c.bad:
                grids(c, [g], c.seed * 7919 + 100 + k)
        camps = quick if c.tier == 'quick' else (thorough or quick)
        r = 0
        while not c.bad:
            groups = c.record(camps, c.seed * 1000003 + r * 101)
            c.judge(groups, module=spec + '.tla', cfg=spec + '.cfg')
            r += 1
            if c.tier == 'quick' or c.bad or r >= times or c.elapsed() > LIMIT:
                break
    return run


def loops(n, cls):
    return ['loops', '--class', cls, '--n', n]


def ffi(n, cls):
    return ['ffi', '--class', cls, '--n', n]


def slices(n):
    return ['slices', '--n', n]


def asm():
    return ['asm']


def sr(n):
    return ['sr', '--n', n]


def crash(quick):
    """C24: the histories of the known findings, then campaigns in which the process must survive."""
    camp = rounds(quick)

    def run(c):
        args = ['known']
        lines = c.harness(args)
        c.judge([(args, lines)])
        for cpu in (0, 1):
            if c.hangs(['hang', '--seed', cpu]):
                c.known.append(('no progress', '"cycle() with an odd SSP and an odd PC, cpu %d"' % cpu, ['hang']))
        camp(c)
    return run




def headers(n):
    """C30: the C program of harness/c plays the histories of C23, and tells what it reads in instructions and enumerations."""
    def run(c):
        so = c.client()
        if not so:
            return
        so = ['--client', so]
        c.judge(c.record([['headers'] + so], c.seed), module='Helpers.tla', cfg='Helpers.cfg')
        c.judge(c.record([['operands', '--n', 1] + so], c.seed), module='Operands.tla', cfg='Operands.cfg')
        if c.bad:
            return
        deep = 4 if c.tier == 'quick' else 5
        c.judge(c.models(['MC' + m for m in ('excs', 'ints', 'user', 'faults')], deep, 'f', 4000 if c.tier == 'quick' else 60000, extra=so), module='Ffi.tla', cfg='Ffi.cfg')
        rounds([ffi(n, k) + so for k in ('mixed', 'faults', 'stop', 'reset', 'ints')], spec='Ffi')(c)
    return run


def programs(n):
    """C31: the programs of m68000/src/bin."""
    def run(c):
        d = c.tools()
        c.judge([(['decoder'], c.regenerated(d))], module='Helpers.tla', cfg='Helpers.cfg')
        for k in range(1 if c.tier == 'quick' else 30):
            camps = [['listing', '--n', n, '--tool', d + '/disassemble', '--dir', '%s/../../listing-%d' % (d, i)] for i in range(4)]
            c.judge(c.record(camps, c.seed * 7919 + 10 * k), module='Listing.tla', cfg='Listing.cfg')
            if c.bad or c.elapsed() > LIMIT:
                break
    return run


def boards(n):
    """C32: the scc68070 programs, of the Rust library and of the C interface."""
    def run(c):
        d = c.tools()
        for k in range(1 if c.tier == 'quick' else 12):
            camps = [['board', '--n', n, '--tool', d + '/scc68070' + ('_ffi' if i > 3 else ''), '--dir', '%s/../../board-%d' % (d, i)] for i in range(6)]
            if k == 0:
                camps[:0] = [['board', '--class', 'long', '--n', 1, '--tool', d + '/scc68070' + p, '--dir', d + '/../../board-long' + p] for p in ('', '_ffi')]
            c.judge(c.record(camps, c.seed * 7919 + 10 * k), module='Board.tla', cfg='Board.cfg')
            if c.bad or c.elapsed() > LIMIT:
                break
    return run


def ops(**opts):
    return ['ops', '--opts', ','.join('%s=%s' % kv for kv in opts.items())]


CHECKS = {
    'C01': rounds([ops(public=1, trace=0)]),
    'C02': rounds([single(60000, ARITH)],
                  grid=[batch(ARITH, '16.16.4'), batch('Add Sub Cmp', '256.256.1', sizes='1', modes='0'), batch('Addx Subx', '256.256.4', sizes='1'),
                        batch('Abcd Sbcd', '64.64.4'), batch('Nbcd Neg Negx', '1.256.32', sizes='1'), batch('Divs Divu Muls Mulu', '40.60.1', modes='0')],
                  full=[batch('Abcd Sbcd', '256.256.4'), batch('Add Addi Sub Subi', '256.256.2', sizes='1'), batch('Cmp Cmpi Cmpm', '256.256.2', sizes='1'),
                        batch('Ext Negx Neg', '256.256.2', sizes='24'), batch('Addq Subq', '1.256.2', sizes='1', n=12), batch(ARITH, '60.60.4'),
                        batch('Divs Divu Muls Mulu', '300.300.1', modes='0'), batch('Chk', '200.200.4')]),
    'C03': rounds([single(60000, LOGIC)],
                  grid=[batch(LOGIC, '12.12.2'), batch('Asr Lsr Roxr Ror', '64.128.2', sizes='1'), batch('Not Tst Clr Tas Scc', '1.256.32', sizes='1'),
                        batch('Asr Lsr Roxr Ror', '64.40.2', sizes='24')],
                  full=[batch('And Or Eor Andi Ori Eori', '256.256.1', sizes='1'), batch('Andiccr Oriccr Eoriccr Andisr Orisr Eorisr Moveccr Movesr', '256.1.8'),
                        batch('Asr Lsr Roxr Ror', '64.256.4'), batch('Asm Lsm Roxm Rom Tst Not', '1.256.32', sizes='24', n=2), batch('Btst Bchg Bclr Bset', '256.64.2', n=3),
                        batch(LOGIC, '40.40.4', n=2)]),
    'C04': rounds([single(60000, EAS, odd=0)]),
    'C05': rounds([single(60000), single(10000, 'Exg Link Unlk Movea Adda Suba Addq Subq Lea Movep Movem Ext Swap Dbcc Cmpm Addx Abcd', user=10), seq(2000, 'mixed')], paths=['user']),
    'C06': rounds([single(30000, odd=6), single(30000, fault=16, odd=2), single(8000, fault=16, code=1), seq(3000, 'faults')], paths=['faults']),
    'C07': rounds([single(60000, FLOW)], grid=[batch('Bcc Bra Dbcc', '16.8.32', n=2)], full=[batch('Bcc Bra Dbcc', '24.8.32', n=12)]),
    'C08': rounds([single(40000, 'Movem Movep')]),
    'C09': rounds([single(20000, user=13), single(30000, PRIV, user=8), seq(4000, 'user')],
                  grid=[batch('Andiccr Oriccr Eoriccr Andisr Orisr Eorisr Moveccr Movesr', '20.1.2', mode='user')],
                  full=[batch('Andiccr Oriccr Eoriccr Andisr Orisr Eorisr Moveccr Movesr', '256.1.2', mode='user')], paths=['user', 'excs']),
    'C10': rounds([single(20000, CALM + ' Chk Divu', pending=8, more=1), seq(60, 'crowd'), seq(3000, 'mixed'), seq(3000, 'faults'), seq(3000, 'ints')], paths=['excs', 'faults', 'ints']),
    'C11': rounds([single(30000, 'Rte'), seq(4000, 'mixed'), seq(200, 'long')], paths=['excs', 'user']),
    'C12': rounds([seq(6000, 'ints'), seq(3000, 'quiet'), seq(3000, 'mixed'), seq(120, 'crowd'), seq(150, 'long')], paths=['ints', 'faults']),
    'C13': rounds([seq(12000, 'reset')], paths=['ints', 'faults']),
    'C14': rounds([seq(12000, 'stop')], paths=['ints', 'excs']),
    'C15': rounds([seq(9000, 'trace'), single(20000, trace=12)], paths=['excs']),
    'C16': rounds([['lasso', '--n', 100]] + [loops(3000, k) for k in ('mixed', 'stop', 'ints', 'faults', 'trace')], spec='Loops'),
    'C17': rounds([single(60000), single(10000, pending=12), seq(2000, 'mixed')]),
    'C18': rounds([ops(alt=1, kinds='e'), seq(4000, 'twin'), single(15000, alt=1, fault=6, odd=3, kinds='eeei', more=1)], paths=['excs', 'user'], how='d'),
    'C19': rounds([asm()], spec='Asm'),
    'C20': rounds([ops(kinds='D', trace=0), single(30000, kinds='D', public=1, trace=0), single(8000, kinds='D')]),
    'C21': rounds([sr(2000)], spec='Sr'),
    'C22': rounds([slices(16000)], spec='Slices'),
    'C23': rounds([ffi(3000, k) for k in ('mixed', 'faults', 'stop', 'reset', 'ints')] + [ffi(100, 'long')], spec='Ffi', paths=['excs', 'ints', 'user', 'faults'], how='f'),
    'C24': crash([single(30000, fault=14, code=1, odd=4, more=1, pending=4), seq(5000, 'faults'), only_panics(seq(20000, 'mixed'))]
                 + [only_panics(single(150000, w, trace=0)) for w in ('', ARITH, LOGIC, 'Divs Divu Chk Btst Bchg Bclr Bset Asr Lsr Ror Roxr Movem Movep')]
                 + [only_panics(single(150000, odd=8, fault=12))]),
    'C25': rounds([single(40000, RAISE, trace=0), single(15000, RAISE), single(20000, trace=0)], grid=[batch('Chk Trapv', '24.24.2'), batch('Divs Divu', '40.40.2')],
                  full=[batch('Chk Divs Divu', '200.200.2')]),
    'C26': rounds([['ops', '--opts', 'trace=0', '--models', 2], single(40000, trace=0) + ['--models', 2], single(20000, ARITH + ' ' + LOGIC) + ['--models', 2],
                   single(15000, CALM, pending=8, more=1) + ['--models', 2], seq(2000, 'mixed') + ['--models', 2], seq(2000, 'faults') + ['--models', 2], seq(2000, 'mixed') + ['--models', 4],
                   single(20000, CALM, trace=0) + ['--models', 4], single(10000, trace=0) + ['--models', 4]]),
    'C27': rounds([['operands', '--n', 2]], spec='Operands'),
    'C28': rounds([['host', '--n', 12000]]),
    'C30': headers(1500),
    'C31': programs(250),
    'C32': boards(6),
    'C29': rounds([['helpers', '--n', 60]], spec='Helpers'),
}

WHY_NOT = {}
TECHNIQUE = {}
NOTE = ('Every recorded step of the real core (both CPU models) is checked by TLC to be a step of the TLA+ machine, in registers, status register, memory '
        'accesses, cycles and exceptions; inputs are sampled over all opcodes and boundary values. Trusts the specification and the recording harness.')
NOTES = {}
