#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [quick|thorough], run.py setup, run.py replay <file>."""
import concurrent.futures, glob, hashlib, itertools, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
SPEC = os.path.join(V, 'spec')
TARGET = os.path.join(B, 'target')
HARNESS = os.path.join(TARGET, 'debug', 'harness')
TABLE = os.path.join(B, 'decode.ndjson')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = 4

sys.path.insert(0, os.path.join(V, 'tools'))


class Broken(Exception):
    """The machinery itself could not give an answer."""


def sh(cmd, timeout, env=None, cwd=V):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


# ---------------------------------------------------------------- building

def digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'm68000'), os.path.join(REPO, 'm68000-ffi'), os.path.join(V, 'harness')):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    os.makedirs(B, exist_ok=True)
    stamp = os.path.join(B, 'stamp')
    now = digest()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old == now and os.path.exists(HARNESS):
        return now
    env = {'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': TARGET, 'RUSTUP_TOOLCHAIN': 'nightly-2025-10-03'}
    cwd = os.path.join(V, 'harness')
    if os.path.exists(TARGET):
        # the file times of a copied tree mean nothing
        sh(['cargo', 'clean', '--offline', '-p', 'm68000', '-p', 'm68000-ffi', '-p', 'harness'], 120, env, cwd)
    rc, out = sh(['cargo', 'build', '--offline'], 800, env, cwd)
    if rc != 0:
        print(out[-6000:])
        raise Broken('the harness does not build against /repo')
    with open(stamp, 'w') as f:
        f.write(now)
    return now


CLIENT = os.path.join(B, 'client.so')


def client():
    """Compiles the C program of harness/c against the shipped headers; returns the errors of the compiler."""
    d = os.path.join(B, 'c')
    os.makedirs(d, exist_ok=True)
    for f, text in (('none.c', 'int none;\n'), ('alone.c', '#include "m68000/m68000-ffi.h"\n'), ('alone.cpp', '#include "m68000/m68000-ffi.h"\n')):
        with open(os.path.join(d, f), 'w') as fh:
            fh.write(text)
    inc = ['-I', os.path.join(REPO, 'include')]
    if sh(['gcc', '-c', 'none.c', '-o', 'none.o'], 60, cwd=d)[0] != 0:
        raise Broken('gcc does not work')
    # a program which includes nothing else, in C and in C++
    for cmd in (['gcc', '-fsyntax-only', *inc, 'alone.c'], ['g++', '-fsyntax-only', *inc, 'alone.cpp']):
        rc, out = sh(cmd, 60, cwd=d)
        if rc != 0:
            return ' '.join(cmd) + '\n' + out[-2000:]
    libs = sorted(glob.glob(os.path.join(TARGET, 'debug', 'deps', 'libm68000_ffi-*.a')), key=os.path.getmtime)
    if not libs:
        raise Broken('the static library of m68000-ffi is not there')
    rc, out = sh(['gcc', '-std=c11', '-O1', '-shared', '-fPIC', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion',
                  *inc, os.path.join(V, 'harness', 'c', 'client.c'), libs[-1], '-o', CLIENT], 120, cwd=d)
    return '' if rc == 0 else 'client.c: ' + out[-2000:]


def tools():
    """Builds the programs of /repo/m68000/src/bin; returns their folder."""
    env = {'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': os.path.join(B, 'tools'), 'RUSTUP_TOOLCHAIN': 'nightly-2025-10-03'}
    cwd = os.path.join(V, 'harness', 'tools')
    stamp = os.path.join(B, 'tools.stamp')
    now = digest()
    d = os.path.join(B, 'tools', 'debug')
    if os.path.exists(stamp) and open(stamp).read() == now:
        return d
    if os.path.exists(os.path.join(B, 'tools')):
        sh(['cargo', 'clean', '--offline', '-p', 'm68000', '-p', 'm68000-ffi', '-p', 'tools'], 120, env, cwd)
    rc, out = sh(['cargo', 'build', '--offline'], 600, env, cwd)
    if rc != 0:
        raise Broken('the programs do not build: ' + out[-3000:])
    with open(stamp, 'w') as f:
        f.write(now)
    return d


def regenerate(d):
    """Runs the decoder generator in a scratch folder and compiles what it writes; returns (rows, error)."""
    r = os.path.join(B, 'regen')
    shutil.rmtree(r, ignore_errors=True)
    os.makedirs(r)
    try:
        rc, out = sh([os.path.join(d, 'decoder')], 120, cwd=r)
    except subprocess.TimeoutExpired:
        return [], 'the decoder generator did not end'
    if rc != 0 or not os.path.exists(os.path.join(r, 'decoder.rs')):
        return [], 'the decoder generator failed (status %d): %s' % (rc, out[-1500:])
    env = {'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': os.path.join(B, 'tools'), 'RUSTUP_TOOLCHAIN': 'nightly-2025-10-03'}
    cwd = os.path.join(V, 'harness', 'regen')
    sh(['cargo', 'clean', '--offline', '-p', 'regen'], 120, env, cwd)
    rc, out = sh(['cargo', 'build', '--offline'], 600, env, cwd)
    if rc != 0:
        return [], 'what the decoder generator writes does not compile: ' + out[-1500:]
    rc, out = sh([os.path.join(d, 'regen')], 60)
    return out.splitlines(), '' if rc == 0 else out[-1500:]


def tlc(module, cfg, env, name, workers=2, heap='5g', timeout=800, extra=()):
    """Starts TLC; returns (process, log path)."""
    md = os.path.join(B, 'md', name)
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    log = os.path.join(B, 'log', name + '.txt')
    os.makedirs(os.path.dirname(log), exist_ok=True)
    e = dict(os.environ)
    e.update(env)
    f = open(log, 'w')
    p = subprocess.Popen(['timeout', str(timeout), 'java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + md, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
                          '-metadir', md, '-noGenerateSpecTE', '-config', cfg, *extra, module], cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
    return p, log


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc_wait(jobs):
    """Waits for TLC processes; returns (texts, states, transitions, list of (name, error text))."""
    texts, st, gen, errs = [], 0, 0, []
    for name, (p, log) in jobs:
        rc = p.wait()
        text = open(log, errors='replace').read()
        texts.append((name, text))
        m = STATES.findall(text)
        if m:
            gen += int(m[-1][0])
            st += int(m[-1][1])
        if rc != 0:
            errs.append((name, rc, text))
        shutil.rmtree(os.path.join(B, 'md', name), ignore_errors=True)
    return texts, st, gen, errs


def table():
    """The decode table, written from the specification."""
    h = hashlib.sha256()
    for f in ('Words', 'Decode', 'GenDecode'):
        h.update(open(os.path.join(SPEC, f + '.tla'), 'rb').read())
    stamp = TABLE + '.stamp'
    if os.path.exists(TABLE) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    tmp = os.path.join(B, 'decode.tmp.ndjson')
    _, _, _, errs = tlc_wait([('gen', tlc('GenDecode.tla', 'GenDecode.cfg', {'OUT': tmp}, 'gen'))])
    if errs or not os.path.exists(tmp):
        raise Broken('the decode table was not written: ' + (errs[0][2][-2000:] if errs else ''))
    os.replace(tmp, TABLE)
    with open(stamp, 'w') as f:
        f.write(h.hexdigest())


MODELS = ('MCints', 'MCexcs', 'MCfaults', 'MCuser')


def needed(files):
    """The modules of the specification that files are made of."""
    done, todo = set(), list(files)
    while todo:
        f = todo.pop()
        if f in done or not os.path.exists(os.path.join(SPEC, f)):
            continue
        done.add(f)
        for l in re.findall(r'(?:EXTENDS|INSTANCE)\s+([\w, ]+)', open(os.path.join(SPEC, f)).read()):
            todo += [x.strip() + '.tla' for x in l.split(',')]
    return sorted(done)


def models(names, depth, workers=2, timeout=850):
    """Runs closed models (spec/MC.tla) and keeps their paths, one per line, as /verif/harness replays them.
    The result depends on the specification only, and is kept in build/ until that changes.
    Returns {name: {'paths', 'lines', 'states', 'transitions', 'wrong'}}."""
    h = hashlib.sha256()
    for f in needed([m + '.tla' for m in MODELS]) + sorted(os.path.basename(f) for f in glob.glob(os.path.join(SPEC, 'MC*.cfg'))):
        h.update(open(os.path.join(SPEC, f), 'rb').read())
    d = os.path.join(B, 'models')
    os.makedirs(d, exist_ok=True)
    out, jobs = {}, []
    for m in names:
        f = os.path.join(d, '%s-%d' % (m, depth))
        if os.path.exists(f + '.json'):
            r = json.load(open(f + '.json'))
            if r['spec'] == h.hexdigest():
                out[m] = r
                continue
        name = '%s-%d-%d' % (m, depth, os.getpid())
        jobs.append((m, f, name, tlc(m + '.tla', m + '.cfg', {'DEPTH': str(depth), 'PATHS': '1'}, name, workers=workers, timeout=timeout, heap='6g')))
    for m, f, name, j in jobs:
        _, st, gen, errs = tlc_wait([(name, j)])
        paths, wrong = set(), []
        with open(j[1], errors='replace') as fh:
            for l in fh:
                if l.startswith('"PATH '):
                    x = json.loads(json.loads(l)[5:])
                    acts = ['x%d' % a[1] if a[0] == 'x' else 's%d:%s' % (a[2][0] * 65536 + a[2][1], '.'.join(map(str, a[1]))) for a in x['h'][1:]]
                    paths.add('%d %s %d ' % (x['c'], ','.join(map(str, x['b'])) or '-', x['h'][0]) + ' '.join(acts))
                elif l.startswith('/\\ wrong = {"'):
                    wrong.append(l.strip())
        os.remove(j[1])
        if errs and not wrong:
            raise Broken('the model %s could not be checked (%d)' % (m, errs[0][1]))
        paths = sorted(paths)
        keep = [p for i, p in enumerate(paths) if not (i + 1 < len(paths) and paths[i + 1].startswith(p + ' '))]
        with open(f + '.paths', 'w') as fh:
            fh.write('\n'.join(keep) + '\n')
        out[m] = {'spec': h.hexdigest(), 'paths': f + '.paths', 'lines': len(keep), 'states': st, 'transitions': gen, 'wrong': wrong, 'depth': depth}
        with open(f + '.json', 'w') as fh:
            json.dump(out[m], fh)
    return out


# ---------------------------------------------------------------- checking

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.bad, self.known = [], []
        self.states = self.trans = self.traces = self.steps = 0
        self.samples, self.campaigns, self.notes = [], [], {}
        self.counter = itertools.count(1)

    def record(self, camps, seed):
        """Runs several campaigns at once; returns (args, lines) for each."""
        args = [a + ['--seed', seed + k] for k, a in enumerate(camps)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            got = list(ex.map(self.harness, args))
        for a, lines in zip(args, got):
            self.campaigns.append({'args': ' '.join(str(x) for x in a), 'traces': len(lines)})
        return list(zip(args, got))

    def harness(self, args, timeout=300):
        """Runs the harness; returns the lines it wrote."""
        out = os.path.join(B, 'traces', '%s-%d.ndjson' % (self.pid, next(self.counter)))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cmd = [HARNESS, *[str(a) for a in args], '--table', TABLE, '--out', out]
        try:
            rc, text = sh(cmd, timeout)
        except subprocess.TimeoutExpired:
            rc, text = -1, 'the harness did not end'
        lines = []
        if os.path.exists(out):
            with open(out) as f:
                lines = f.read().splitlines()
            os.remove(out)
        if rc != 0:
            # the code under test hung or brought the process down
            self.bad.append({'what': 'the code under test hung or crashed the process (status %d)' % rc, 'output': text[-1500:], 'harness': [str(a) for a in args]})
            return lines[:-1]
        return lines

    def hangs(self, args):
        """Whether a call of the code under test does not end (the harness watches the time)."""
        rc, text = sh([HARNESS, *[str(a) for a in args], '--out', '/dev/null'], 120)
        if rc == 42:
            return True
        if rc != 0:
            self.bad.append({'what': 'the code under test crashed the process (status %d)' % rc, 'output': text[-1500:], 'harness': [str(a) for a in args]})
        return False

    def judge(self, groups, module='Trace.tla', cfg='Trace.cfg', pid=None, timeout=800):
        """Has TLC check recorded histories: groups is a list of (harness args, lines)."""
        items = [(args, l) for args, ls in groups for l in ls]
        if not items:
            return
        k = min(SHARDS, max(1, len(items) // (500 if module != 'Batch.tla' else 4)))
        shards = [items[i::k] for i in range(k)]
        jobs = []
        os.makedirs(os.path.join(B, 'traces'), exist_ok=True)
        for i, s in enumerate(shards):
            f = os.path.join(B, 'traces', '%s-shard%d.ndjson' % (self.pid, i))
            with open(f, 'w') as fh:
                fh.write('\n'.join(l for _, l in s) + '\n')
            name = '%s-%d' % (self.pid, i)
            jobs.append((name, tlc(module, cfg, {'TRACE': f, 'PID': pid or self.pid}, name, workers=max(2, 8 // k), timeout=timeout, heap='6g' if k > 1 else '12g')))
        texts, st, gen, errs = tlc_wait(jobs)
        self.states += st
        self.trans += max(0, gen - len(items))
        self.traces += len(items)
        for i, (name, text) in enumerate(texts):
            for line in text.splitlines():
                m = re.match(r'^"(BAD|KNOWN) (.*)"$', line.strip())
                if not m:
                    continue
                row = json.loads(m.group(2).replace('\\"', '"'))
                args, l = shards[i][row[0] - 1]
                if m.group(1) == 'KNOWN':
                    self.known.append((row[2], l, args))
                else:
                    self.bad.append({'what': row[2:], 'step': row[1], 'trace': json.loads(l), 'module': module, 'harness': [str(a) for a in args]})
        for name, rc, text in errs:
            tail = text[-3000:]
            if 'OutOfMemory' in text or rc in (124, 137, 143) or 'Error:' not in text:
                raise Broken('TLC failed (%d): %s' % (rc, tail))
            self.bad.append({'what': 'a recorded history cannot be evaluated by the specification', 'output': tail})
        for s in shards[0][:1]:
            if len(self.samples) < 6:
                self.samples.append(json.loads(s[1]))
        for i in range(k):
            os.remove(os.path.join(B, 'traces', '%s-shard%d.ndjson' % (self.pid, i)))

    def models(self, names, depth, how, limit, workers=2, extra=()):
        """Checks closed models and replays their paths (at most limit) into the real core."""
        got = models(names, depth, workers)
        total = sum(r['lines'] for r in got.values())
        every = max(1, total // (limit // len(how)))
        rec = self.notes.setdefault('closed models', {})
        camps = []
        for m, r in sorted(got.items()):
            rec['%s, %d transitions deep' % (m, depth)] = {'states': r['states'], 'transitions': r['transitions'], 'paths': r['lines'], 'replayed': '1 in %d' % every}
            for w in r['wrong']:
                self.bad.append({'what': 'the specification violates %s in %s' % (w, m)})
            camps += [['replay', '--paths', r['paths'], '--how', h, '--every', every, *extra] for h in how]
        return self.record(camps, self.seed)

    def tools(self):
        return tools()

    def regenerated(self, d):
        rows, error = regenerate(d)
        if error:
            self.bad.append({'what': error})
        return rows

    def client(self):
        """The C program, compiled; None when the headers do not serve it."""
        errors = client()
        if errors:
            self.bad.append({'what': 'a C program does not compile with the shipped headers', 'output': errors})
            return None
        return CLIENT

    def elapsed(self):
        return time.time() - self.t0


def replay_file(c):
    d = os.path.join(B, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % c.pid)
    with open(p, 'w') as f:
        json.dump({'property': c.pid, 'seed': c.seed, 'tier': c.tier, 'violations': c.bad[:20], 'count': len(c.bad)}, f, indent=1)
    return p


def listed():
    """known_findings.txt: lines 'known: property=<id> key=<key> :: <what fails>'."""
    out = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'^known: property=(\S+) key="([^"]*)" (.*)$', l.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def check(pid, tier):
    import checks
    seed = int(os.environ.get('VERIF_SEED', '1'))
    build()
    table()
    c = Check(pid, tier, seed)
    spec = checks.CHECKS[pid]
    spec(c)
    known = listed()
    seen = {}
    for key, line, args in c.known:
        if (pid, key) in known:
            seen[key] = known[(pid, key)]
        else:
            c.bad.append({'what': 'crash not among the known findings: ' + key, 'trace': json.loads(line) if line.startswith('{') else line, 'harness': [str(a) for a in args]})
    cov = {'states': c.states, 'transitions': c.trans, 'traces_validated_against_impl': c.traces, 'samples': c.samples or ['none']}
    cov.update(c.notes)
    cov['campaigns'] = c.campaigns
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': checks.ASSUME,
                   'violations': len(c.bad), 'wall_s': round(c.elapsed(), 1)}, f)
    for key in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, seen[key]))
    print('%s %s: %d traces of the real code, %d states, %.1f s' % (pid, tier, c.traces, c.states, c.elapsed()))
    if c.bad:
        for b in c.bad[:8]:
            print('  ', json.dumps(b.get('what')), 'step', b.get('step'), (b.get('trace') or {}).get('i', '') if isinstance(b.get('trace'), dict) else '')
        print('VIOLATION property=%s replay=%s' % (pid, replay_file(c)))
        return 1
    return 0


def replay(path):
    """Runs the campaigns of a replay file again on the current tree, and judges the failing histories again."""
    r = json.load(open(path))
    build()
    table()
    client()
    c = Check(r['property'], r['tier'], r['seed'])
    for b in r['violations']:
        if 'module' not in b:
            print(json.dumps(b)[:2000])
            c.harness(b['harness']) if 'harness' in b else None
            continue
        lines = c.harness(b['harness'])
        m = b['module']
        c.judge([(b['harness'], [l for l in lines if json.loads(l).get('i') == b['trace'].get('i')])], module=m, cfg=m.replace('.tla', '.cfg'))
    for b in c.bad:
        print(json.dumps(b))
    return 1 if c.bad else 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == 'setup':
            build()
            table()
            models(MODELS, 4)
        elif sys.argv[1] == 'replay':
            sys.exit(replay(sys.argv[2]))
        else:
            sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except Broken as e:
        print('ERROR', e)
        sys.exit(3)
