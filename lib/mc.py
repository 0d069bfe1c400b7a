"""Shared machinery of the checks: exhaustive case enumeration against the real programs.

A check enumerates a bounded space with a reference model, and runs every case on the program built from
/repo's working tree (lib/mrun.c: each case in its own process and its own scratch directory, as an
unprivileged user).  Check.finish() writes the evidence file and sets the exit code."""
import os, sys, json, struct, subprocess, tempfile, time, hashlib, shutil, atexit, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
UID = 61234
NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
ENV = ['PATH=/usr/bin:/bin', 'HOME=/nonexistent', 'LANG=C.UTF-8', 'TERM=dumb']

_scratch = None
def scratch():
    """A directory of this process under /dev/shm or /tmp, removed at exit."""
    global _scratch
    if not _scratch:
        root = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 2 << 30 else '/tmp'
        _scratch = tempfile.mkdtemp(prefix='verif-', dir=root)
        os.chmod(_scratch, 0o755)
        os.mkdir(_scratch + '/run'); os.chmod(_scratch + '/run', 0o777)
        os.mkdir(_scratch + '/bin'); os.chmod(_scratch + '/bin', 0o755)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

def build(variant):
    out = subprocess.run(['bash', VERIF + '/lib/build.sh', variant], stdout=subprocess.PIPE)
    if out.returncode:
        print('check error: the %s build failed' % variant); sys.exit(3)
    return out.stdout.decode().split('\n')[-2]

_bins = {}
VARIANT = os.environ.get('VERIF_VARIANT', 'plain')
def program(name, variant=None):
    """Path of a private copy of a built program ('pbat', 'dump', 'tea', 'pbatize')."""
    variant = variant or VARIANT
    if (name, variant) not in _bins:
        src = build(variant)
        d = scratch() + '/bin/' + variant
        os.makedirs(d, exist_ok=True)
        for n in ('pbat', 'dump', 'tea', 'pbatize'):
            if os.path.exists('%s/%s/%s' % (src, n, n)):
                shutil.copy('%s/%s/%s' % (src, n, n), d + '/' + n); os.chmod(d + '/' + n, 0o755)
                _bins[n, variant] = d + '/' + n
    return _bins[name, variant]

_cc = {}
def cbuild(src, flags=()):
    """Compiles one C file of /verif/lib into the scratch directory."""
    k = (src, tuple(flags))
    if k not in _cc:
        out = scratch() + '/bin/' + os.path.basename(src)[:-2] + hashlib.md5(repr(k).encode()).hexdigest()[:6]
        if '-shared' in flags: out += '.so'
        subprocess.run(['gcc', '-O2', '-g', '-w', '-o', out, VERIF + '/' + src] + list(flags), check=True)
        os.chmod(out, 0o755); _cc[k] = out
    return _cc[k]

class Case:
    __slots__ = ('key', 'argv', 'files', 'env', 'stdin', 'pipe', 'timeout', 'snap', 'merge', 'cap', 'aslimit', 'data')
    def __init__(self, key, argv, files=(), env=None, stdin=b'', pipe=False, timeout=10000, snap=False,
                 merge=False, cap=1 << 22, aslimit=True, data=None):
        self.key, self.argv, self.files = key, argv, files
        self.env = ENV if env is None else env
        self.stdin, self.pipe, self.timeout, self.snap = stdin, pipe, timeout, snap
        self.merge, self.cap, self.aslimit, self.data = merge, cap, aslimit, data

class Result:
    __slots__ = ('status', 'out', 'err', 'usec', 'tree')
    def __repr__(self):
        return 'Result(status=%r, out=%r, err=%r)' % (self.status, self.out[:400], self.err[:400])

def b(x):
    return x if isinstance(x, bytes) else x.encode()

def _s(x):
    x = b(x); return struct.pack('<I', len(x)) + x

def _encode(c):
    parts = [struct.pack('<I', len(c.files))]
    for f in c.files:
        # (name, content) a file; (name, None) a directory; (name, content, type, mode) anything
        if len(f) == 2:
            t, m = (1, 0) if f[1] is None else (0, 0); content = f[1] or b''
        else:
            content, t, m = f[1] or b'', f[2], f[3]
        parts.append(struct.pack('<II', t, m)); parts.append(_s(f[0])); parts.append(_s(content))
    parts.append(struct.pack('<I', len(c.argv))); parts += [_s(a) for a in c.argv]
    parts.append(struct.pack('<I', len(c.env))); parts += [_s(a) for a in c.env]
    parts.append(_s(c.stdin))
    parts.append(struct.pack('<IIII', 1 if c.pipe else 0, c.timeout,
                             (1 if c.snap else 0) | (2 if c.merge else 0) | (4 if c.aslimit and VARIANT == 'plain' else 0), c.cap))
    return b''.join(parts)

def _run_chunk(cases, workers):
    mrun = cbuild('lib/mrun.c')
    d = tempfile.mkdtemp(prefix='jobs', dir=scratch())
    os.chmod(d, 0o755)
    enc = [_encode(c) for c in cases]
    pos = 8 + 8 * len(enc); offs = []
    for e in enc: offs.append(pos); pos += len(e)
    with open(d + '/jobs', 'wb') as f:
        f.write(struct.pack('<II', len(enc), 0)); f.write(struct.pack('<%dQ' % len(offs), *offs))
        for e in enc: f.write(e)
    run = d + '/run'; os.mkdir(run); os.chmod(run, 0o777)
    r = subprocess.run([mrun, d + '/jobs', d + '/out', str(workers), run, str(UID)])
    if r.returncode:
        print('check error: the case runner failed (%d)' % r.returncode); sys.exit(3)
    res = [None] * len(enc)
    for k in range(workers):
        data = open('%s/out.%d' % (d, k), 'rb').read(); o = 0
        def u():
            nonlocal o
            v = struct.unpack_from('<I', data, o)[0]; o += 4; return v
        def s():
            nonlocal o
            n = u(); v = data[o:o + n]; o += n; return v
        while o < len(data):
            i = u(); x = Result(); x.status = struct.unpack_from('<i', data, o)[0]; o += 4
            x.out = s(); x.err = s(); x.usec = u(); x.tree = {}
            for _ in range(u()):
                t = u(); m = u(); name = s().decode('utf-8', 'surrogateescape'); x.tree[name] = (t, m, s())
            res[i] = x
    shutil.rmtree(d, True)
    for i, x in enumerate(res):
        if x is None: print('check error: case %d has no result' % i); sys.exit(3)
    return res

def run(cases, workers=None):
    """Runs the cases; a case that ran into its time limit is run again, alone, with a longer one."""
    cases = list(cases)
    if not cases: return []
    res = _run_chunk(cases, min(workers or NPROC, len(cases)))
    late = [i for i, r in enumerate(res) if r.status == -1000]
    for i in late:
        c = cases[i]; t = c.timeout; c.timeout = 3 * t
        res[i] = _run_chunk([c], 1)[0]; c.timeout = t
        if res[i].status == -1000: break    # it does hang
    return res

def chunks(it, n):
    it = iter(it)
    while True:
        l = list(itertools.islice(it, n))
        if not l: return
        yield l

def show(x):
    if isinstance(x, bytes): return x.decode('utf-8', 'backslashreplace')
    if isinstance(x, dict): return {show(k) if isinstance(k, bytes) else str(k): show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [show(v) for v in x]
    if isinstance(x, set): return sorted(map(str, map(show, x)))
    return x if isinstance(x, (int, float, str, bool)) or x is None else repr(x)

class Check:
    def __init__(self, pid, level='model_checking', bounds=''):
        self.pid, self.level, self.bounds = pid, level, bounds
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.stateset = set()
        self.outcomes = set()
        self.samples, self.extra, self.assumptions = [], {}, []
        self.viol, self.known_seen, self.nviol = [], {}, 0
        self.known = {}
        for e in json.load(open(VERIF + '/known_findings.json'))['findings']:
            if e.get('status', 'known') == 'known' and e['property'] == pid:
                for k in e['keys']: self.known[k] = e
        self.caps = []
        os.makedirs(VERIF + '/evidence', exist_ok=True)

    def state(self, s):
        self.stateset.add(hash(s))

    def sample(self, x, n=6):
        if len(self.samples) < n: self.samples.append(show(x))

    def violation(self, key, case=None, expected=None, got=None, note=''):
        """Reports one failing case.  `key` identifies the input; listed keys are known findings."""
        if key in self.known:
            self.known_seen.setdefault(id(self.known[key]), (self.known[key], []))[1].append(key)
            return
        self.nviol += 1
        if len(self.viol) >= int(os.environ.get('VMAX', 5)): return
        d = VERIF + '/out/' + self.pid; os.makedirs(d, exist_ok=True)
        name = d + '/' + hashlib.md5(key.encode()).hexdigest()[:10] + '.json'
        rep = {'property': self.pid, 'key': key, 'note': note, 'expected': show(expected), 'got': show(got)}
        if case is not None:
            rep['case'] = {'argv': show(case.argv), 'env': show(case.env), 'stdin': show(case.stdin), 'pipe': case.pipe,
                           'files': [[show(f[0]), show(f[1])] + list(f[2:]) for f in case.files]}
        json.dump(rep, open(name, 'w'), indent=1)
        self.viol.append(name)
        print('VIOLATION property=%s replay=%s' % (self.pid, name))
        print('  case: %s' % key[:600])
        print('  expected: %s' % str(show(expected))[:600]); print('  got:      %s' % str(show(got))[:600])
        if note: print('  note: ' + note)
        sys.stdout.flush()

    def enough(self):
        """True once so many cases failed that going on tells nothing new."""
        return self.nviol >= int(os.environ.get('ENOUGH', 200)) or (self.nviol > 0 and time.time() - self.t0 > 200)

    def finish(self):
        for e, keys in self.known_seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        cov = {'states': self.states or len(self.stateset), 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'distinct_outcomes': len(self.outcomes),
               'samples': self.samples, 'bounds': self.bounds, 'exhaustive': not self.caps}
        if self.level in ('exploration', 'fault_enumeration'):
            cov['evaluations'] = self.traces
            cov['distinct_nontrivial'] = len(self.outcomes)
            cov['rule'] = self.bounds
        if self.caps: cov['caps'] = self.caps
        cov.update(self.extra)
        wall = time.time() - self.t0
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': self.nviol}
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.pid), 'w'), indent=1)
        print('%s: states=%d transitions=%d traces=%d outcomes=%d violations=%d %.1fs' % (
            self.pid, cov['states'], self.transitions, self.traces, len(self.outcomes), self.nviol, wall))
        sys.stdout.flush()
        sys.exit(1 if self.nviol else 0)

def script(text, *args, **kw):
    """A case which runs a batch script (bytes or str) with arguments."""
    key = kw.pop('key', None); variant = kw.pop('variant', None); files = list(kw.pop('files', ()))
    name = kw.pop('name', 't.bat')
    return Case(key or show(text), [program('pbat', variant), name] + list(args), files + [(name, b(text))], **kw)

# ---------------------------------------------------------------------------------------------------
# Batches: many small statements in one script, each checked on its own.

class Item:
    """One statement: batch text, expected output (bytes, or a function of the output that returns
    None or a complaint)."""
    __slots__ = ('key', 'text', 'expect', 'data')
    def __init__(self, key, text, expect, data=None):
        self.key, self.text, self.expect, self.data = key, b(text), expect, data

def _verdict(it, out):
    if callable(it.expect): return it.expect(out)
    return None if out == b(it.expect) else 'output differs'

def split_marks(out, n):
    """The output of each statement of a batch, or None where the mark is missing."""
    res = [None] * n
    parts = out.split(b'\x01@')
    for p in parts[1:]:
        head, sep, body = p.partition(b'\n')
        try: i = int(head)
        except ValueError: continue
        if 0 <= i < n: res[i] = body
    return res

def batch(chk, items, per=250, prelude='@echo off\n', files=(), args=(), env=None, merge=False, stdin=b'',
          variant=None, outcome=None, timeout=8000):
    """Checks items, `per` of them in each process."""
    def case(its):
        text = b(prelude) + b''.join(b'echo \x01@%d\n' % i + it.text + (b'' if it.text.endswith(b'\n') else b'\n')
                                     for i, it in enumerate(its)) + b'echo \x01@%d\n' % len(its)
        return script(text, *args, files=files(its) if callable(files) else files, env=env(its) if callable(env) else env, merge=merge, stdin=stdin, variant=variant, timeout=timeout,
                      key=its[0].key)
    for block in chunks(chunks(items, per), 4000 // per * 8 or 8):
        if chk.enough(): return
        res = run([case(x) for x in block])
        for its, r in zip(block, res):
            outs = split_marks(r.out, len(its) + 1)
            if r.status != 0 or outs[len(its)] is None: outs = [o if o is not None else b'?no output?' for o in outs]
            for i, it in enumerate(its):
                chk.traces += 1
                o = outs[i] if outs[i] is not None else b'?no output?'
                bad = _verdict(it, o)
                if bad:
                    if chk.enough(): return
                    c = case([it]); rr = run([c])[0]
                    oo = split_marks(rr.out, 2)
                    alone = _verdict(it, oo[0] if oo[0] is not None else b'?no output?') if rr.status == 0 and oo[1] is not None else 'status %d' % rr.status
                    exp = it.expect if not callable(it.expect) else bad
                    if alone:
                        chk.violation(it.key, c, exp, oo[0] if oo[0] is not None else repr(rr), note=str(alone))
                    else:
                        chk.violation(it.key, case(its), exp, o, note='only after the preceding statements of the batch')
                else:
                    chk.outcomes.add(hash(o) if outcome is None else outcome(it, o))
