"""P06: the environment: SET, SET prefix, case-insensitive names, what child programs get."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P06', bounds='every history of up to 3 (thorough 4) assignments and removals over 5 names (two of them differing by case, one with a blank, one with _) and 3 values, each in a fresh process; every history of 4 (thorough 5) in a used one; '
            'started with 0 to 300 other variables around the sizes of the table; every pair of a name and a value out of 17 x 20 in 6 forms of SET; every prefix of every name; started with each of 10 names x 16 values and one assignment')
NAMES = ['a', 'ab', 'B', 'b c', '_d']
OPS = [(n, v) for n in NAMES for v in ('1', '22', None)] + [('A', '333'), ('AB', None), ('b', '4'), ('B C', '5')]
def apply(env, op):
    """env: lower-case name -> value."""
    env = dict(env); k = op[0].lower()
    if op[1] is None: env.pop(k, None)
    else: env[k] = op[1]
    return env
ALL = ['a', 'ab', 'b', 'b c', '_d']
def see(i):
    return 'echo ' + ''.join('[!%s!]' % n for n in ALL) + '\n'
def seen(env): return ''.join('[%s]' % env.get(n, '') for n in ALL) + '\n'
def listing(env, prefix): return sorted('%s=%s' % kv for kv in env.items() if kv[0].startswith(prefix.lower()))
def lower(lines): return sorted(l.split('=')[0].lower() + '=' + '='.join(l.split('=')[1:]) for l in lines if l)
def histories(n):
    for h in itertools.product(OPS, repeat=n):
        yield h
FINAL = ''.join('echo #\nset %s\n' % p for p in ('a', 'B', '_', '_d', 'ab', 'b c')) + 'echo #\nset\necho #\n/usr/bin/env\necho #\n' + ''.join('if defined %s echo %s\n' % (n, n) for n in ('a', 'AB', 'b', '_d')) + 'echo #\n'
def judge(c, r, env, base, trace):
    out = r.out.decode('utf8').split('#\n')
    if out[0] != trace: return 'values along the history', trace, out[0]
    if len(out) != 11: return 'sections', 11, len(out)
    for p, o in zip(('a', 'B', '_', '_d', 'ab', 'b c'), out[1:7]):
        e = listing({**env, **base}, p)
        if lower(o.split('\n')) != e: return 'set ' + p, e, o
    for o, w in ((out[7], 'set'), (out[8], 'the environment of a program')):
        e = sorted('%s=%s' % kv for kv in {**env, **base}.items())
        if lower(o.split('\n')) != e: return w, e[:20], o[:300]
    names = sorted(l.split('=')[0].lower() for l in out[7].split('\n') if l)
    e = ''.join('%s\n' % n for n in ('a', 'AB', 'b', '_d') if n.lower() in env)
    if out[9] != e: return 'if defined', e, out[9]
    return None
def check(cases):
    for (c, env, base, trace), r in zip(cases, run([c[0] for c in cases])):
        chk.traces += 1
        bad = judge(c, r, env, base, trace)
        if bad: chk.violation(c.key, c, bad[1], bad[2], bad[0])
        else: chk.outcomes.add(hash(r.out))
def auto(nb):
    """The environment a process starts with: nb variables"""
    return ['z%03d=%d' % (i, i) for i in range(nb)]
_probe = None
def own():
    """What the interpreter itself adds to its environment (asked once, with nothing set)."""
    global _probe
    if _probe is None:
        r = run([script('@echo off\nset\n', env=[])])[0]
        _probe = {l.split('=')[0].lower(): l.split('=', 1)[1] for l in r.out.decode().split('\n') if l}
    return _probe
def one(h, nb):
    env, t, trace = {}, '@echo off\n', ''
    for op in h:
        t += 'set %s=%s\n' % (op[0], op[1] or ''); env = apply(env, op)
        t += see(0); trace += seen(env)
        chk.state(tuple(sorted(env.items()))); chk.transitions += 1
    base = {**own(), **dict(x.split('=') for x in auto(nb))}
    return script(t + FINAL, env=auto(nb), key='%d variables, then %s' % (nb, ' & '.join('%s=%s' % (o[0], o[1] or '') for o in h))), env, base, trace
D = 4 if THOROUGH else 3
for d in range(1, D + 1):
    for cs in chunks((one(h, 0) for h in histories(d)), 4000):
        check(cs)
        if chk.enough(): break
# the table grows in blocks of 128: histories of two around each multiple
SIZES = sorted({k * 128 + e for k in (1, 2) for e in range(-8 if THOROUGH else -5, 4)} | {1, 2, 60, 300})
for nb in SIZES:
    hs = itertools.chain(histories(1), histories(2)) if THOROUGH else itertools.chain(histories(1), (h for i, h in enumerate(histories(2)) if i % 5 == 0))
    check([one(h, nb) for h in hs])
# many variables set and removed one by one
def growth():
    for n in (127, 128, 129, 256, 257, 400):
        for order in ('up', 'down', 'mixed'):
            idx = list(range(n))
            if order == 'down': idx.reverse()
            if order == 'mixed': idx = [i * 77 % n for i in range(n)] if n % 7 and n % 11 else [i * 13 % n for i in range(n)]
            t = '@echo off\n' + ''.join('set y%03d=%d\n' % (i, i) for i in idx); env = {'y%03d' % i: str(i) for i in idx}
            for i in idx[::3]: t += 'set y%03d=\n' % i; del env['y%03d' % i]
            for i in idx[::4]: t += 'set y%03d=new%d\n' % (i, i); env['y%03d' % i] = 'new%d' % i
            for i in idx[:40]: t += 'set x%d=%d\n' % (i, i); env['x%d' % i] = str(i)
            trace = ''.join('[%s][%s]\n' % (env.get('y%03d' % i, ''), env.get('x%d' % i, '')) for i in range(0, n, 7))
            t += ''.join('echo [!y%03d!][!x%d!]\n' % (i, i) for i in range(0, n, 7))
            chk.transitions += n * 2; chk.state((n, order))
            yield script(t + FINAL, env=[], key='growth %d %s' % (n, order)), env, own(), trace
check(list(growth()))
# histories in a process that was used before
def used():
    d = D + 1 if not THOROUGH else D
    for i, h in enumerate(histories(D + 1)):
        if THOROUGH and i % 4: continue
        env, t, e = {}, ''.join('set %s=\n' % n for n in ALL), ''
        for k, op in enumerate(h):
            t += 'set %s=%s\n' % (op[0], op[1] or ''); env = apply(env, op); chk.transitions += 1
            if k >= len(h) - 2: t += see(0); e += seen(env)
        chk.state(tuple(sorted(env.items())))
        t += 'set a\nset _\n'
        want = lower(listing(env, 'a') + listing(env, '_'))
        def v(out, e=e, want=want):
            o = out.decode().split('\n'); n = e.count('\n')
            if '\n'.join(o[:n]) + '\n' != e: return 'values: expected %r' % e
            return None if lower(o[n:]) == want else 'listing: expected %r' % want
        yield Item(t, t, v)
batch(chk, used(), per=300, env=[])
# names and values
VAR = ['v', 'V1', 'v.w', 'v-w', 'v(w)', 'v{w}', 'v w', 'v  w', 'v_w', '_v', 'v#', 'v@', 'v+', 'é', 'vé', 'v/w', "v'w"]
VAL = ['x', 'x y', ' x', 'x ', '  ', 'x=y', '=x', '"x"', '"x y" z', 'x"y', '"', "'x'", 'é', '/a', '/p', 'x,y;z', '(x)', 'x.y*?', '0', 'L' * 5000]
def pairs():
    k = 0
    for n in VAR:
        for v in VAL:
            for form in range(8):
                k += 1
                if form in (0, 1, 5, 6, 7):
                    t = ['set %s=%s', 'set %s  =%s', None, None, None, 'set\t%s=%s', 'set %s\t=%s', 'set \t%s \t =%s'][form] % (n, v); e = v
                    # a quote left open hides what follows it, which is nothing here
                elif form == 2: t = 'set "%s=%s"' % (n, v); e = v
                elif form == 3: t = 'set "%s=%s" rest' % (n, v); e = v
                else: t = 'set   "%s =%s"' % (n, v); e = v
                if v.count('"') % 2 and form in (2, 3, 4): continue
                chk.state(('pair', n, v, form)); chk.transitions += 1
                # the value seen by !v!, %v%, and a program
                t = 'set v=\n' + t + '\necho [!%s!]\n' % n + ('' if v.startswith('=') or '"' in v else 'echo [%%%s%%]\n' % n if n[0] != '*' and '(' not in v else '') + 'set %s\nset %s%s=\n' % (n, n, ['', ' ', '\t'][form % 3]) + 'echo [!%s!]\n' % n
                want = '[%s]\n' % e + ('' if v.startswith('=') or '"' in v else '[%s]\n' % e if '(' not in v else '') + '%s=%s\n[]\n' % (n, e)
                yield Item('set %s=%s form %d' % (n, v, form), t, want)
batch(chk, pairs(), per=200, env=[])
# the variables it was started with: every pair of a name and a value, and every history of two on top of them
def started():
    cs = []
    START = ['x', 'x y', ' x', 'x ', '=x', 'x=', 'a=b=c', '==', '"x"', '"', "'", 'é', '/p', '', '*', 'x' * 3000]
    for i, n in enumerate(['v', 'V1', 'v.w', 'v-w', 'v w', '_v', 'v#', 'v(w)', 'vé', '1v']):
        for j, v in enumerate(START):
            for op in (None, ('v', 'new'), (n, 'q=r'), (n, None), ('w', '1')):
                env = {n.lower(): v} if v else None
                if env is None: env = {n.lower(): ''} if op is None else {}
                t = '@echo off\n'
                if op: t += 'set %s=%s\n' % (op[0], op[1] or ''); env = apply(env, op)
                if v == '' and (not op or op[0].lower() != n.lower()): continue
                chk.state(('started', n, v, op)); chk.transitions += 1
                cs.append((script(t + FINAL, env=['%s=%s' % (n, v), 'zz=end'], key='started with %s=%s, then %r' % (n, v, op)), env, {**own(), 'zz': 'end'}, ''))
    check(cs)
started()
# listing by prefix
def prefixes():
    NM = ['w', 'wq', 'wqr', 'WQS', 'w q', 'q', 'qw', '_w', 'w.', 'W-']
    for sub in range(0, 1 << len(NM)):
        if not THOROUGH and sub % 3: continue
        have = [n for i, n in enumerate(NM) if sub >> i & 1]
        t = ''.join('set %s=\n' % n for n in NM) + ''.join('set %s=%s1\n' % (n, n) for n in have); want = []
        for p in ('w', 'W', 'wq', 'wqr', 'w q', '_', 'q', 'w.'):
            t += 'echo @\nset %s\n' % p + ('if not errorlevel 1 if errorlevel 0 echo ok\n'); m = sorted((n + '=' + n + '1').lower() for n in have if n.lower().startswith(p.lower()))
            want.append(m + (['ok'] if m else []))
        t += 'echo @\n'; chk.transitions += 8; chk.state(('prefix', sub))
        def v(out, want=want):
            got = [x.lower().split('\n')[:-1] for x in out.decode().split('@\n')[1:-1]]
            got = [sorted(x for x in g if x != 'ok') + [x for x in g if x == 'ok'] for g in got]
            return None if got == want else 'expected %r got %r' % ([w for w, g in zip(want, got) if w != g][:1], [g for w, g in zip(want, got) if w != g][:1])
        yield Item(t, t, v)
batch(chk, prefixes(), per=60, env=[])
chk.sample({'history': ['set a=1', 'set AB=', 'set b c=5'], 'environment': {'a': '1', 'b c': '5'}})
chk.finish()
