"""P05: SHIFT, over every history of up to three (thorough four) of them, on the arguments of scripts and of labels."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P05', bounds='every number of arguments from 0 to 22 (some empty or with blanks), every history of up to 3 (thorough 4) SHIFT commands over '
            'all starts 0-9, displacements 0-9 and spellings (pairs for length 2 complete), for CALL of a label and for the script itself; every nest of calls of labels, files and functions (thorough: depth 3) with up to 2 SHIFT at each level')
def args(n, kind):
    if kind == 0: return ['a%d' % i for i in range(1, n + 1)]
    return ['a%d' % i if i % 4 else ('b %d' % i if i % 8 else '') for i in range(1, n + 1)]

def model(vars_, rest, start, step):
    v, rest = list(vars_), list(rest)
    i = start
    while i + step < 10: v[i] = v[i + step]; i += 1
    while i < 10:
        v[i] = rest.pop(0) if rest else ''
        i += 1
    return v, rest

ALL = [(s, d) for s in range(10) for d in range(10)]
FEW = [(0, 1), (1, 1), (9, 1), (5, 2), (0, 3), (2, 9), (8, 0), (0, 0), (7, 1), (3, 4)]
def spell(s, d, k):
    a = '' if s == 0 and k % 2 == 0 else ['/%d', '/s:%d', '/s%d'][k % 3] % s
    b_ = '' if d == 1 and k % 2 == 0 else ['/d:%d', '/d%d'][k % 2] % d
    return 'shift ' + (a + ' ' + b_ if k % 4 < 2 else b_ + ' ' + a)
def histories():
    for k in range(12):
        for o in ALL: yield [o], k
    for k in range(2):
        for o in ALL:
            for p in (ALL if THOROUGH else FEW): yield [o, p], k
            if not THOROUGH:
                for p in FEW: yield [p, o], k
    for h in itertools.product(FEW, repeat=3): yield list(h), 1
    if THOROUGH:
        for h in itertools.product(FEW, repeat=4): yield list(h), 0
DUMP = 'echo ' + ''.join('[%%%d]' % i for i in range(10)) + '[%*]\n'
def q(a): return '"%s"' % a if not a or ' ' in a else a
def expected(name, a, h, star):
    v = ([name] + a)[:10]; v += [''] * (10 - len(v)); rest = a[9:]
    out = ''.join('[%s]' % x for x in v) + '[%s]\n' % star
    for s, d in h:
        v, rest = model(v, rest, s, d)
        out += ''.join('[%s]' % x for x in v) + '[%s]\n' % star
        chk.transitions += 1
    chk.state((tuple(v), tuple(rest), tuple(h)))
    return out
NS = range(23)
def gen():
    i = 0
    for h, k in histories():
        i += 1
        for kind in (0, 1):
            for n in ([0, 1, 3, 8, 9, 10, 11, 12, 19, 22] if len(h) == 1 or THOROUGH else [i % 23, 10 + i % 4]):
                yield h, k, kind, n
bodies = {}
def items():
    for h, k, kind, n in gen():
        a = args(n, kind)
        key = tuple(spell(s, d, k) for s, d in h)
        line = ' '.join(q(x) for x in a)
        exp = expected(':l', a, h, line)
        def verdict(out, exp=exp): return None if out.decode('latin1').replace('[ ', '[') == exp.replace('[ ', '[') else 'expected %r' % exp
        yield Item('call :l %s, then %s' % (line, '; '.join(key)), '', verdict, data=(key, line))
def labelled():
    for i, it in enumerate(items()):
        key, line = it.data
        lab = ':l%d' % (i % 1000)
        it.text = b('call %s %s\ngoto x%d\n%s\n%sgoto :eof\n:x%d\n' % (lab, line, i % 1000, lab, DUMP + ''.join(c + '\n' + DUMP for c in key), i % 1000))
        it.expect = (lambda e, lab: lambda out: e(out.replace(b'[' + lab.encode() + b']', b'[:l]')))(it.expect, lab)
        yield it
batch(chk, labelled(), per=100)
chk.sample({'history': ['shift /3', 'shift /d:2'], 'arguments': args(12, 1)})

# what is behind the ninth comes through %+ unchanged, and through SHIFT
def plus():
    VAL = ['x;y', 'x\ty', 'p,q', 'r s', '', 'z', ' ', 'a  b', '/d', '=', 'k=v']
    nine = ' '.join('n%d' % i for i in range(1, 10))
    k = 0
    for n in (1, 2, 3):
        for t in itertools.product(VAL if n < 3 else VAL[:6], repeat=n):
            k += 1; l = k % 1000
            qq = ' '.join('"%s"' % x if not x or set(x) & set(' ;,\t=') else x for x in t)
            e = ''.join('[%s]' % x for x in list(t) + [''] * (3 - n)) + '\n'
            chk.state(('plus', t)); chk.transitions += n
            yield Item('%%+ of %s %s' % (nine, qq), 'call :p%d %s %s\ngoto x%d\n:p%d\ncall :q%d %%+\n%s\necho [%%7][%%8][%%9]\ngoto :eof\n:q%d\necho [%%1][%%2][%%3]\ngoto :eof\n:x%d\n' % (l, nine, qq, l, l, l, 'shift\n' * (n if n == 3 else 3), l, l), e + e)
batch(chk, plus(), per=100)
# the arguments of the script
def top():
    i = 0
    for h, k in histories():
        if len(h) > 2: continue
        i += 1
        if len(h) == 2 and (i % 5 or not THOROUGH and i % 25): continue
        for kind in (0, 1):
            for n in ([0, 9, 10, 13] if len(h) == 1 else [12]):
                yield h, k, kind, n
chk.caps.append('the arguments of scripts: one pair of SHIFT in 5 (quick: 25), all single ones')
for block in chunks(top(), 4000):
    cs = []
    for h, k, kind, n in block:
        a = args(n, kind)
        t = '@echo off\n' + DUMP + ''.join(spell(s, d, k) + '\n' + DUMP for s, d in h)
        cs.append(script(t, *a, data=(h, a), key='arguments %r, script %r' % (a, t)))
    for c, r in zip(cs, run(cs)):
        h, a = c.data
        chk.traces += 1
        out = r.out.decode('latin1')
        name = out[1:out.index(']')] if out.startswith('[') else ''
        exp = expected(name, a, h, ' '.join(q(x) for x in a) + (' ' if a else ''))
        if out != exp or r.status or not name.endswith('/t.bat'): chk.violation(c.key, c, exp, out)
        else: chk.outcomes.add(out)
        if chk.enough(): break
# calls have parameters of their own, and give back those of the caller
FN = [(0, 1), (1, 1), (9, 1), (2, 3)]
def nested():
    i = 0
    for depth in ((2, 3) if THOROUGH else (2,)):
        for how in itertools.product(('label', 'file', 'function'), repeat=depth - 1):
            for hs in itertools.product(itertools.chain.from_iterable(itertools.product(FN, repeat=r) for r in ((0, 1, 2) if depth == 2 else (0, 1))), repeat=depth):
                # SHIFT in a function is about the batch file it is used in: not specified
                if any(w == 'function' and hs[k] for k, w in enumerate(how, 1)): continue
                for after in [()] if 'function' in how[:-1] else [(), FN[:1], FN[1:2]]:
                    i += 1; yield i % 300, how, hs, after, [args((3, 0, 11)[(i + k) % 3], 0)[::(1, -1)[k % 2]] for k in range(depth)]
def nest_items():
    for i, how, hs, after, aa in nested():
        # level 0 is a label; level k is called from the middle of level k-1
        def shown(name, a, h, zero):
            v = ([zero] + a)[:10]; v += [''] * (10 - len(v)); rest = a[9:]
            for s, d in h: v, rest = model(v, rest, s, d)
            return ''.join('[%s]' % x for x in v) + '[%s]' % ' '.join(q(x) for x in a)
        texts, files = [], []
        names = [':n%d' % i] + [{'label': ':n%d_%d' % (i, k), 'file': 'f%d_%d.bat' % (i, k), 'function': 'g%d_%d' % (i, k)}[x] for k, x in enumerate(how, 1)]
        def body(k):
            t = DUMP + ''.join(spell(s, d, 0) + '\n' + DUMP for s, d in hs[k])
            if k + 1 < len(names):
                t += ('' if how[k] == 'function' else 'call ') + ' '.join([names[k + 1]] + [q(x) for x in aa[k + 1]]) + '\n' + DUMP
                t += ''.join(spell(s, d, 0) + '\n' + DUMP for s, d in after)
            return t
        def trace(k):
            out = [(k, hs[k][:j]) for j in range(len(hs[k]) + 1)]
            if k + 1 < len(names): out += trace(k + 1) + [(k, hs[k])] + [(k, hs[k] + tuple(after[:j])) for j in range(1, len(after) + 1)]
            return out
        exp = [shown(None, aa[k], h, '@') for k, h in trace(0)]; chk.transitions += len(exp)
        t = ''; defs = ''; labels = ['']
        for k, n in enumerate(names):
            w = 'label' if not k else how[k - 1]
            if w == 'label': labels[-1] += n + '\n' + body(k) + 'goto :eof\n'
            elif w == 'file': files.append([n, '@echo off\n' + body(k)]); labels.append('')
            else:
                # the name of the function is its parameter 0; parameters are written $n in functions
                defs += 'def %s=(\n%s)\n' % (n, body(k).replace('%', '$'))
        t = defs + 'call %s %s\ngoto z%d\n%s:z%d\n' % (names[0], ' '.join(q(x) for x in aa[0]), i, labels[0], i)
        files = [(n, b(t + 'goto :eof\n' + l)) for (n, t), l in zip(files, labels[1:])]
        def verdict(out, exp=exp):
            got = out.decode('latin1').split('\n')[:-1]
            if len(got) != len(exp): return 'expected %d lines: %r' % (len(exp), exp)
            for g, e in zip(got, exp):
                # %0 before any shift of it is a name, and not compared here
                if e.startswith('[@]'): g = '[@]' + g[g.index(']') + 1:]
                if g.replace('[ ', '[').rstrip() != e.replace('[ ', '[').rstrip(): return 'expected %r, got %r' % (e, g)
        yield Item('nested calls by %s with %r, arguments %r, then %r' % (how, hs, aa, after), t, verdict, data=files)
batch(chk, nest_items(), per=60, files=lambda its: [f for it in its for f in it.data])
chk.finish()
