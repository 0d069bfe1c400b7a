"""P04: how a line is split into the parameters %1 to %9, and what %~ gives."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P04', bounds='every line of up to 3 (thorough 4) parameters out of 14 forms (bare, quoted, quoted in the middle, escaped, empty) with every '
            'separator of up to two delimiters; every file name of up to 5 characters over {a . blank} below 5 directories for ~f ~d ~p ~n ~x ~z and their '
            'combinations, for %1, %%i and (options only) %0')
# (text, value)
FORMS = [('a', 'a'), ('bc', 'bc'), ('"d"', 'd'), ('"e f"', 'e f'), ('"g,h;i"', 'g,h;i'), ('""', ''), ('j"k l"', 'j"k l"'), ('m"n;o"p', 'm"n;o"p'),
         ('q=r', 'q=r'), ('s.t/u', 's.t/u'), ('/v:w', '/v:w'), ('x^ y', 'x y'), ('z^,1', 'z,1'), ('"2  3"', '2  3'), ('5^;6^ 7', '5;6 7')]
SEPS = [' ', ',', ';', '\t', '  ', ', ', ' ;', ' \t', ',,', ' , ']
def items():
    for n in (0, 1, 2, 3) + ((4,) if THOROUGH else ()):
        for forms in itertools.product(FORMS, repeat=n):
            seps = [SEPS[:1]] + [SEPS if n < 3 or k == 0 and not THOROUGH and 0 else (SEPS[:5] if n < 4 else SEPS[:2]) for k in range(n - 1)]
            if n == 3 and not THOROUGH: seps = [SEPS[:1], SEPS[:4], SEPS[2:4]]
            for ss in itertools.product(*seps[:n]):
                for lead, trail in (((' ', ''), (' ', ' '), ('  ', ','), (' , ', ' ;')) if n < 3 else ((' ', ''),)):
                    line = lead
                    for s, f in zip(('',) + ss[1:], forms): line += s + f[0]
                    yield line + trail, [f[1] for f in forms]
def gen():
    for i, (line, vals) in enumerate(items()):
        chk.state((line,)); chk.transitions += len(vals) + 1
        vals = (vals + [''] * 5)[:5]
        t = 'call :l%d%s\ngoto x%d\n:l%d\necho [%%1][%%2][%%3][%%4][%%5]\necho [%%~1][%%~2][%%~3]\ngoto :eof\n:x%d\n' % (i % 1000, line, i % 1000, i % 1000, i % 1000)
        yield Item('call :l%s' % line, t, ''.join('[%s]' % v for v in vals) + '\n' + ''.join('[%s]' % v for v in vals[:3]) + '\n')
batch(chk, gen(), per=250)
# a quoted part anywhere: the quotes that are kept are not specified, all the rest is
def mixed():
    k = 0
    PARTS = ['"a b"', 'c', '"d,e"', '""', '"f"', '^"']
    MIX = [''.join(m) for n in (2, 3) for m in itertools.product(PARTS, repeat=n) if m.count('^"') < 2 and not (m.count('^"') and n == 3 and not THOROUGH)]
    for m in MIX:
        for around in (('', ''), ('x ', ''), ('', ' y'), ('x,', ';y'), ('', ' "y z"'), ('', ' ' + MIX[k % 7]), ('"x"y ', ' z')):
            k += 1
            if '^"' in m and (around[1].count('"') or around[0].count('"')): continue
            line = around[0] + m + around[1]
            toks, q, cur = [], 0, None
            j = 0
            while j < len(line):
                c = line[j]
                if c == '^' and not q: j += 1; cur = (cur or '')
                elif c == '"': q ^= 1; cur = (cur or '')
                elif c in ' ,;' and not q:
                    if cur is not None: toks.append(cur)
                    cur = None
                else: cur = (cur or '') + c
                j += 1
            if cur is not None: toks.append(cur)
            toks = (toks + [''] * 4)[:4]
            exp = ''.join('[%s]' % x for x in toks) + '\n'
            t = 'call :l%d %s\ngoto x%d\n:l%d\necho [%%1][%%2][%%3][%%4]\ngoto :eof\n:x%d\n' % (k % 1000, line, k % 1000, k % 1000, k % 1000)
            chk.state(('mixed', line)); chk.transitions += 1
            yield Item('call :l ' + line, t, lambda out, exp=exp: None if out.decode('latin1').replace('"', '') == exp else 'expected (quotes apart) %r' % exp)
batch(chk, mixed(), per=200)
# ~ strips the first and the last quote
def strip():
    PARTS = ['"a"', 'b', '""', '"c d"', '"e"f"g"', 'h"i"']
    for k, m in enumerate(''.join(m) for n in (1, 2, 3) for m in itertools.product(PARTS, repeat=n)):
        if not m.startswith('"'): continue
        chk.state(('strip', m)); chk.transitions += 1
        def verdict(out, m=m):
            a, s = out.decode('latin1').split('\n')[:2]
            if a[:1] != '[' or s[:1] != '[': return 'no output'
            a, s = a[1:-1], s[1:-1]
            # of the quotes %1 kept
            e = a if not a.startswith('"') else a[1:] if '"' not in a[1:] else a[1:a.rindex('"')]
            return None if s == e and a.replace('"', '') == m.replace('"', '') else '%r of %r' % (e, m)
        yield Item('%%~1 of ' + m, 'call :l%d %s\ngoto x%d\n:l%d\necho [%%1]\necho [%%~1]\ngoto :eof\n:x%d\n' % (k, m, k, k, k), verdict)
batch(chk, strip(), per=100)
# CALL /e with a file and a label in either order: what follows are the parameters
def called():
    for k, (first, n) in enumerate(itertools.product(('/e e.bat :l', '/E e.bat :l', '/e :l e.bat', '/e "e.bat" :l', ':l', '/e  e.bat  :l', '/e,e.bat;:l'), range(4))):
        for j, f in enumerate(itertools.product([':l', 'e.bat', '/e', 'x', '"p q"', ':m'][:6], repeat=n)):
            if n and f[0] == '/e' and first == ':l': continue   # (the second parameter may be the switch)
            if n == 3 and not THOROUGH and j % 7: continue
            v = [x.strip('"') for x in f] + [''] * (3 - n)
            t = 'call %s %s\n' % (first, ' '.join(f)); w = 'e.bat' in first
            chk.state(('e', first, f)); chk.transitions += 1
            if first == ':l': t = t.replace(':l', ':k%d_%d' % (k, j), 1) + 'goto y%d_%d\n:k%d_%d\necho [%%1][%%2][%%3]\ngoto :eof\n:y%d_%d\n' % ((k, j) * 3)
            yield Item(t, t, ('e' if w else '') + ''.join('[%s]' % x for x in v) + '\n')
batch(chk, called(), per=100, files=[('e.bat', b'@echo off\necho no\n:l\necho e[%1][%2][%3]\ngoto :eof\n:m\necho no\n')])
# nine parameters, more than nine, the same by the command line of the program
def many():
    for n in range(0, 16):
        for k in range(len(FORMS)):
            f = [FORMS[(k + i * 3) % len(FORMS)] for i in range(n)]
            yield f
for n, f in enumerate(many()):
    chk.transitions += 1; chk.state(('many', n))
cs = []
for f in many():
    v = [x[1] for x in f]
    t = '@echo off\n' + ''.join('echo [%%%d]\n' % i for i in range(1, 10)) + 'call :l ' + ' '.join(x[0] for x in f) + '\ngoto :eof\n:l\n' + ''.join('echo [%%%d]\n' % i for i in range(1, 10))
    cs.append(script(t, *v, data=v))
for c, r in zip(cs, run(cs)):
    v = c.data; chk.traces += 1
    exp = ''.join('[%s]\n' % (v[i] if i < len(v) else '') for i in range(9))
    out = r.out.decode('latin1')
    if out != exp + exp: chk.violation('arguments %r' % v, c, exp + exp, out)
    else: chk.outcomes.add(out)

# ~ options on file names
NAMES = []
for n in range(1, 6 if THOROUGH else 5):
    for t in itertools.product('a. ', repeat=n):
        s = ''.join(t)
        if s.strip() != s or set(s) <= {'.'}: continue
        NAMES.append(s)
NAMES += ['a-b_c.txt', 'x.tar.gz', '.bashrc', 'a+b=c.d', 'A.B', 'longer name.with several.dots']
DIRS = ['', 'd/', 'd.e/', 'd/e f/', '/abs/x.y/']
CMB = ['f', 'd', 'p', 'n', 'x', 'nx', 'dp', 'pn', 'dpn', 'pnx', 'dpnx', 'z', '']
EXISTING = {'a': 3, 'a.a': 0, 'a a': 7, 'a.': 10, '.a': 1, 'd/a': 12, 'd.e/a.a': 5}
FILES = [('d', None), ('d.e', None), ('d/e f', None)] + [(k, b'x' * v) for k, v in EXISTING.items()]
def parts(cwd, path):
    full = path if path.startswith('/') else cwd + '/' + path
    k = full.rfind('/') + 1
    base = full[k:]
    d = base.rfind('.')
    n, x = (base, '') if d < 0 else (base[:d], base[d:])
    return {'f': full, 'd': '', 'p': full[:k], 'n': n, 'x': x, 'z': str(EXISTING.get(path, 0)), '': None}
def opt(cwd, path, o):
    if o == '': return path
    return ''.join(parts(cwd, path)[c] for c in o)
def names():
    for d in DIRS:
        for nm in NAMES: yield d + nm
def mods():
    for i, path in enumerate(names()):
        q = '"%s"' % path if ' ' in path or i % 3 == 0 else path
        i %= 1000
        chk.transitions += len(CMB) * 2; chk.state(path)
        t = 'call :l%d %s\ngoto x%d\n:l%d\n' % (i, q, i, i) + ''.join('echo [%%~%s1]\n' % o for o in CMB) + 'goto :eof\n:x%d\n' % i
        t += 'for %%i in (' + q + ') do (\n' + ''.join('echo [%%%%~%si]\n' % o for o in CMB) + ')\n' + 'echo !cd!\n'
        def verdict(out, path=path):
            l = out.decode('latin1').split('\n')
            if len(l) < 2: return 'no output'
            cwd = l[-2]
            exp = ['[%s]' % opt(cwd, path, o) for o in CMB] * 2
            if l[:-2] == exp: return None
            return 'expected %r' % [(o, e, g) for o, e, g in zip(CMB * 2, exp, l) if e != g][:4]
        yield Item('options of %s' % q, t, verdict)
chk.sample({'call': 'call :l j"k l",,"g,h;i"', 'values': ['j"k l"', 'g,h;i']}); chk.sample({'path': 'd.e/a.a', 'options': CMB})
batch(chk, mods(), per=60, files=FILES)
# sizes beyond any small integer, several options at once, files which are not there
def sizes():
    SZ = {'n0': 0, 'n1': 1, 'b': 255, 'c': 256, 'd': 32767, 'e': 32768, 'f': 65535, 'g': 65536, 'h': 100000, 'i': 3000000}
    t = '@echo off\nfor %%i in (' + ' '.join(SZ) + ') do (\necho %%~zi\ncall :l %%i\n)\n'
    e = ''.join('%d\n%d\n' % (v, v) for v in SZ.values())
    t += 'goto x\n:l\necho %~z1\ngoto :eof\n:x\n'
    for nm, d, z in (('n1', '', 1), ('fo', 'D', None), ('no', '', 0), ('fo/q', '', 2), ('no', '', 0), ('h', '', 100000), ('fo', 'D', None), ('no/x', '', 0)):
        for o in ('a', 'az', 'za', 'an', 'na', 'nz', 'zx', 'ta', 'zt', 'zaz', 'fz'):
            t += 'for %%i in (' + nm + ') do echo [%%~' + o + 'i]\n'
            f = nm.rsplit('/', 1)[-1]
            e += ('[%s]\n' % ' '.join(x for x in ({'a': d, 'z': '<z>' if z is None else str(z), 'n': f, 'x': '', 't': '<t>', 'f': '<cwd>/' + nm}[c] for c in o) if x))
            chk.state(('size', nm, o)); chk.transitions += 1
    return t + 'echo !cd!\n', e, [('fo', None), ('fo/q', b'xx')] + [(k, b'x' * v) for k, v in SZ.items()]
import re
t_, e_, f_ = sizes()
c = script(t_, files=f_, key='sizes, attributes and times'); r = run([c])[0]; chk.traces += 1
l = r.out.decode('latin1').split('\n'); cwd = l[-2] if len(l) > 1 else ''
l = ['[' + ' '.join(x[1:-1].split()) + ']' if x.startswith('[') else x for x in l[:-2]]
for g, x in itertools.zip_longest(l, e_.split('\n')[:-1], fillvalue=''):
    rx = re.escape(x).replace('<z>', r'\d+').replace('<t>', r'[\d/:. ]*').replace('<cwd>', re.escape(cwd))
    if not re.fullmatch(rx, g): chk.violation('sizes, attributes and times', c, x, g, 'line %d' % (l.index(g) if g in l else -1)); break
# %0 with options is the running script, whatever the label and SHIFT
cs = []
for d in ('', 's/', 's.t/u v/'):
    for nm in ('b.bat', 'b.c.cmd', 'my script.bat'):
        t = '@echo off\necho !cd!\n' + ''.join('echo [%%~%s0]\n' % o for o in CMB[:-2]) + 'call :l x\ngoto :eof\n:l\necho [%0]\n' + ''.join('echo [%%~%s0]\n' % o for o in CMB[:-2]) + 'shift\n' + ''.join('echo [%%~%s0]\n' % o for o in CMB[:-2])
        cs.append(Case('%0 of ' + d + nm, [program('pbat'), d + nm], files=[('s', None), ('s.t', None), ('s.t/u v', None), (d + nm, t.encode())], data=d + nm))
for c, r in zip(cs, run(cs)):
    out = r.out.decode('latin1').split('\n'); chk.traces += 1; chk.transitions += 3
    cwd = out[0]; e = ['[%s]' % opt(cwd, c.data, o) for o in CMB[:-2]]
    exp = e + ['[:l]'] + e + e + ['']
    if out[1:] != exp: chk.violation(c.key, c, exp, out[1:])
    else: chk.outcomes.add(tuple(out))
chk.finish()
