"""P10: FOR over a list, over numbers (/L), and over the files or folders below a folder (/R and /D)."""
import sys, itertools, fnmatch
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P10', bounds='every list of up to 3 (thorough 4) elements out of 14 forms with every separator of up to two delimiters; every loop /L over starts and ends -6..6 '
            'and steps 1..4 and at the limits of 32 bits, in 3 bases; every nest of up to 3 loops with GOTO, EXIT /b, GOTO :eof or an ELSE in it at any turn; every tree of files for /R and /D; 14 masks behind 15 forms of folder over names of every kind')
# --- lists
TREE = ['a.txt', 'b c.txt', 'd.dat', 'e', 'f1', 'f2', 's/a.txt', 's/x y.dat']
FILES = [('s', None), ('dir1', None)] + [(f, b'') for f in TREE]
def glob(p):
    if '/' in p:
        d, m = p.rsplit('/', 1)
        return sorted(d + '/' + f[2:] for f in TREE if f.startswith('s/') and fnmatch.fnmatchcase(f[2:], m))
    return sorted(f for f in TREE + ['t.bat'] if '/' not in f and fnmatch.fnmatchcase(f, p))
FORMS = [('a', 'a'), ('bc', 'bc'), ('"d e"', '"d e"'), ('"f,g;h:i"', '"f,g;h:i"'), ('""', '""'), ('x=y', 'x=y'), ('a.txt', 'a.txt'), ('nofile.txt', 'nofile.txt'), ('/s', '/s'), ('-1', '-1'),
         ('*.txt', glob), ('f?', glob), ('*.none', glob), ('"b *.txt"', glob), ('s/*', glob), ('s/?.*', glob), ('"s/x *"', glob), ('dir?', glob), ('?', glob), ('!v!', 'v w'), ('!u!', None)]
SEPS = [' ', ',', ';', ':', '\t', '\n', '  ', ' ,', ';;', '\n ', ' : ']
def expect(forms):
    """A list of single elements and sets of lines."""
    return [sorted('[%s]' % x for x in f[1](f[0].strip('"'))) if callable(f[1]) else ['[%s]' % f[1]] for f in forms]
def same(groups):
    def verdict(out):
        l = out.decode('latin1').split('\n'); i = 0
        if l[-1] != '': return 'last line incomplete'
        for g in groups:
            if sorted(l[i:i + len(g)]) != g: return 'elements: expected %r at %d of %r' % (g, i, l[:20])
            i += len(g)
        return None if i == len(l) - 1 else 'more elements: %r' % l[i:i + 3]
    return verdict
def lists():
    base = [f for f in FORMS if f[0] not in ('!v!', '!u!')]
    for n in range(0, 5 if THOROUGH else 4):
        for forms in itertools.product(base if n < 4 else base[:3] + base[10:14], repeat=n):
            ss = [SEPS if n < 3 else [SEPS[(len(forms[0][0]) + k) % 11] for k in range(3)]] * (n - 1)
            for seps in itertools.product(*ss) if n > 1 else [()]:
                for lead, trail in ((('', ''), (' ', ' '), ('\n', '\n')) if n < 3 else (('', ''),)):
                    t = lead
                    for s, f in zip(('',) + seps, forms): t += s + f[0]
                    yield t + trail, forms
def items():
    for i, (t, forms) in enumerate(lists()):
        chk.state(t); chk.transitions += len(forms)
        form = ['for %%%%i in (%s) do echo [%%%%i]\n', 'FOR %%%%i IN (%s) DO (\necho [%%%%i]\n)\n', 'for %%%%j in (%s) do (echo [%%%%j])\n'][i % 3]
        yield Item(form % t, form % t, same(expect(forms)))
    # %%~i strips the quotes; the variable is gone after the loop
    for f in FORMS[:10]:
        t = 'for %%%%i in (%s) do echo [%%%%~i]\necho [%%%%i]\n' % f[0]
        yield Item(t, t, '[%s]\n[%%i]\n' % f[1].strip('"'))
batch(chk, items(), per=300, files=FILES)

# --- patterns: where they begin, and names of every kind
NAMES = ['.hid', '.h.txt', 'a', 'ab.txt', 'x y', 'a&b', 'p+q', '-m', '[z]', 'é', 's/.q', 's/r', 's/t/u', 's t/v w', '.d/e']
def fglob(pat):
    d, _, m = pat.rpartition('/')
    n = d.replace('%cwd%/', '').replace('%cwd%', '')
    parts = [x for x in n.split('/') if x not in ('', '.')]
    while '..' in parts:
        j = parts.index('..')
        parts[max(0, j - 1):j + 1] = []
    n = '/'.join(parts)
    here = [f[len(n) + 1 if n else 0:] for f in NAMES + ['t.bat'] if (f.startswith(n + '/') if n else True)]
    return sorted((d + '/' if d else '') + f for f in here if '/' not in f and fnmatch.fnmatchcase(f, m))
def patterns():
    cs = []
    fl = [(d, None) for d in ('s', 's/t', 's t', '.d')] + [(f, b'') for f in NAMES]
    pats = [d + m for d in ('', './', '././', 's/', './s/', 's/../', 's/./', 's/t/', 's t/', '.d/', '.d/../', '%cwd%/', '%cwd%/s/', '%cwd%/./', 's/t/../../') for m in ('*', '.*', '.h*', '?', '??', 'a*', '*.txt', '*b', '*.*', '-*', '[*', 'nil*', '* *', '?*')]
    for q in range(12):
        t, e = '@echo off\n', []
        for i, p in enumerate(pats):
            if q == 0 and ' ' in p: continue
            lst = p if q == 0 else '"%s"' % p if q == 1 else 'u "%s" v' % p if q == 2 else '"%s" "%s"' % (p, pats[(i * 7 + q * 13) % len(pats)])
            t += 'echo @\nfor %%i in (' + lst.replace('%cwd%', '!cd!') + ') do echo [%%i]\n'
            e.append(sorted('[%s]' % f for f in fglob(p)) + (['[u]', '[v]'] if q == 2 else sorted('[%s]' % f for f in fglob(pats[(i * 7 + q * 13) % len(pats)])) if q > 2 else []))
            chk.state(('pattern', p, q)); chk.transitions += len(e[-1])
        cs.append((script(t + 'echo @\n', files=fl, key='patterns %d' % q, data=pats), e))
    for (c, e), r in zip(cs, run([c for c, _ in cs])):
        chk.traces += 1
        got = [[x for x in p.split('\n') if x] for p in r.out.decode('utf8').split('@\n')[1:-1]]
        cwd = [x for g in got for x in g if x.startswith('[/')]
        cwd = cwd[0][1:cwd[0].rindex('/')] if cwd else ''
        cwd = min((x[1:].rsplit('/', 1)[0] for g in got for x in g if x.startswith('[/')), key=len, default='')
        got = [sorted(x.replace(cwd + '/', '%cwd%/', 1) if cwd and x.startswith('[' + cwd) else x for x in g) for g in got]
        e = [sorted(x) for x in e]
        if got != e:
            j = [i for i in range(len(e)) if i >= len(got) or got[i] != e[i]][:1]
            chk.violation(c.key, c, [e[i] for i in j], [got[i] if i < len(got) else None for i in j], 'pattern %d of the script' % j[0] if j else 'more loops')
        else: chk.outcomes.add(str(e))
patterns()

# --- /L
def num(v, base):
    s, a = ('-', -v) if v < 0 else ('', v)
    return s + ('%d' % a if base == 0 else '0x%x' % a if base == 1 else '0%o' % a if a else '0')
def loops():
    k = 0
    R = range(-8, 9) if THOROUGH else range(-6, 7)
    for a, s, e in itertools.product(R, range(1, 6 if THOROUGH else 5), R):
        k += 1
        t = 'for /L %%%%i in (%s,%s,%s) do echo %%%%i\n' % (num(a, k % 3), num(s, k // 3 % 3), num(e, k // 9 % 3))
        if k % 4 == 0: t = t.replace(',', [' ', ', ', ';', ' , '][k // 4 % 4])
        chk.state((a, s, e)); chk.transitions += max(0, (e - a) // s + 1)
        yield Item(t, t, ''.join('%d\n' % v for v in range(a, e + 1, s)))
    M = 2**31 - 1
    for a, s, e in [(M - 2, 1, M), (M - 2, 2, M), (M - 3, 2, M), (M, 1, M), (M - 5, M, M), (-M - 1, M, M), (0, M, M), (M - 1, 7, M), (-M - 1, 1, -M), (1, M, M - 1), (-M - 1, M - 5, M - 1), (0, 2**30, M), (99999, 1, 100001), (1, 100, 1000)]:
        t = 'for /L %%%%i in (%d,%d,%d) do echo %%%%i\n' % (a, s, e); chk.state((a, s, e))
        yield Item(t, t, ''.join('%d\n' % v for v in range(a, e + 1, s)))
    for bad in ('1,1,x', '1x,1,2', '1,1,2,3', '0x,1,2', '1,1,3 4'):
        t = 'for /L %%%%i in (%s) do echo %%%%i\n' % bad
        yield Item(t, t + 'echo z\n', 'z\n')
batch(chk, loops(), per=300)

# --- nested loops and what ends them
class Stop(Exception): pass
def nests():
    k = 0
    HEAD = [lambda v, m: 'for /L %%%%%s in (1,1,%d) do ' % (v, m), lambda v, m: 'for %%%%%s in (%s) do ' % (v, ' '.join(str(i) for i in range(1, m + 1)))]
    CUT = [('goto out%d', 'out'), ('goto :eof', 'eof'), ('exit /b 3', 'eof'), ('(if 1==1 goto out%d)', 'out'), ('call :eof', None), ('set z=!z!x', None), ('for %%%%q in (1 2) do goto out%d', 'out'), ('goto in%d', 'in')]
    for depth in (1, 2, 3):
        for dims in itertools.product(((2, 3) if depth < 3 else (2,)), repeat=depth):
            for heads in itertools.product((0, 1), repeat=depth):
                for cut in range(len(CUT)):
                    for lvl in range(depth):
                        for turn in itertools.product(*[range(1, d + 1) for d in dims[:lvl + 1]]):
                            k += 1
                            i = k % 1000
                            names = 'ijk'[:depth]
                            c = CUT[cut][0] % i if '%d' in CUT[cut][0] else CUT[cut][0].replace('%%%%', '%%')
                            cond = '.'.join('%%%%%s' % n for n in names[:lvl + 1]).replace('%%%%', '%%')
                            def body(l):
                                h = HEAD[heads[l]](names[l], dims[l]).replace('%%%%', '%%')
                                inner = 'echo %s' % '.'.join('%%' + n for n in names[:l + 1]) + '\n'
                                if l == lvl: inner += 'if %s==%s %s\n' % (cond, '.'.join(map(str, turn)), c)
                                if l + 1 < depth: inner += body(l + 1)
                                inner += 'echo e%d\n' % l
                                return h + '(\n' + inner + ')\n'
                            out = []
                            def go(l, pre):
                                for x in range(1, dims[l] + 1):
                                    p = pre + [x]; out.append('.'.join(map(str, p)))
                                    if l == lvl and p == list(turn) and CUT[cut][1]: raise Stop
                                    if l + 1 < depth: go(l + 1, p)
                                    out.append('e%d' % l)
                            kind = None
                            try: go(0, [])
                            except Stop: kind = CUT[cut][1]
                            t = 'call :l%d\necho r\ngoto x%d\n:l%d\n' % (i, i, i) + body(0) + 'echo after\n:in%d\necho in\ngoto :eof\n:out%d\necho out\ngoto :eof\n:x%d\n' % (i, i, i)
                            out += ['after', 'in', 'r'] if kind is None else ['out', 'r'] if kind == 'out' else ['in', 'r'] if kind == 'in' else ['r']
                            chk.state((dims, heads, cut, turn)); chk.transitions += len(out)
                            yield Item('nest %r %r %s at %r' % (dims, heads, CUT[cut][0], turn), t, '\n'.join(out) + '\n')
batch(chk, nests(), per=60)

# letters which are options and variables: the longest run of options before a variable that exists
def greedy():
    VAL = {'n': 'N.1', 'x': 'd/X.2', 'f': 'F', 'i': 'I.x.y'}
    def opts(v, o):
        k = v.rfind('/') + 1; base = v[k:]; d = base.rfind('.')
        n, x = (base, '') if d < 0 else (base[:d], base[d:])
        return ''.join({'f': '<cwd>/' + v, 'n': n, 'x': x}[c] for c in o) if o else v
    def value(s, names):
        m = 0
        while m < len(s) and s[m] in 'fnx': m += 1
        for k in ([m] if m < len(s) else []) + list(range(m - 1, -1, -1)):
            if s[k] in names: return opts(VAL[s[k]], s[:k]) + s[k + 1:]
        return '%~' + s
    for k in range(1, 16):
        names = [c for j, c in enumerate('nxfi') if k >> j & 1]
        t = ''.join('for %%' + c + ' in (' + VAL[c] + ') do ' for c in names) + '(\n'
        ref = []
        for n in (1, 2, 3, 4) if THOROUGH else (1, 2, 3):
            for s in map(''.join, itertools.product('fnxik', repeat=n)):
                t += 'echo [%%~' + s + '-]\n'; ref.append('[' + value(s + '-', names) + ']'); chk.state((k, s)); chk.transitions += 1
        def verdict(out, ref=ref):
            l = out.decode('latin1').replace('\t', '').split('\n')
            cwd = l[-2]; e = [x.replace('<cwd>', cwd) for x in ref]
            return None if l[:-2] == e else 'expected %r' % [(a, b_) for a, b_ in zip(e, l) if a != b_][:4]
        yield Item('options and variables, defined: ' + ' '.join(names), t + ')\necho !cd!\n', verdict)
batch(chk, greedy(), per=4)

# a loop sees its own changes through !v!, runs zero times without trace, and its list is fixed when it starts
def effects():
    for n in range(0, 6):
        for form in range(3):
            head = ['for /L %%%%i in (1,1,%d) do ' % n, 'for %%%%i in (%s) do ' % ' '.join(map(str, range(1, n + 1))), 'for /L %%%%i in (2,2,%d) do ' % (2 * n)][form].replace('%%%%', '%%')
            vals = [i * (2 if form == 2 else 1) for i in range(1, n + 1)]
            t = 'set n=0\nset l=\n' + head + '(\nset /a n+=%%i\nset l=!l!%%i.\n)\necho !n! !l!\n'
            e = '%d %s\n' % (sum(vals), ''.join('%d.' % v for v in vals))
            t += 'set v=a b c\n' + head + 'set v=!v! %%i\necho !v!\n'
            e += 'a b c' + ''.join(' %d' % v for v in vals) + '\n'
            chk.transitions += n; chk.state(('fx', n, form))
            yield Item(t, t, e)
    t = 'set v=a b\nfor %%i in (%v%) do (\nset v=!v! x\necho %%i\n)\necho !v!\n'
    yield Item(t, t, 'a\nb\na b x x\n')
    for m in range(0, 4):
        t = 'call :f%d 2\ngoto x%d\n:f%d\nfor /L %%%%i in (1,1,%%1) do (\necho %%%%i %d\nif %d gtr 0 call :g%d %%%%i\n)\ngoto :eof\n:g%d\nfor %%%%j in (p q) do echo %%1%%%%j\ngoto :eof\n:x%d\n' % (m, m, m, m, m, m, m, m)
        yield Item(t, t, ''.join('%d %d\n' % (i, m) + ('%dp\n%dq\n' % (i, i) if m else '') for i in (1, 2)))
batch(chk, effects(), per=20)

# --- /R and /D
def trees():
    PATHS = ['a.txt', 'b c.txt', 's/a.txt', 's/n.dat', 's t/a.txt', 's/u/c.txt', 's/u/d e']
    for k in range(0, 2 ** len(PATHS)):
        yield [p for j, p in enumerate(PATHS) if k >> j & 1]
def sub(files):
    cs = []
    for fs in files:
        dirs = {'s', 's t', 's/u', 'r'} | {'r/' + d for d in ('s', 's t', 's/u')}
        fl = [('r', None)] + [('r/' + d, None) for d in ('s', 's t', 's/u', '.v')] + [('r/' + f, b'') for f in fs + ['.v/.w.txt']] + [('out.txt', b'')]
        t, e = '@echo off\n', []
        for base in ('r', 'r/s', '"r/s t"', './r', ''):
            for mask in ('*', '*.txt', '"b *"', '?.*', 'u*', 'none*'):
                for sw, cand in (('/R', ['r/' + f for f in fs + ['.v/.w.txt']]), ('/D', ['r/s', 'r/s t', 'r/s/u', 'r/.v'])):
                    t += 'echo @\nfor %s %s %%%%i in (%s) do echo %%%%i\n' % (sw, base, mask) if base else 'echo @\ncd r\nfor %s %%%%i in (%s) do echo r/%%%%i\ncd ..\n' % (sw, mask)
                    b_ = base.strip('"').replace('./', '') or 'r'
                    e.append(sorted(('./' if base[:1] == '.' else '') + c for c in cand if c.startswith(b_ + '/') and fnmatch.fnmatchcase(c.rsplit('/', 1)[1], mask.strip('"'))))
                    chk.transitions += 1
        t += 'echo @\n'
        chk.state(tuple(fs))
        cs.append((script(t, files=fl, key='/R /D below ' + repr(fs)), e))
    for (c, e), r in zip(cs, run([c for c, _ in cs])):
        chk.traces += 1
        got = [sorted(x for x in p.split('\n') if x) for p in r.out.decode('latin1').split('@\n')[1:-1]]
        if got != e: 
            j = [i for i in range(len(e)) if i >= len(got) or got[i] != e[i]][:1]
            chk.violation(c.key, c, [e[i] for i in j], [got[i] if i < len(got) else None for i in j], 'loop %r of the script' % j)
        else: chk.outcomes.add(str(e))
sub(trees())
chk.sample({'for': 'for %%i in (a;"d e" *.txt) do …', 'elements': ['a', '"d e"', {'files': ['a.txt', 'b c.txt']}]}); chk.sample({'for /L': '(-3,2,4)', 'values': [-3, -1, 1, 3]})
chk.finish()
