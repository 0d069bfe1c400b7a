"""P21: TYPE, MORE, WC and XARGS treat every byte of their input right."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P21', bounds='TYPE: every pair of bytes, every length around the sizes of buffers, every list of up to 3 files; WC: every text of up to 4 (thorough 5) characters over {a b blank newline tab é} with every set of counts; '
            'MORE: every text of up to 5 (thorough 6) characters over {a newline tab} with every option, every width from 74 to 84 and around 158 columns; XARGS: every line of up to 2 (thorough 3) characters over 21 special ones; '
            'all reads cut short, one at a time and all')
def words(alpha, n, m=0): return [''.join(t) for k in range(m, n + 1) for t in itertools.product(alpha, repeat=k)]
SIZES = sorted({2**k + d for k in range(0, 17) for d in (-1, 0, 1)} | {1000, 3 * 1024, 5 * 1024 + 1, 8191, 100000})
SIZES = [n for n in SIZES if n >= 0]
PAT = bytes(range(256)) * 400
def runall(gen, per=400):
    """gen: (case, judge(result) -> complaint)"""
    for part in chunks(gen, per):
        if chk.enough(): return
        for (c, judge), r in zip(part, run([c for c, _ in part])):
            chk.traces += 1; chk.transitions += 1; chk.state(c.key)
            bad = judge(r) if r.status >= 0 else 'the interpreter ended with %d' % r.status
            if bad: chk.violation(c.key, c, bad[0] if isinstance(bad, tuple) else bad, bad[1] if isinstance(bad, tuple) else r.out[:300])
            else: chk.outcomes.add(hash(r.out))
def exactly(b_, status=0):
    def j(r):
        if r.out != b_:
            k = next((i for i, (x, y) in enumerate(zip(r.out, b_)) if x != y), min(len(r.out), len(b_)))
            return '%d bytes, at %d: %r' % (len(b_), k, b_[max(0, k - 8):k + 30]), '%d bytes, at %d: %r' % (len(r.out), k, r.out[max(0, k - 8):k + 30])
        if status is not None and r.status != status: return 'status %r' % status, 'status %r' % r.status
    return j
# --- TYPE
def typing():
    contents = {'every pair of bytes': b''.join(bytes([i, j]) for i in range(256) for j in range(256)), 'nul': b'\0', 'nuls': b'a\0\0b\n\0', 'cr': b'a\r\nb\rc\n', '1a': b'a\x1ab\n', 'nonl': b'a'}
    contents.update({'%d bytes' % n: PAT[7:7 + n] for n in SIZES})
    for k, v in contents.items():
        for t in ('type f', 'type "f"', 'type ./f', 'type f.*', 'type <f', 'type < f | type', '/bin/cat f | type', 'type f | /bin/cat', 'type f > o\n/bin/cat o', 'type f > o\ntype o', 'for /l %i in (1,1,1) do type f', '(type f)', 'type d f'):
            if len(v) > 70000 and '|' in t and len(contents) > 5 and k != 'every pair of bytes': continue
            name = 'f.b' if t == 'type f.*' else 'f'
            yield script('@echo off\n' + t.replace('%i', '%%i') + '\n', files=[(name, v), ('d', None)], key='%s: %s' % (t, k)), exactly(v)
    F = {'e': b'', 'one': b'1', 'two': b'2\n', 'big': PAT[:3000], 'x y': b'\n'}
    for n in (2, 3):
        for names in itertools.product(F, repeat=n):
            t = 'type ' + ' '.join('"%s"' % x if ' ' in x else x for x in names)
            want = b''.join(F[x] for x in names)
            def j(r, names=names, want=want):
                heads = [l.split(b'/')[-1].decode() for l in r.err.split(b'\n')[:-1]]
                if heads != list(names): return 'headings %r' % (names,), repr(r.err)
                return exactly(want)(r)
            yield script('@echo off\n' + t + '\n', files=[(k, v) for k, v in F.items()], key=t), j
            # the headings come before each file
            if n == 2:
                def j2(r, names=names):
                    parts = re.split(rb'^---------- [^\n]*/([^/\n]*)\n', r.out, flags=re.M) if not any(F[x] in (b'1',) or x == 'big' for x in names[:1]) else None
                    if parts is None: return None
                    if [x.decode() for x in parts[1::2]] != list(names) or parts[2::2] != [F[x] for x in names] or parts[0]: return 'each heading before its file', repr(r.out[:200])
                yield script('@echo off\n' + t + ' 2>&1\n', files=[(k, v) for k, v in F.items()], key=t + ' 2>&1'), j2
    def sorted_of(*l):
        return lambda r: None if r.out in [b''.join(p) for p in itertools.permutations(l)] and r.status == 0 else ('the contents in any order', repr(r.out[:200]))
    M = [('a.t', b'A\n'), ('b.t', b'BB'), ('c.t', b'\n'), ('d.x', b'D'), ('s', None), ('s/a.t', b'S\n'), ('t.t', None)]
    for t, l in [('type *.t', [b'A\n', b'BB', b'\n']), ('type ?.x', [b'D']), ('type s/*', [b'S\n']), ('type *.x s/*', [b'D', b'S\n']), ('type s/a.?', [b'S\n']), ('type */a.t', [b'S\n'])]:
        yield script('@echo off\n' + t + '\n', files=M, key=t), sorted_of(*l)
    for t in ('type nofile', 'type *.none', 'type s', 'type nofile a.t', 'type a.t nofile', 'type s t.t', 'type a.t *.none', 'wc nofile', 'wc *.none', 'wc s', 'wc a.t nofile', 'wc /x a.t', 'more nofile', 'more *.none', 'more s', 'more a.t nofile', 'more /T:x a.t', 'more /T:0 a.t', 'more /T:-1 a.t', 'more +x a.t', 'xargs'):
        yield script('@echo off\n' + t + ' >o 2>&1 <nin\nif errorlevel 1 echo bad\n', files=M + [('nin', b'')], key=t), exactly(b'bad\n')
runall(typing())
# --- WC
TEXTS = words(['a', 'b', ' ', '\n', '\t', 'é'], 5 if THOROUGH else 4)
TEXTS += words(['€', '😀', 'ü', ' ', '\n'], 4 if THOROUGH else 3)
def counts(s):
    x = s.encode()
    return {'l': x.count(b'\n'), 'w': len(s.split()), 'c': len(x), 'm': len(s)}
def line(c, fl):
    return ''.join('%d ' % c[f] for f in 'lwcm' if f in (fl or 'c'))
FLAGS = [''.join(f) for n in range(5) for f in itertools.combinations('lwcm', n)]
def wc():
    for part in chunks(list(enumerate(TEXTS)), 300):
        files = [('f%d' % i, t.encode()) for i, t in part]
        text = '@echo off\n'; want = ''
        for i, t in part:
            fl = FLAGS[i % len(FLAGS)] if i % 2 else 'lwcm'
            sw = ' '.join('/' + (c if (i + j) % 3 else c.upper()) for j, c in enumerate(reversed(fl) if i % 5 == 0 else fl))
            form = i % 3
            text += 'wc %s %s\n' % (sw, ['f%d', '<f%d', '"f%d"'][form] % i) if form != 0 or i % 2 else 'type f%d | wc %s\n' % (i, sw)
            want += line(counts(t), fl).rstrip() + ('' if form == 1 or form == 0 and not i % 2 else ' f%d' % i) + '\n'
            chk.state((t, fl, form)); chk.transitions += 1
        c = script(text, files=files, key='wc of texts %r..' % part[0][1], timeout=30000)
        r = run([c])[0]; chk.traces += len(part)
        got = [x.rstrip() for x in r.out.decode('utf-8', 'replace').split('\n')]
        if got != want.split('\n') or r.status:
            w = want.split('\n')
            k = next((k for k in range(len(w)) if k >= len(got) or got[k] != w[k]), len(w) - 1)
            chk.violation('wc of %r: %s' % (part[min(k, len(part) - 1)][1], text.split('\n')[k + 1]), c, w[k], got[k] if k < len(got) else 'nothing')
        else: chk.outcomes.add(hash(r.out))
wc()
def wc_more():
    for n in SIZES:
        s = 'a é\n' * (n // 5) + 'x' * (n % 5)
        for fl in FLAGS:
            if n > 5000 and len(fl) not in (0, 4): continue
            sw = ' '.join('/' + c for c in fl)
            for t in ('wc %s f' % sw, 'wc %s <f' % sw, '/bin/cat f | wc %s' % sw):
                w = line(counts(s), fl)
                yield script('@echo off\n' + t + '\n', files=[('f', s.encode())], key='%s: %d bytes' % (t, n)), (lambda w: lambda r: None if r.out.decode().rstrip() == w and r.status == 0 else (w, repr(r.out)))(w + 'f' if t.endswith(' f') else w.rstrip())
    F = {'e': '', 'a': 'a\n', 'b c': 'é é\n\nx', 's/d': ' x y z\n'}
    for n in (2, 3):
        for names in itertools.product(F, repeat=n):
            for fl in ('', 'l', 'lwcm', 'wm'):
                cs = [counts(F[x]) for x in names]
                w = ''.join('%s%s\n' % (line(c, fl), x) for c, x in zip(cs, names)) + line({k: sum(c[k] for c in cs) for k in 'lwcm'}, fl) + 'Total\n'
                t = 'wc %s %s' % (' '.join('/' + c for c in fl), ' '.join('"%s"' % x for x in names))
                yield script('@echo off\n' + t + '\n', files=[('s', None)] + [(k, v.encode()) for k, v in F.items()], key=t), exactly(w.encode())
runall(wc_more())
# --- MORE
def width(ch): return 1
def more(text, tab=8, squeeze=False, wrap=None):
    """What it displays; wrap: number of columns"""
    rows = []
    lines = text.split('\n'); last = lines.pop()
    out = []; blank = False
    for i, l in enumerate(lines + ([last] if last else [])):
        nl = i < len(lines)
        if l == '' and nl:
            if blank and squeeze: continue
            blank = True
        else: blank = False
        s = ''
        for ch in l: s += ' ' * (tab - len(s) % tab) if ch == '\t' else ch
        out.append((s, nl))
    r = ''
    for s, nl in out:
        if wrap:
            pieces = [s[k:k + wrap] for k in range(0, len(s), wrap)] or ['']
            r += '\n'.join(pieces) + ('\n' if nl or len(pieces[-1]) == wrap else '')
        else: r += s + ('\n' if nl else '')
    return r
MT = words('a\n\t', 6 if THOROUGH else 5)
OPTS = [('', {}), ('/s', {'squeeze': True}), ('/t:4', {'tab': 4}), ('/T2', {'tab': 2}), ('/E /S /T:1', {'tab': 1, 'squeeze': True}), ('/e /p /c', {}), ('/u', {}), ('/a', {})]
def mores():
    for part in chunks(list(enumerate(MT)), 60):
        files = [('f%d' % i, t.encode()) for i, t in part]
        for o, kw in OPTS:
            text = '@echo off\n'; want = []
            for j, (i, t) in enumerate(part):
                text += 'echo \x01@%d\n' % j + ['more %s f%d', 'more %s <f%d', 'type f%d | more %s', 'more f%d %s'][i % 4] % ((o, i) if i % 4 < 2 else (i, o)) + '\n'
                want.append(more(t, **kw))
                chk.state((t, o))
            c = script(text + 'echo \x01@%d\n' % len(part), files=files, key='more %s of texts %r..' % (o, part[0][1]), timeout=30000)
            def j(r, part=part, want=want, o=o):
                outs = split_marks(r.out, len(part) + 1)
                for k, w in enumerate(want):
                    if outs[k] is None or r.status: return 'output', 'none, status %d' % r.status
                    if outs[k] != w.encode(): return 'more %s of %r: %r' % (o, part[k][1], w), repr(outs[k])
            yield c, j
    # wide lines: with or without rows of 79 columns, nothing is lost
    for n in list(range(74, 85)) + [157, 158, 159, 160, 237, 238, 1000, 5000]:
        for ch in ('x', 'é', '\u20ac', '\U0001f600'):
            for rest in ('', '\n', '\n\n', '\n\n\n', '\ny', '\n\ny\n', '\ny\n\n\nz\n'):
                t = ch * n + rest
                for pre in ('', 'p\n', 'q' * 79 + '\n'):
                    for o, kw in (('', {}), ('/s', {'squeeze': True})) if ch == 'x' or rest == '\n\ny\n' else (('', {}),):
                        ok = [more(pre + t, wrap=79, **kw).encode(), more(pre + t, **kw).encode()]
                        yield script('@echo off\nmore %s f\n' % o, files=[('f', (pre + t).encode())], key='more %s: %r + %d times %r + %r' % (o, pre[:2], n, ch, rest)), (lambda ok: lambda r: None if r.out in ok else (show(ok[0]), show(r.out)))(ok)
    # the same state for each file
    for a, b_ in itertools.product(['a\n\n', 'x' * 79, 'x' * 79 + '\n', '\n', 'a', '\n\nb\n', '\ta\n'], repeat=2):
        for o in ('', '/s'):
            kw = {'squeeze': True} if o else {}
            ok = [(more(a, wrap=w, **kw) + more(b_, wrap=w, **kw)).encode() for w in (79, None)]
            if o and a.endswith('\n\n') or o and a == '\n': ok += [x.replace(b'\n\n\n', b'\n\n') for x in ok] + [b'\n' + x.lstrip(b'\n') for x in ok] + [(more(a + b_, **kw)).encode()]
            for t in ('more %s f g' % o, 'more %s f\nmore %s g' % (o, o)):
                if o and t.startswith('more /s f g') is False: okk = [(more(a, wrap=w, **kw) + more(b_, wrap=w, **kw)).encode() for w in (79, None)]
                else: okk = ok
                yield script('@echo off\n' + t + '\n', files=[('f', a.encode()), ('g', b_.encode())], key='%s: %r, %r' % (t, a, b_)), (lambda ok: lambda r: None if r.out in ok else (show(ok), show(r.out)))(okk)
    # +n
    for n in range(0, 8):
        t = ''.join('l%d\n' % i for i in range(1, 7)); l = t.splitlines(True)
        ok = {0: [t]}.get(n) or [''.join(l[n - 1:]), ''.join(l[n:])]
        yield script('@echo off\nmore +%d f\n' % n, files=[('f', t.encode())], key='more +%d' % n), (lambda ok: lambda r: None if r.out.decode() in ok else (ok, show(r.out)))(ok)
        ok2 = [''.join(x) for x in ([o + o] for o in ok)]
        yield script('@echo off\nmore +%d f f\n' % n, files=[('f', t.encode())], key='more +%d of two' % n), (lambda ok: lambda r: None if r.out.decode() in ok else (ok, show(r.out)))(ok2 + [ok[-1] + t, ok[0] + t])
    # escape codes and bytes of every kind go through
    for t in ('\x1b[31mred\x1b[0m\n', '\x1b[1;31m\n', '\x1b[', '\x1b', '\x1b[3', '\x1bc\n', '\x1b]x\n', 'a\x1b[31', 'é\n', 'é', '\x07\x08\x0b\n'):
        for o in ('', '/a', '/u', '/s'):
            yield script('@echo off\nmore %s f\n' % o, files=[('f', t.encode())], key='more %s: %r' % (o, t)), exactly(t.encode())
    for n in SIZES:
        t = ('abc de\n' * (n // 7 + 1))[:n]
        yield script('@echo off\nmore f\n', files=[('f', t.encode())], key='more: %d bytes' % n), exactly(t.encode())
        yield script('@echo off\nmore <f | more | type\n', files=[('f', t.encode())], key='more | more | type: %d bytes' % n), exactly(t.encode())
runall(mores())
# --- XARGS
XC = ['a', ' ', ';', ',', '\t', '&', '|', '<', '>', '^', '%', '!', '$', '"', "'", '(', ')', '=', '\\', '*', '1']
XL = [l for l in words(XC, 3 if THOROUGH else 2, 1) if not l.lstrip(' \t;,=').startswith('"')] + ['%a%', '!a!', '!a! b', '%a% b', '$1', '$* x', '%1', '%%', '%~f1', '2>x', 'a>b', '&&', '||', 'a&&b c', '%%i', '^^^^', '^!', 'x=y z', '(a b)', 'rem', '::', 'é ü', 'a' * 5000, 'b c' * 900,
     'a"b"c', 'a "b" c', 'a "b', 'x^"y', '!"!', '~', '`a`', '{a,b}', '[a]', '#', '@echo', '/?', '--', 'a\\', 'a \\', "it's", 'a=b']
def xargs():
    for opt in ('', 'setlocal disabledelayedexpansion\n', 'setlocal enabledelayedexpansion\n'):
        for part in chunks(XL, 200):
            want = b''.join(b'[' + l.encode() + b']\n' for l in part)
            for t in ('xargs /usr/bin/printf "[%%s]\\n" <l', 'type l | xargs /usr/bin/printf "[%%s]\\n"', 'for /l %%i in (1,1,1) do xargs /usr/bin/printf "[%%s]\\n" <l'):
                if 'for' in t and part[0] != XL[0]: continue
                chk.transitions += len(part)
                if 'for' in t: t = t.replace('[%%s]', '[%%s]')
                yield script('@echo off\nset a=VAL\n' + opt + t + '\n', files=[('l', '\n'.join(part).encode() + b'\n'), ('b', b''), ('ab', b'')], key='%s%s: %r..' % (opt, t, part[0])), exactly(want, None)
    # an internal command, a procedure, a label, the last line without an end, DOS ends
    simple = ['a', 'b c', 'd;e', 'f&g', '$h', 'i|j', '%k%', '!a!', 'l^m', '1']
    for end in ('', '\n'):
        for nl in ('\n', '\r\n'):
            data = (nl.join(simple) + end.replace('\n', nl)).encode()
            for n in range(0, len(simple) + 1):
                d = (nl.join(simple[:n]) + (end.replace('\n', nl) if n else '')).encode()
                q = ' '.join('"%s"' % x if ' ' in x or ';' in x else x for x in simple[:n])
                yield script('@echo off\nset a=VAL\nxargs echo z <l\n', files=[('l', d)], key='xargs echo: %d lines, %r' % (n, nl + end)), (lambda w: lambda r: None if re.sub(b' +', b' ', r.out).strip() == w and r.out.endswith(b'\n') else (show(w), show(r.out)))(('z ' + q).strip().encode())
                yield script('@echo off\nset a=VAL\nxargs /usr/bin/printf "[%%s]" z <l\n', files=[('l', d)], key='xargs printf: %d lines, %r' % (n, nl + end)), exactly(b''.join(b'[%s]' % x.encode() for x in ['z'] + simple[:n]))
    yield script('@echo off\nxargs type <l\n', files=[('l', b'x y\nz\n'), ('x y', b'1\n'), ('z', b'2\n')], key='xargs type'), exactly(b'1\n2\n')
    yield script('@echo off\ndir /b *.d | xargs wc /l\n', files=[('x y.d', b'1\n'), ('z.d', b'2\n\n')], key='dir | xargs wc'), lambda r: None if sorted(r.out.split(b'\n')) == sorted([b'1 x y.d', b'2 z.d', b'3 Total', b'']) else ('counts', show(r.out))
    yield script('@echo off\nxargs exit /b <l\necho no\n', files=[('l', b'3\n')], key='xargs nosuch'), lambda r: None
    yield script('@echo off\nxargs /bin/sh -c "exit 3" <l\necho !errorlevel!\n', files=[('l', b'a\n')], key='status of xargs'), exactly(b'3\n')
runall(xargs())
# --- reads cut short
def short():
    L = ['one two', '', 'x' * 100, 'three', '', '', '\ttab', 'é' * 60, 'last one'] * 3
    f = '\n'.join(L).encode()
    for cmd in ('type f', 'type <f', 'wc /l /w /c /m f', 'wc /m <f', 'find "one" f', 'find /n /v "x" <f', 'more f', 'more /s <f', 'xargs echo <f', 'type f g', 'for /f "tokens=1*" %%i in (f) do echo [%%i][%%j]', 'set /p v=<f\necho !v!', 'call s', '(set /p v=&set /p w=&set /p x=)<f\necho !v!!w!!x!'):
        def mk(spec):
            return Case('%s, %s' % (cmd, spec), [cbuild('lib/fault.c'), 'log', spec, program('pbat'), 't.bat'], [('f', f), ('g', b'gg\n'), ('s.bat', b'echo s1\r\ngoto b\n:a\necho a\ngoto :eof\n:b\necho b\ngoto a\n'), ('t.bat', b('@echo off\n' + cmd + '\n'))], snap=True)
        yield cmd, mk
for cmd, mk in short():
    r0 = run([mk('-')])[0]
    log = r0.tree['log'][2].decode().splitlines()
    reads = [i for i, l in enumerate(log, 1) if l.split()[0] in ('read', 'write')]
    specs = ['%d:%s' % (i, m) for i in reads for m in 'sh'] + ['*:s', '*:h']
    chk.extra.setdefault('calls', {})[cmd] = len(reads)
    def strip(t): return sorted((k, v[2]) for k, v in t.items() if k != 'log')
    for s, r in zip(specs, run([mk(s) for s in specs])):
        chk.traces += 1; chk.transitions += 1; chk.state((cmd, s))
        if r.out != r0.out or r.status != r0.status or strip(r.tree) != strip(r0.tree): chk.violation('%s, %s' % (cmd, s), mk(s), show(r0.out)[:300], show(r.out)[:300], 'short reads change the result')
    if chk.enough(): break
chk.sample({'xargs line': 'a&b c', 'parameter': 'a&b c'}); chk.sample({'wc of': 'a \né', 'counts': counts('a \né')})
chk.assumptions += ['MORE is run without a terminal', 'MORE may cut lines into rows of 79 columns or leave them', 'characters are counted in well-formed UTF-8', 'XARGS: lines that begin with a quote are taken as they are']
chk.finish()
