"""P11: FOR /F: which lines are taken, how they are cut into tokens, and where the lines come from."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P11', bounds='every line of up to 4 (thorough 5) characters over {a b blank ,} (341, thorough 1365 lines, and lines with ; and tab) under every option string: 60 token lists x '
            '8 delimiter sets, eol and skip, spelled in one or several parameters; the same lines from files, several files, strings, commands, back quotes; lines of up to 20000 characters; nested loops')
N = 5 if THOROUGH else 4
def all_lines(alpha, n):
    return [''.join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]
LINES = all_lines('ab ,', N)
LINES2 = all_lines('a; ,', 3) + all_lines(';b\t', 3) + ['one two three four five six', 'k: v w', ';x', ' ;x', 'aa bb  cc   dd', 'tail  ', '   lead', 'é à', 'x=y;z:t', "it's", 'a.b.c.d.e.f.g']
def tokens_of(line, delims):
    """-> list of (start, end)"""
    res, i = [], 0
    while i < len(line):
        while i < len(line) and line[i] in delims: i += 1
        if i >= len(line): break
        j = i
        while j < len(line) and line[j] not in delims: j += 1
        res.append((i, j)); i = j
    return res
def parse(spec):
    """Token list -> list of (first, last); last None = to the end of the line"""
    sets, last = [], 0
    for x in spec.replace(' ', '').replace('0x2', '2').split(','):
        m = re.fullmatch(r'(\d+)?(?:([-.])(\d+|\*))?(\*)?', x)
        n, op, p, star = m.groups()
        if n is None: sets.append((last + 1, None)); continue
        n = int(n)
        if star: sets += [(n, n), (n + 1, None)]; continue
        if op is None: sets.append((n, n)); last = n
        elif op == '-':
            p = int(p); sets += [(k, k) for k in range(n, p + 1)]; last = p
        elif p == '*': sets.append((n, None))
        else: sets.append((n, int(p))); last = int(p)
    return sets
def values(line, spec, delims):
    tk = tokens_of(line, delims); out = []
    for a, b_ in parse(spec):
        if a > len(tk): out.append('')
        elif b_ is None or b_ > len(tk): out.append(line[tk[a - 1][0]:])
        else: out.append(line[tk[a - 1][0]:tk[b_ - 1][1]])
    return out
TOK1 = ['1', '2', '3', '4', '*', '1*', '2*', '1-2', '1-3', '2-3', '2-4', '1.2', '1.3', '2.3', '2.4', '2.*', '1.*', '3*', '1-1', '2.2']
TOK = TOK1 + [a + ',' + b_ for a in ('1', '2', '3', '1-2', '2.3') for b_ in ('1', '2', '4', '*', '2*', '2-3', '1.2')] + ['3,2,1', '1,2,3', '1,2,*', '4-6,5-7', '1-3,*', '2,1-2,3*', '1,1,1', '0x2', '01,2']
DEL = [None, ' ', ',', ' ,', 'a', '', 'ab,', ', ', '0123456789./:-_xyz,+b', ';', ',;', ' ;']
def opts(tok, delims, eol, skip, k):
    """The options, in one of several spellings"""
    o = []
    if tok is not None: o.append('tokens=' + tok)
    if eol is not None: o.append('eol=' + eol)
    if skip is not None: o.append('skip=%s' % (skip if k % 3 else hex(skip)))
    if k % 2: o.reverse()
    if k % 5 == 1: o = [x.upper() if 'eol' not in x else x for x in o]
    # delims last if it ends with a blank
    if delims is not None: o.insert(len(o) if k % 3 else 0, 'delims=' + delims)
    if k % 4 == 0 and o: return ' '.join('"%s"' % x for x in o)
    if k % 4 == 2 and o and delims is not None and o[0].startswith('delims') and delims.strip(): return '"%s" "%s"' % (o[0], ' '.join(o[1:])) if len(o) > 1 else '"%s"' % o[0]
    return '"%s"' % ' '.join(o) if o else ''
VARS = 'abcdefghijklm'
def show_vars(n): return ''.join('[%%%%%s]' % v for v in VARS[:n]).replace('%%%%', '%%')
def expect(lines, tok, delims, eol, skip):
    d = ' ' if delims is None else delims; e = eol if eol is not None else '' if ';' in d else ';'     # a delimiter is no mark of a comment unless told
    out = []
    for l in lines[skip or 0:]:
        if l and l[0] in e: continue
        out.append(''.join('[%s]' % v for v in values(l, tok or '1', d)))
    return ''.join(x + '\n' for x in out)
# --- 1: options on a whole file of lines
def options():
    k = 0
    for f, lines in (('l1', LINES), ('l2', LINES2)):
        for tok in TOK:
            for delims in DEL:
                if f == 'l2' and delims is None: continue     # tab is not documented as a delimiter
                k += 1
                yield k, f, lines, tok, delims, None, None
        for eol in (None, ';', 'a', ',', 'ab', ' ', '; ', 'x'):
            for skip in (None, 0, 1, 2, 17, len(lines) - 1, len(lines), len(lines) + 5):
                for tok in (None, '1', '1,2', '*', '2*'):
                    if f == 'l2' and tok is None: continue
                    for delims in (None, ',', ' '):
                        if f == 'l2' and delims is None: continue
                        if eol is not None and eol.strip() != eol and k % 4 == 2: k += 1
                        k += 1
                        yield k, f, lines, tok, delims, eol, skip
def items():
    for k, f, lines, tok, delims, eol, skip in options():
        n = len(parse(tok or '1'))
        if eol is not None and eol.endswith(' ') and k % 4: o = ' '.join('"%s"' % x for x in (['tokens=' + tok] if tok else []) + ['eol=' + eol] + (['skip=%d' % skip] if skip is not None else []) + (['delims=' + delims] if delims is not None else []))
        elif delims is not None and delims.endswith(' ') or delims == '': o = ' '.join('"%s"' % x for x in (['tokens=' + tok] if tok else []) + (['eol=' + eol] if eol is not None else []) + (['skip=%d' % skip] if skip is not None else []) + ['delims=' + delims])
        else: o = opts(tok, delims, eol, skip, k)
        t = 'for /F %s %%%%a in (%s) do echo %s\n' % (o, f, show_vars(n))
        chk.state((f, tok, delims, eol, skip)); chk.transitions += len(lines)
        yield Item(t, t, expect(lines, tok, delims, eol, skip))
def blob(lines): return ''.join(l + '\n' for l in lines).encode()
batch(chk, items(), per=12, files=[('l1', blob(LINES)), ('l2', blob(LINES2))], timeout=20000)

# --- 2: sources
SRC = [['a b c'], ['a,b', '', ';x', 'c  d'], ['  k v  '], ['x'], [''], [], ['p q', 'r', '', '', 's t u']]
def sources():
    k = 0
    for tok, delims in [('1', None), ('1,2', None), ('*', None), ('2*', ' '), ('1-3', ','), ('1', ''), ('2', None)]:
        n = len(parse(tok))
        o = '"tokens=%s"' % tok + ('' if delims is None else ' "delims=%s"' % delims)
        sv = show_vars(n)
        for i, lines in enumerate(SRC):
            for back in (0, 1):
                u = [' usebackq', ' "USEBACKQ"', ' useBackq'][i % 3] * back
                q1, q2 = ('"', "'") if not back else ("'", '`')
                e = expect(lines, tok, delims, None, None)
                fn = '"s %d"' % i if back else 's%d' % i
                yield 'for /F %s%s %%%%a in (%s) do echo %s\n' % (o, u, fn, sv), e
                yield 'for /F %s%s %%%%a in (%stype s%d%s) do (\necho %s\n)\n' % (o, u, q2, i, q2, sv), e
                yield 'for /F %s%s %%%%a in (%s/bin/cat s%d%s) do echo %s\n' % (o, u, q2, i, q2, sv), e
                yield 'for /F %s%s %%%%a in (%stype s%d ^| /bin/cat%s) do echo %s\n' % (o, u, q2, i, q2, sv), e
                if len(lines) == 1:
                    yield 'for /F %s%s %%%%a in (%s%s%s) do echo %s\n' % (o, u, q1, lines[0], q1, sv), e if lines[0] else ''
                if len(lines) == 1 and lines[0].strip() == lines[0] and lines[0]: yield 'for /F %s%s %%%%a in (%secho %s%s) do echo %s\n' % (o, u, q2, lines[0], q2, sv), e
                for j in range(0, len(SRC), 2):
                    yield 'for /F %s%s %%%%a in (s%d s%d) do echo %s\n' % (o, u, i, j, sv), e + expect(SRC[j], tok, delims, None, None)
                yield 'for /F %s%s %%%%a in (s%d s1 s6 s%d) do echo %s\n' % (o, u, i, i, sv), e + expect(SRC[1], tok, delims, None, None) + expect(SRC[6], tok, delims, None, None) + e
                yield 'for /F %s%s %%%%a in (s%d nofile s1) do echo %s\n' % (o, u, i, sv), e
                yield 'for /F %s%s %%%%a in (nofile s%d) do echo %s\n' % (o, u, i, sv), ''
        for j in (1, 2, 3):
            yield 'for /F "skip=%d tokens=%s" %%%%a in (s6 s1) do echo %s\n' % (j, tok, sv), expect(SRC[6] + SRC[1], tok, None, None, j)
    yield 'for /F "tokens=1,2" %%%%a in (\'echo a b\necho c d\n\') do echo [%%%%a][%%%%b]\n', '[a][b]\n[c][d]\n'
    for o in ('"usebackq tokens=2"', '"tokens=2 usebackq"', '"UseBackQ" "tokens=2"', '"tokens=2" usebackq', 'usebackq "tokens=2"', 'USEBACKQ tokens=2', '"delims=, usebackq tokens=2"'):
        yield 'for /F %s %%%%%%%%a in (\'p,q, r\') do echo [%%%%%%%%a]\n' % o, '[q]\n' if 'delims' in o else '[r]\n'
    yield 'set v=x y z\nfor /F "tokens=2" %%%%a in ("!v!") do echo [%%%%a]\nfor /F "tokens=2" %%%%a in (\'echo !v!\') do echo [%%%%a]\n', '[y]\n[y]\n'
    yield 'set v=1\nfor /F %%%%a in (\'set v^=2^&echo x\') do echo [%%%%a]!v!\necho !v!\n', '[x]1\n1\n'
    yield 'set v=1\nfor /F %%%%a in (\'exit 3\') do echo [%%%%a]\necho still\n', 'still\n'
def sitems():
    for t, e in sources():
        t = t.replace('%%%%', '%%'); chk.state(t); chk.transitions += 1
        yield Item(t, t, e)
files = [('s%d' % i, blob(l)) for i, l in enumerate(SRC)] + [('s %d' % i, blob(l)) for i, l in enumerate(SRC)]
batch(chk, sitems(), per=40, files=files)

# --- 3: long lines, no newline at the end, variables at the end of the alphabet, nesting, leaving the loop
def misc():
    LENS = sorted({2**k + d for k in range(5, 13) for d in (-2, -1, 0, 1)} | {20000})
    for n in LENS:
        chk.transitions += 3; chk.state(('long', n))
        yield Item('line of %d' % n, 'for /F "tokens=1,2" %%%%a in (g%d) do echo [%%%%b][%%%%a]\n' % n, '[z][%s]\n[t][s]\n' % ('x' * n), data=('g%d' % n, b'x' * n + b' z\ns t'))
        yield Item('%d tokens' % n, 'for /F "tokens=%d,%d*" %%%%a in (h%d) do echo [%%%%a][%%%%b][%%%%c]\n' % (n - 1, n, n), '[t%d][t%d][end e]\n' % (n - 1, n), data=('h%d' % n, b' '.join(b't%d' % i for i in range(1, n + 1)) + b' end e\n'))
    for n in (1, 2, 5, 20, 31, 46):
        s = ' '.join('w%d' % i for i in range(1, n + 1))
        v = [0x21 + (0x61 - 0x21 + i) % (0x80 - 0x21) for i in range(n)]
        use = [(i, c) for i, c in enumerate(v) if chr(c).isalpha()]
        t = 'for /F "tokens=1-%d" %%%%a in ("%s") do echo ' % (n, s) + ' '.join('[%' + '%' + chr(c) + ']' for _, c in use) + '\n'
        e = ' '.join('[w%d]' % (i + 1) for i, _ in use) + '\n'
        # all of them are free again afterwards
        yield Item('%d variables' % n, t + t + 'for %%i in (Q) do echo [%%i]\n', e + e + '[Q]\n')
    line = ' '.join('w%d' % i for i in range(1, 71))
    for a in list(range(1, 40 if THOROUGH else 20)) + [30, 31, 32, 33, 60, 63, 64, 65]:
        for b_ in sorted({a, a + 1, a + 2, a + 3, 15, 16, 17, 31, 32}):
            if not a <= b_ <= a + 22: continue
            for spec in ('%d-%d,*', '%d-%d', '%d.%d,*', '%d.%d', '%d,%d,*', '%d,%d*', '%d-%d,2*'):
                sp = spec % (a, b_); v = values(line, sp, ' ')
                if len(v) > 26: continue
                chk.transitions += len(v); chk.state(('range', sp))
                yield Item('tokens=' + sp, 'for /F "tokens=%s" %%%%a in ("%s") do echo %s\n' % (sp, line, ''.join('[%%%%%c]' % (97 + i) for i in range(len(v))).replace('%%%%', '%%')), ''.join('[%s]' % x for x in v) + '\n')
    for depth in (2, 3):
        t = ''.join('for /F "tokens=1,2" %%%%%s in (n%d) do ' % ('acegi'[d], d) for d in range(depth)).replace('%%%%', '%%') + 'echo ' + ''.join('[%%%s]' % c for c in 'abcdef'[:2 * depth]).replace('%', '%%') + '\n'
        rows = [[('p%d' % (2 * i), 'p%d' % (2 * i + 1)) for i in range(d + 2)] for d in range(depth)]
        yield Item('nested %d' % depth, t, ''.join(''.join('[%s][%s]' % r for r in c) + '\n' for c in itertools.product(*rows)))
    # reassigning a variable of an outer loop is refused
    t = 'for %%b in (x) do for /F "tokens=1,2" %%a in ("1 2") do echo [%%a]\necho end\n'; yield Item(t, t, 'end\n')
    t = 'for /F "tokens=2" %%a in ("1 2") do for /F "tokens=1-3" %%X in ("5 6 7") do echo %%a%%X%%Z\n'; yield Item(t, t, '257\n')
    u = 0
    for src in ('g64', "'type g64'", "'/bin/cat g64'", "'type big'", "'/bin/cat big '", 'big', '"k l"'):
        for cut, skip in itertools.product(('goto o', 'goto :eof', 'exit /b 0'), ('', '"skip=1" ', '"skip=2" ')):
            u += 1; i = u
            if skip and (src == '"k l"' or '64' in src): continue
            t = ('call :l%d\necho r\ngoto x%d\n:l%d\nfor /F ' + skip + '%%%%a in (%s) do (\necho in\n%s\n)\necho no\n:o%d\necho o\ngoto :eof\n:x%d\n') % (i, i, i, src, cut + (str(i) if cut == 'goto o' else ''), i, i)
            t = t.replace('%%%%', '%%'); chk.state(t)
            yield Item('leaving: ' + t, t, 'in\n' + ('o\n' if cut == 'goto o' else '') + 'r\n')
mi = list(misc())
mf = [it.data for it in mi if it.data] + [('n%d' % d, blob(['p%d p%d' % (2 * i, 2 * i + 1) for i in range(d + 2)])) for d in range(3)] + [('big', b'a line of text\n' * 30000)]
batch(chk, mi, per=6, files=lambda its: [it.data for it in its if it.data] + [f for f in mf if f[0][0] in 'nb' or f[0] == 'g64'], timeout=20000)
# CMDLYCORRECT: empty lines are left out of the input
def cmdly():
    cs = []
    for lines in itertools.product(['', 'a b', ';x', ' c'], repeat=4 if THOROUGH else 3):
        for o, tok in (('', '1'), ('"tokens=*"', '*'), ('"delims="', None), ('"skip=1"', '1')):
            full = [l for l in lines if l]
            if o == '"skip=1"': full = full[1:]
            want = ''.join('[%s]\n' % (l if tok is None else values(l, tok, ' ')[0]) for l in full if l[0] != ';')
            t = '@echo off\n' + ''.join('for /F %s %%%%a in (%s) do echo [%%%%a]\necho -\n' % (o, s) for s in ("l", "'type l'", "'/bin/cat l'"))
            cs.append((Case('CMDLYCORRECT: %r %s' % (lines, o), [program('pbat'), '/a:cve', 't.bat'], [('t.bat', t.encode()), ('l', blob(lines))], timeout=20000), (want + '-\n') * 3))
            chk.state(('cmdly', lines, o)); chk.transitions += 3
    for (c, e), r in zip(cs, run([c for c, _ in cs])):
        chk.traces += 1; got = r.out.decode('latin1')
        if got != e: chk.violation(c.key, c, e, got, 'lines taken by the loops')
        else: chk.outcomes.add(e)
cmdly()
# a string of several lines, as in the example of the manual
def multi():
    yield Item('for /F over a quoted string of two lines', 'FOR /F "tokens=1,* delims=: " %%A IN ("Content-Type: text/plain\nConnection: keep-alive") DO (\nECHO [%%A][%%B]\n)\n', '[Content-Type][text/plain]\n[Connection][keep-alive]\n')
    yield Item('for /F over a quoted string of two lines, one line', 'for /F %%a in ("x y\nz") do echo [%%a]\n', '[x]\n[z]\n')
    yield Item('for /F usebackq over two lines', 'for /F "usebackq" %%a in (\'x y\nz t\') do echo [%%a]\n', '[x]\n[z]\n')
batch(chk, multi(), per=1)
chk.sample({'for /F': '"tokens=2,1-2,3*" "delims=,"', 'line': 'a,,b', 'variables': values('a,,b', '2,1-2,3*', ',')})
chk.finish()
