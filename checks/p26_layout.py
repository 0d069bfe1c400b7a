"""P26: a script means the same however its lines are laid out and wherever they are read from."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P26', bounds='%d programs made of blocks, loops, labels, calls and input, with every single decoration at every line and every pair (thorough: every triple) of them in small programs; ends of line, end of file, read as a file, '
            'with CMDLYCORRECT, from standard input, by CALL, by name; every length of line up to 700 and around the powers of two up to 65536; every history of up to 3 (thorough 4) additions of a script to itself' % 16)
# '.' before a line: no statement may be put before it (the line goes on)
PROGS = [
    ('echo a\necho b\necho c', 'a\nb\nc\n'),
    ('(\necho a\necho b\n)\necho c', 'a\nb\nc\n'),
    ('(echo a\n(echo b\necho c)\necho d)\necho e', 'a\nb\nc\nd\ne\n'),
    ('if 1==1 (\necho a\n) else (\necho b\n)\necho c', 'a\nc\n'),
    ('if 1==2 (\necho a\necho x\n) else (\necho b\n)\necho c', 'b\nc\n'),
    ('for %%i in (1 2) do (\necho %%i\necho -\n)\necho c', '1\n-\n2\n-\nc\n'),
    ('goto x\necho no\n:x\necho a\ngoto y\necho no\n:y\necho b', 'a\nb\n'),
    ('set n=0\n:l\nset /a n=n+1 >nul\necho %n%\nif %n% lss 3 goto l\necho end', '1\n2\n3\nend\n'),
    ('call :s 1\necho m\ncall :s 2\ngoto :eof\n:s\necho s%1\ngoto :eof', 's1\nm\ns2\n'),
    ('call :s& echo !errorlevel!\ngoto e\n:s\nexit /b 7\n:e\necho e', '7\ne\n'),
    ('set v=1\nset w=%v%%v%\necho %w%\n(set v=2\necho !v!%v%)\necho %v%', '11\n21\n2\n'),
    ('echo a& echo b\necho c && echo d\nnosuch 2>nul || echo e\necho f| find /c "f"', 'a\nb\nc \nd\ne\n1\n'),
    ('(\necho a\nif 1==1 (\nfor %%i in (1 2) do (\necho %%i\n)\n)\n)>o\ntype o\necho z', 'a\n1\n2\nz\n'),
    ('def p=echo $1-$2\np a b\np c d\necho e', 'a-b\nc-d\ne\n'),
    ('setlocal\nset v=1\necho [%v%]\nendlocal\necho [%v%]', '[1]\n[]\n'),
    ('pushd d\necho %errorlevel%\npopd\nset /a 1+1\necho.\necho e', None),
]
PROGS = PROGS[:15] + [('@(\necho a\n@echo b\n)\n@if 1==1 (\necho c\n) else (\necho d)\n@for %%i in (1 2) do (\n@echo %%i\n)\necho e', 'a\nb\nc\n1\n2\ne\n'), ('goto x\n:xy\necho no\n:xz x\necho no\n:x\necho a', 'a\n'), ('echo x^\ny' if 0 else 'echo "a b"  c\necho ^&d\necho %%e', '"a b"  c\n&d\n%e\n')]
DEC = [None, ['']] + [[x] for x in ('  \t ', ':: note (|>&"', 'rem note', ':unused', '  :: note', '\trem', ': :', ';')] + [['', ':: a', '  ', ':un used', '']]
IND = ['', '  ', '\t', '    \t']
def layout(lines, decs, ind, nl, end):
    """decs: {line: decoration}; ind: how lines are indented"""
    out = []
    for i, l in enumerate(lines):
        out += decs.get(i) or []
        out.append((IND[(i * 7 + ind) % len(IND)] if ind else '') + l)
    out += decs.get(len(lines)) or []
    t = nl.join(out)
    return t + (nl if end else '')
MODES = ['file', 'cmdly', 'stdin', 'call', 'name', 'block']
def case(text, mode, key):
    files = [('d', None)]
    cr = text.endswith('\r\n') or '\r\n' in text
    if mode == 'stdin':
        return Case(key, [program('pbat'), '/a:eq'], files, stdin=b('echo off\n' + text), timeout=20000)
    t = b('@echo off' + ('\r\n' if cr else '\n') + text)
    if mode == 'file': return Case(key, [program('pbat'), 't.bat'], files + [('t.bat', t)], timeout=20000)
    if mode == 'cmdly': return Case(key, [program('pbat'), '/a:cve', 't.bat'], files + [('t.bat', t)], timeout=20000)
    first = {'call': '@echo off\ncall s.bat\n', 'name': '@echo off\ns.bat\n', 'block': '@echo off\n(call s.bat)\n'}[mode]
    return Case(key, [program('pbat'), 't.bat'], files + [('t.bat', b(first)), ('s.bat', t)], env=ENV + ['PATHEXT=.bat'], timeout=20000)
def layouts():
    for pi, (p, want) in enumerate(PROGS):
        lines = p.split('\n')
        combos = [{}]
        for i in range(len(lines) + 1): combos += [{i: d} for d in DEC[1:]]
        if len(lines) <= 5:
            for i, j in itertools.combinations(range(len(lines) + 1), 2):
                combos += [{i: d, j: e} for k, (d, e) in enumerate(itertools.product(DEC[1:], repeat=2)) if THOROUGH or (i + j + k) % 3 == 0]
        else:
            for i, j in itertools.combinations(range(len(lines) + 1), 2):
                combos += [{i: d, j: e} for k, (d, e) in enumerate(itertools.product(DEC[1:], repeat=2)) if (i * 3 + j * 5 + k) % (7 if THOROUGH else 29) == 0]
        if THOROUGH and len(lines) <= 4:
            for s in itertools.combinations(range(len(lines) + 1), 3):
                combos += [dict(zip(s, d)) for k, d in enumerate(itertools.product(DEC[1:], repeat=3)) if k % 5 == 0]
        combos += [{i: d for i in range(len(lines) + 1)} for d in DEC[1:]]
        for k, c in enumerate(combos):
            for nl, end, ind in ((('\n', 1, 0), ('\r\n', 1, k), ('\n', 0, k + 1), ('\r\n', 0, 0)) if k < 40 else (('\n', 1, k), ('\r\n', 0, k + 1)) if k % 2 else (('\r\n', 1, k + 2), ('\n', 0, k))):
                t = layout(lines, c, ind, nl, end)
                ms = MODES if k % 7 == 0 else (MODES[k % 6], MODES[(k + 1 + pi) % 6])
                for m in dict.fromkeys(ms):
                    if m in ('cmdly',) and 'call :s' in p and 0: continue
                    if m == 'stdin' and (':l\n' in p or 'goto' in p or 'call :' in p): continue
                    chk.state((t, m)); chk.transitions += len(lines)
                    yield m, t, want
def clean(out, mode):
    o = out.decode('utf-8', 'surrogateescape')
    if mode == 'stdin':
        # the prompt for the first line
        i = o.find('>')
        o = o[i + 1:]
    return o.replace('\r\n', '\n') if 0 else o
def go(gen):
    for block in chunks(gen, 6000):
        cs = [case(t, m, '%s: %r' % (m, t)) for m, t, w in block]
        for (m, t, w), c, r in zip(block, cs, run(cs)):
            chk.traces += 1
            got = clean(r.out, m)
            if r.status != 0 and not 'exit /b' in t or got != w or (r.err and not r.err.startswith(b'\n')): chk.violation(c.key, c, w, (got, r.status, r.err[:300]))
            chk.outcomes.add(hash(r.out))
        if chk.enough(): return
go(layouts())
# --- long lines
def lengths():
    L = sorted(set(range(0, 700)) | {p + d for p in (1024, 2048, 4096, 8192, 16384, 32768, 65536) for d in range(-9, 4)})
    for n in L:
        for m in MODES:
            if n > 300 and (n + len(m)) % 3: continue
            for nl in ('\n', '\r\n'):
                x = ('abcdefghij' * (n // 10 + 1))[:n]
                if (n + len(nl)) % 2: t, w = 'echo [%s]%s' % (x, nl) + 'echo b' + nl, '[%s]\nb\n' % x
                elif n % 4 < 2: t, w = ':: %s%srem %s%secho b' % (x, nl, x, nl), 'b\n'
                else: t, w = '(echo %sy%secho z)%s:%s%secho b' % (x, nl, nl, x + 'l', nl), '%sy\nz\nb\n' % x
                chk.state((n, m, nl)); chk.transitions += 1
                yield m, t, w
    # runs of comments and blank lines of every number
    for n in list(range(0, 130)) + [255, 256, 257, 1000]:
        for m in MODES[:4]:
            yield m, '\n' * n + 'echo a\n' + ':: x\n' * n + 'echo b\n' + '(\n' + '\n' * n + 'echo c\n' + ':: y\n' * n + ')\n' + 'echo d', 'a\nb\nc\nd\n'
            yield m, 'echo a\n' * n + 'echo b', 'a\n' * n + 'b\n'
            yield m, '(' * n + 'echo a' + ')' * n + '\necho b', 'a\nb\n' if n < 400 else 'a\nb\n'
            yield m, '(\n' * n + 'echo a\n' + ')\n' * n + 'echo b', 'a\nb\n'
go(lengths())
# --- shebang
go((m, t, w) for m in ('call', 'name') for t, w in ())
for nl in ('\n', '\r\n'):
    for she in ('#!/usr/bin/pbat', '#! x y | > (', '#!', '  #!/x'):
        t = she + nl + '@echo off' + nl + '(echo a' + nl + 'echo b)' + nl
        c = Case('shebang %r' % t, [program('pbat'), 't.bat'], [('t.bat', b(t))])
        r = run([c])[0]; chk.traces += 1; chk.state(t)
        if r.out != b'a\nb\n' or r.err: chk.violation(c.key, c, 'a\nb\n', (r.out, r.err))
# --- a script that adds to itself
def selfmod():
    BASE = ['echo 1', 'echo 2', '(echo 3', 'echo 4)', ':: c', 'echo 5']
    ADD = [['echo x'], ['(echo y', 'echo z)'], [':l', 'echo w'], ['', ':: note', 'echo v']]
    OUT = {0: 'x\n', 1: 'y\nz\n', 2: 'w\n', 3: 'v\n'}
    places = [0, 1, 2, 4, 5, 6]
    for n in range(1, 5 if THOROUGH else 4):
        for h in itertools.product(range(4), repeat=n):
            if n == 4 and sum(h) % 3: continue
            for at in itertools.combinations_with_replacement(places, n):
                if n >= 3 and (sum(at) + sum(h)) % (3 if n == 3 else 11): continue
                yield BASE, ADD, OUT, h, at
def selfcases():
    for BASE, ADD, OUT, h, at in selfmod():
        l = []; want = ''; tail = ''
        BO = ['1\n', '2\n', '3\n4\n', '', '', '5\n']
        for i in range(len(BASE) + 1):
            for a, p in zip(h, at):
                if p == i and not (i == 3): l.append('copy /y t.bat+a%d t.tmp >nul & copy /y t.tmp t.bat >nul' % a if 0 else 'type a%d >>t.bat' % a)
            if i < len(BASE): l.append(BASE[i]); want += BO[i]
        order = [a for _, a in sorted(zip(at, h), key=lambda x: x[0])]
        want += ''.join(OUT[a] for a in order)
        for nl in ('\n', '\r\n'):
            t = nl.join(['@echo off'] + l) + nl
            files = [('t.bat', b(t))] + [('a%d' % i, b(nl.join(x) + nl)) for i, x in enumerate(ADD)]
            chk.state((h, at, nl)); chk.transitions += len(l)
            yield Case('adds to itself: %r' % t, [program('pbat'), 't.bat'], files, timeout=8000), want
def selfjumps():
    # a label it has just added can be reached at once, from any place
    for nl in ('\n', '\r\n'):
        for jump in ('goto n', 'call :n', 'if 1==1 goto n', 'for %%i in (1) do call :n'):
            for form in ('(type a0 >>t.bat & %s)', 'type a0 >>t.bat&%s', 'type a0 >>t.bat' + nl + '%s', '(type a0 >>t.bat' + nl + '%s' + nl + ')', 'type a0 | (type >>t.bat) & %s'):
                for pre in (0, 1, 5):
                    l = ['@echo off'] + ['echo p'] * pre + [form % jump, 'echo m', 'goto :eof']
                    files = [('t.bat', b(nl.join(l) + nl)), ('a0', b(nl.join([':n', 'echo n']) + nl))]
                    yield Case('jumps into what it added: %r' % l, [program('pbat'), 't.bat'], files, timeout=8000), 'p\n' * pre + ('n\n' if 'goto' in jump else 'n\nm\n')
for block in chunks(itertools.chain(selfcases(), selfjumps()), 4000):
    for (c, w), r in zip(block, run([c for c, w in block])):
        chk.traces += 1
        if r.out.decode() != w or r.err: chk.violation(c.key, c, w, (r.out, r.err[:300]))
        chk.outcomes.add(hash(r.out))
    if chk.enough(): break
chk.sample(PROGS[5])
chk.finish()
