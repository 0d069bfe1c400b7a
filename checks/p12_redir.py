"""P12: redirections: where the output, the errors and the input of each command go, and that they come back afterwards."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P12', bounds='every set of up to 3 (thorough 4) redirections in every order and position on every kind of command; every nest of 2 blocks with a redirection each and a '
            'command with one; every history of 3 commands over 8 redirections of two files; redirected loops, calls, functions, pipes and what leaves them')
REDIRS = ['>f', '>>f', '1>f', '1>>f', '2>g', '2>>g', '2>&1', '1>&2', '<in', '2>f', '2>>f', '>"h i"', '> f', '< in', '2> g']
def parse(r):
    r = r.replace(' ', '') if '"' not in r else r
    if r in ('2>&1', '1>&2'): return ('merge', r)
    if r[0] == '<': return ('in', r[1:])
    s = 'out'
    if r[0] == '1': r = r[1:]
    elif r[0] == '2': s = 'err'; r = r[1:]
    mode = 'a' if r.startswith('>>') else 'w'
    return (s, r.lstrip('>').strip('"'), mode)
def valid(rs):
    k = [parse(r)[0] for r in rs]
    if len(set(k)) != len(k): return False
    m = [parse(r)[1] for r in rs if parse(r)[0] == 'merge']
    # both kinds on the same stream are not specified
    if m and ('err' if m[0] == '2>&1' else 'out') in k: return False
    fs = [parse(r)[1] for r in rs if parse(r)[0] in ('out', 'err')]
    return True
INITIAL = {'f': [b'oldf'], 'in': [b'alpha x', b'beta', b'gamma x'], 'a.txt': [b'ta'], 'b.txt': [b'tb']}
class World:
    def __init__(self):
        self.sink = {k: list(v) for k, v in INITIAL.items()}; self.sink['OUT'] = []; self.sink['ERR'] = []
        self.mixed = set()
    def w(self, s, x): self.sink[s].append(x)
    def redirect(self, rs, out, err, inp):
        merge = None
        for r in map(parse, rs):
            if r[0] == 'merge': merge = r[1]
            elif r[0] == 'in': inp = r[1]
            else:
                if r[2] == 'w' or r[1] not in self.sink: self.sink[r[1]] = []
                if r[0] == 'out': out = r[1]
                else: err = r[1]
        if merge == '2>&1': err = out
        elif merge: out = err
        return out, err, inp
    def run(self, cmd, out, err, inp):
        k = cmd[0]
        if k == 'echo': self.w(out, cmd[1].encode())
        elif k == 'eo': self.w(out, b'o' + cmd[1].encode()); self.w(err, b'e' + cmd[1].encode())
        elif k == 'type':
            self.mixed |= {out, err}
            for f in ('a.txt', 'b.txt'): self.w(err, b'---------- ' + f.encode()); self.w(out, self.sink[f][0])
        elif k in ('cat', 'find'):
            data = self.sink[inp] if inp else []
            for l in list(data):
                if k == 'cat' or b'x' in l: self.w(out, l)
TEXT = {'echo': 'echo %s', 'eo': '/bin/sh eo.sh %s', 'type': 'type a.txt b.txt', 'cat': '/bin/cat', 'find': 'find "x"'}
def text(cmd): t = TEXT[cmd[0]]; return t % cmd[1] if '%s' in t else t
def place(cmdtext, rs, pos):
    """Puts the redirections before, in the middle of, after the command or everywhere."""
    w = cmdtext.split(' ', 1)
    if pos == 0: return cmdtext + ' ' + ' '.join(rs)
    if pos == 1: return ' '.join(rs) + ' ' + cmdtext
    if pos == 2: return w[0] + ' ' + ' '.join(rs) + ' ' + (w[1] if len(w) > 1 else '')
    if pos == 3: return cmdtext + (' ' if rs and rs[0][0] in '12' else '') + ' '.join(rs)
    return (rs[0] + ' ' if rs else '') + w[0] + ' ' + ' '.join(rs[1:2]) + ' ' + (w[1] if len(w) > 1 else '') + ' ' + ' '.join(rs[2:])
CMDS = [('echo', 'x'), ('eo', 'y'), ('type',), ('cat',), ('find',)]
cases = []
def add(t, world, key=None):
    cases.append((t, world)); chk.state(t); chk.transitions += 1
import re
def lines(b_): return [re.sub(rb'^-{10} .*/', b'---------- ', l.strip()) for l in b_.split(b'\n')[:-1]] if b_ else []
EO = b'echo o$1; echo e$1 >&2\n'
def norm(l): return l
FILES = [(k, b''.join(x + b'\n' for x in v)) for k, v in INITIAL.items()] + [('eo.sh', EO), ('d', None)]
def flush_cases():
    for block in chunks(cases, 3000):
        if chk.enough(): break
        cs = [script('@echo off\n' + t + '\necho done\necho edone 1>&2\n', files=FILES, snap=True, key=t, timeout=8000) for t, _ in block]
        for (t, wd), c, r in zip(block, cs, run(cs)):
            chk.traces += 1
            wd.w('OUT', b'done'); wd.w('ERR', b'edone')
            got = {'OUT': lines(r.out), 'ERR': lines(r.err)}
            for n, (ty, m, data) in r.tree.items():
                if n not in ('t.bat', 'eo.sh', 'd', '2.bat', '.'): got[n] = lines(data)
            exp = {k: (sorted(v) if k in wd.mixed else v) for k, v in wd.sink.items()}
            g2 = {k: (sorted(v) if k in wd.mixed else v) for k, v in got.items()}
            if r.status != 0 or exp != g2:
                chk.violation(t, c, {k: v for k, v in exp.items() if g2.get(k) != v}, {k: v for k, v in g2.items() if exp.get(k) != v}, 'status %d' % r.status if r.status else '')
            else: chk.outcomes.add(str(sorted(exp.items())))
    cases.clear()
# 1: one command, all redirections
k = 0
for n in range(0, 5 if THOROUGH else 4):
    for rs in itertools.permutations(REDIRS[:11] if n > 2 else REDIRS, n):
        if not valid(rs): continue
        if n >= 3 and not THOROUGH and len(set(r[-1] for r in rs)) == 2 and k % 2: k += 1; continue
        k += 1
        # a bare reader needs an input
        for ci, c in enumerate(CMDS):
            if n >= 2 and (k + ci) % (2 if n == 2 else 5) and not (THOROUGH and n < 4): continue
            pos = (k + ci) % 5 if c[0] != 'echo' or (k + ci) % 5 != 3 else 4
            wd = World(); o, e, i = wd.redirect(rs, 'OUT', 'ERR', None); wd.run(c, o, e, i)
            add(place(text(c), rs, pos), wd)
# 2: nests
R1 = [(), ('>f',), ('>>f',), ('2>g',), ('2>&1',), ('>f', '2>&1'), ('1>&2',), ('<in',), ('2>f',), ('>g', '2>f')]
for r0, r1, r2 in itertools.product(R1, R1, R1):
    k += 1
    if not THOROUGH and (k * 7) % 2: continue
    for c in (CMDS[k % 5], CMDS[(k + 1 + k // 5) % 5]):
        # reading or overwriting a file that is read
        wd = World()
        o, e, i = wd.redirect(r0, 'OUT', 'ERR', None)
        wd.run(('eo', '1'), o, e, i)
        o1, e1, i1 = wd.redirect(r1, o, e, i)
        wd.run(('echo', 'b'), o1, e1, i1)
        o2, e2, i2 = wd.redirect(r2, o1, e1, i1)
        if c[0] in ('cat', 'find') and i2: wd.run(c, o2, e2, i2)
        elif c[0] in ('cat', 'find'): c = ('echo', 'z'); wd.run(c, o2, e2, i2)
        else: wd.run(c, o2, e2, i2)
        wd.run(('eo', '2'), o1, e1, i1); wd.run(('echo', 'w'), o, e, i)
        if k % 3 == 0: t = '(\n%s\n(\necho b\n%s\n%s\n) %s\necho w\n) %s' % (text(('eo', '1')), place(text(c), r2, 0), text(('eo', '2')), ' '.join(r1), ' '.join(r0))
        elif k % 3 == 1: t = '(%s&(echo b&%s&%s)%s&echo w)%s' % (text(('eo', '1')), place(text(c), r2, 1), text(('eo', '2')), ' '.join(r1), ' '.join(r0))
        else: t = '(\n  %s\n  if 1==1 (\n    echo b\n    %s\n\t%s\n  ) else (\n  echo no\n  ) \n  echo w) %s' % (text(('eo', '1')), place(text(c), r2, 2), text(('eo', '2')), ' '.join(r0))
        if k % 3 == 2 and r1: continue
        add(t, wd)
# 3: histories
H = [(), ('>f',), ('>>f',), ('>g',), ('>>g',), ('2>f',), ('2>>g',), ('>f', '2>&1')]
for h in itertools.product(H, repeat=4 if THOROUGH else 3):
    wd = World(); t = []
    for j, rs in enumerate(h):
        o, e, i = wd.redirect(rs, 'OUT', 'ERR', None); c = ('eo', 'abcd'[j]) if j != 1 else ('echo', 'm'); wd.run(c, o, e, i)
        t.append(place(text(c), rs, j % 3))
    add('\n'.join(t), wd)
# 4: loops, conditions, calls, functions, pipes
SUB = 'goto x\n:l\necho in %1\n/bin/sh eo.sh l\ngoto :eof\n:x'
for rs in R1:
    r = ' '.join(rs)
    def fresh(): wd = World(); return wd, wd.redirect(rs, 'OUT', 'ERR', None)
    for form in ('call :l q %s\n', '%s call :l q\n', '(call :l q)%s\n', '(\ncall :l q\n) %s\n', 'if 1==1 (call :l q %s)\n', 'if 1==1 call :l q %s\n', 'for %%%%i in (q) do call :l %%%%i %s\n'):
        wd, (o, e, i) = fresh()
        wd.run(('echo', 'in q'), o, e, i); wd.run(('eo', 'l'), o, e, i)
        t = form.replace('%%%%', '%%') if 0 else form
        add((t % r).replace('%%%%', '%%').replace('%%i', '%%i') + SUB, wd)
    # the loop as a whole, and its body
    wd, (o, e, i) = fresh()
    for x in 'pq': wd.run(('eo', x), o, e, i)
    add('(for %%i in (p q) do /bin/sh eo.sh %%i) ' + r, wd)
    wd = World()
    for x in 'pq':
        o, e, i = wd.redirect(rs, 'OUT', 'ERR', None); wd.run(('eo', x), o, e, i)
    add('for %%i in (p q) do /bin/sh eo.sh %%i ' + r, wd)
    wd, (o, e, i) = fresh()
    wd.run(('echo', 'v'), o, e, i); wd.run(('eo', 'f'), o, e, i)
    add('def fn=(\necho v\n/bin/sh eo.sh f\n)\nfn ' + r, wd)
    wd, (o, e, i) = fresh()
    wd.run(('echo', 'v'), o, e, i); wd.run(('eo', 'f'), o, e, i)
    add('call 2.bat %s' % r, wd)
    # leaving a redirected block
    for leave in ('goto out', 'if 1==1 (goto out)'):
        wd, (o, e, i) = fresh()
        wd.run(('eo', 'g'), o, e, i); wd.run(('eo', 'h'), 'OUT', 'ERR', None)
        add('(\n/bin/sh eo.sh g\n%s\necho no\n) %s\necho no\n:out\n/bin/sh eo.sh h' % (leave, r), wd)
    for leave in ('goto :eof', 'exit /b 2'):
        wd, (o, e, i) = fresh()
        wd.run(('eo', 'g'), o, e, i); wd.run(('eo', 'h'), 'OUT', 'ERR', None)
        add('call :m\n/bin/sh eo.sh h\ngoto z\n:m\n(\n/bin/sh eo.sh g\n%s\necho no\n) %s\necho no\ngoto :eof\n:z' % (leave, r), wd)
    # pipes: the left side writes into the pipe unless it is redirected, the right side reads from it unless it is
    for c in (('echo', 'x1'), ('eo', 'x2')):
        wd = World(); wd.sink['PIPE'] = []
        o, e, i = wd.redirect(rs, 'PIPE', 'ERR', None)
        wd.run(c, o, e, i); p = wd.sink.pop('PIPE')
        for l in p: wd.w('OUT', l)
        add(place(text(c), rs, 0) + ' | /bin/cat', wd)
        # (a left side that writes although nobody reads may fail)
        wd = World(); wd.sink['PIPE'] = []; wd.run(c, 'PIPE', 'ERR', None)
        o, e, i = wd.redirect(rs, 'OUT', 'ERR', 'PIPE')
        wd.run(('find',), o, e, i); wd.sink.pop('PIPE')
        if c[0] != 'eo' or '<in' not in rs: add(text(c) + ' | ' + place('find "x"', rs, 0), wd)
        wd = World(); wd.sink['PIPE'] = []; o, e, i = wd.redirect(rs, 'OUT', 'ERR', None)
        wd.run(c, 'PIPE', e, i); wd.run(('cat',), o, e, 'PIPE'); wd.sink.pop('PIPE')
        wd.mixed |= {o, e} # (the two sides write at the same time)
        add('(' + text(c) + ' | /bin/cat) ' + r, wd)
# 5: a stream redirected twice is an error, and the command does not run
for a, b_ in [('>f', '>g'), ('>f', '>>f'), ('1>f', '>g'), ('2>f', '2>g'), ('<in', '<a.txt'), ('2>&1', '2>&1'), ('>>f', '1>>g')]:
    for c in ('echo x', '/bin/sh eo.sh y'):
        for pos in range(3):
            wd = World(); wd.mixed.add('ERR'); t = place(c, (a, b_), pos)
            cases.append((t, wd)); chk.transitions += 1; wd.twice = True
twice = [(t, wd) for t, wd in cases if hasattr(wd, 'twice')]
cases[:] = [x for x in cases if not hasattr(x[1], 'twice')]
FILES.append(('2.bat', b'@echo off\necho v\n/bin/sh eo.sh f\n'))
flush_cases()
cs = [script('@echo off\n' + t + '\necho done\n', files=FILES, snap=True, key=t) for t, _ in twice]
for c, r in zip(cs, run(cs)):
    chk.traces += 1
    if r.out != b'done\n' or b'ey' in r.err or r.tree['f'][2] != b'oldf\n' or 'g' in r.tree: chk.violation(c.key, c, 'only "done", files unchanged', repr(r))
    else: chk.outcomes.add(r.out)
# quoted or plain digits and signs are no redirections
def plain():
    for t in ('1', '2', 'a1', '2 1', '12', '1 2 1 2', 'x2y1', '21', '2 a', '-1', '2=1', '1&2'.replace('&', '+'), '"a > b"', '"2>&1"', '"<x"', 'a^>b', 'a^<b', '2^>f', '"a" "> f"', '1 "2>f" 2', 'é1', "it's 2"):
        yield Item('echo ' + t, 'echo %s\n' % t, t.replace('^', '') + '\n')
        yield Item('echo %s>f' % t, 'echo %s >f\ntype f\n' % t, t.replace('^', '') + ' \n')
batch(chk, plain(), per=1)
# the branches of one command with redirections of their own; calls in redirected calls; descriptors come back every time
def more():
    for v in (0, 1):
        for a, b_ in itertools.product(('echo a', 'echo a>f', '(echo a>f)', 'echo a>>f', 'find "x"<in', 'echo a 2>g'), repeat=2):
            for tail in ('', '>h', '2>h'):
                for form in ('if %d==1 (%s) else (%s)%s', 'if %d==1 (\n%s\n) else (\n%s\n) %s'):
                    x = (a if v else b_); out = b'alpha x\ngamma x\n' if 'find' in x else b'a\n'
                    t = form % (v, a, b_.replace('echo a', 'echo b'), tail) + '\nfor %%i in (f g h) do (\nif exist %%i (echo %%i: & type %%i)\n)\nfor %%i in (f g h) do del /f /q %%i >nul 2>nul'
                    if not v: out = out.replace(b'a\n', b'b\n') if 'find' not in x else out
                    f = g = h = None; o = b''; after = '' if v else tail     # what follows ELSE belongs to it
                    if '>f' in x or '>>f' in x: f = out
                    elif after == '>h': h = out
                    else: o = out
                    if after and h is None: h = b''
                    if '2>g' in x: g = b''
                    e = o + b''.join(n + b': \n' + d for n, d in ((b'f', f), (b'g', g), (b'h', h)) if d is not None)
                    chk.state(t); chk.transitions += 1
                    yield Item(t, 'for %%i in (f g h) do del /f /q %%i >nul 2>nul\n' + t, lambda o_, e=e: None if b''.join(l.rstrip() + b'\n' for l in o_.split(b'\n')[:-1]) == b''.join(l.rstrip() + b'\n' for l in e.split(b'\n')[:-1]) else 'expected %r' % e)
def calls():
    # every call of w, y is redirected or not; what each file gets
    k = 0
    RD = ('', '>o%d', '>>o%d')
    for r1, r2, r3, r4 in itertools.product(range(3), repeat=4):
        for blk in (0, 1, 2):
            k += 1; i = k % 1000
            n = iter(range(1, 9)); sinks = {}
            def red(r): return RD[r] % next(n) if r else ''
            a, b_, c, d = red(r1), red(r2), red(r3), red(r4)
            def put(s, x): sinks.setdefault(s, []).append(x)
            A = a.lstrip('>') or 'OUT'; B = b_.lstrip('>') or A; C = c.lstrip('>') or A; D = d.lstrip('>') or C
            t = 'call :w%d %s\necho after\ngoto x%d\n:w%d\necho w1\ncall :y%d %s\necho w2\n' % (i, a, i, i, i, b_)
            put(A, 'w1'); put(B, 'y'); put(A, 'w2')
            mid = ['call :y%d %s' % (i, d), 'echo w3']
            t += '(%s) %s\n' % ((' & ', '\n', '\n')[blk].join(mid) + ('\n' if blk == 2 else ''), c)
            put(D, 'y'); put(C, 'w3')
            t += 'echo w4\ngoto :eof\n:y%d\necho y\ngoto :eof\n:x%d\n' % (i, i); put(A, 'w4')
            out = ['after']; files = [s for s in ('o1', 'o2', 'o3', 'o4') if s in sinks]
            e = sinks.get('OUT', []) + ['after']
            for s in ('o1', 'o2', 'o3', 'o4'): t += 'if exist %s (echo %s & type %s & del /f /q %s)\n' % (s, s, s, s); e += ([s] + sinks[s]) if s in sinks else []
            chk.state(t); chk.transitions += 4
            yield Item(t, t, lambda o_, e=e: None if [l.rstrip() for l in o_.decode().split('\n')[:-1]] == e else 'expected %r' % e)
batch(chk, more(), per=40, files=FILES)
batch(chk, calls(), per=40)
LOOPS = ['echo x>f', 'echo x>>f', 'echo x 2>f', 'find "x" <in >nul', 'find "x" <in >f 2>g', 'echo x>f 2>&1', 'echo x 1>&2', '(echo x)>f', '(echo x>f)>g', 'call :r >f', 'find "x" <nofile', 'echo x >nodir/f', 'echo x 2>nodir/f', 'echo x|find "y"', 'set /p v=<in', 'for /f %%j in (in) do set v=%%j',
         'if exist in (echo x>f) else (echo y)', 'type in >nul', 'wc in >nul', 'copy /y in f >nul', 'dir /b >nul', 'for /f %%j in (\'echo a\') do set v=%%j', 'call 3.bat >nul', 'pushd d>nul & popd>nul', 'more <in >nul']
N = 1500 if THOROUGH else 260
cs = [Case('%d times %s' % (N, l), ['/bin/sh', '-c', 'ulimit -n 64; exec "$@"', 'sh', program('pbat'), 't.bat'], FILES + [('3.bat', b'@exit /b 0\n'), ('t.bat', b('@echo off\nfor /L %%i in (1,1,' + str(N) + ') do (\n' + l + '\n) >nul 2>nul\necho end>e\ntype e\nfind "gamma" <in\n(echo z)|find "z"\ngoto :eof\n:r\necho r\ngoto :eof\n'))], timeout=60000) for l in LOOPS]
for c, r in zip(cs, run(cs)):
    chk.traces += 1; chk.state(c.key); chk.transitions += N
    if r.out != b'end\ngamma x\nz\n' or r.err: chk.violation(c.key, c, 'end, gamma x, z', (r.out[:300], r.err[:300]))
    else: chk.outcomes.add(c.key)
chk.sample({'script': '(echo b 2>&1&/bin/sh eo.sh 2)>f', 'files': {'f': ['b', 'o2'], 'stderr': ['e2']}})
chk.finish()
