"""P02: GOTO, labels, CALL, EXIT: control goes where it should, everything in between is left, and the error level survives."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P02', bounds='every program of two labels and up to 4 (thorough 5) other lines out of 13 (GOTO, CALL, GOTO :eof, EXIT /b, conditional jumps, loops) that terminates; '
            'every nest of up to 2 (thorough 3) blocks, IF, ELSE, FOR, FOR /L, operators and redirections left by GOTO, GOTO :eof, EXIT /b n; every spelling of labels and jumps; '
            'jumps and calls into other files; recursion up to 60 levels; EXIT with every code from every context')
class Goto(Exception): pass
class Ret(Exception): pass
class Long(Exception): pass
class Quit(Exception): pass
class M:
    """The reference model: runs a list of top-level statements."""
    def __init__(self, progs, limit=400):
        self.progs, self.out, self.err, self.vars, self.steps, self.limit, self.visited = progs, [], 7, set(), 0, limit, set()
    def labels(self, p): return {s[1]: i for i, s in enumerate(self.progs[p]) if s[0] == 'label'}
    def call(self, p, pc, depth=0):
        if depth > 70: raise Long
        while pc < len(self.progs[p]):
            self.steps += 1
            if self.steps > self.limit: raise Long
            self.visited.add((p, pc, depth, len(self.vars)))
            try:
                self.run(self.progs[p][pc], p, depth); pc += 1
            except Goto as g: p, pc = g.args[0]
            except Ret: return
    def seq(self, l, p, d):
        for s in l: self.run(s, p, d)
    def run(self, s, p, d):
        k = s[0]
        if k == 'echo': self.out.append(s[1]); self.err = 0
        elif k in ('label', 'none'): pass
        elif k == 'goto':
            q, l = s[1] if isinstance(s[1], tuple) else (p, s[1])
            if l not in self.labels(q): self.err = None; return
            raise Goto((q, self.labels(q)[l]))
        elif k == 'eof': raise Ret
        elif k == 'exit':
            if s[1] is not None: self.err = s[1]
            raise Ret
        elif k == 'quit': raise Quit(s[1])
        elif k == 'call':
            q, l = s[1] if isinstance(s[1], tuple) else (p, s[1])
            if l is not None and l not in self.labels(q): self.err = None; return
            self.call(q, self.labels(q)[l] if l else 0, d + 1)
        elif k == 'once':
            # runs its body the first time only
            if s[1] not in self.vars: self.vars.add(s[1]); self.err = 0; self.seq(s[2], p, d)
        elif k in ('block', 'redir'): self.seq(s[1], p, d)
        elif k == 'if': self.seq(s[2] if s[1] else s[3], p, d)
        elif k == 'for':
            for _ in range(s[1]): self.seq(s[2], p, d)
        elif k == 'and':
            self.run(s[1], p, d)
            if self.err == 0: self.run(s[2], p, d)
        elif k == 'or':
            self.run(s[1], p, d)
            if self.err != 0: self.run(s[2], p, d)
        else: raise ValueError(k)
uid = [0]
def text(s, ml=False, n=''):
    """The batch text of a statement; ml: spread blocks over several lines."""
    k = s[0]
    def join(l): return '&'.join('(' + text(x, ml) + ')' if x[0] in ('once', 'if', 'for') and i < len(l) - 1 else text(x, ml) for i, x in enumerate(l))
    def block(l): return '(\n' + ''.join(text(x, ml) + '\n' for x in l) + ')' if ml else '(' + join(l) + ')'
    if k == 'echo': return 'echo ' + s[1]
    if k == 'label': return ':' + s[1]
    if k == 'none': return s[1]
    if k == 'goto': return s[2] if len(s) > 2 else 'goto ' + s[1]
    if k == 'eof': return s[1] if len(s) > 1 else 'goto :eof'
    if k == 'exit': return 'exit /b' + ('' if s[1] is None else ' %d' % s[1])
    if k == 'quit': return 'exit %d' % s[1]
    if k == 'call': return s[2] if len(s) > 2 else 'call :' + s[1]
    if k == 'once': return 'if not defined %s (set %s=1&%s)' % (s[1], s[1], join(s[2])) if not ml else 'if not defined %s (\nset %s=1\n%s\n)' % (s[1], s[1], '\n'.join(text(x) for x in s[2]))
    if k == 'block': return block(s[1])
    if k == 'redir': return block(s[1]) + ' 2>nul.txt'
    if k == 'if':
        c = '1==%d' % s[1]
        return 'if %s %s' % (c, block(s[2])) + (' else ' + block(s[3]) if s[3] else '') if len(s) < 5 else 'if %s %s' % (c, join(s[2]))
    if k == 'for':
        uid[0] += 1; v = 'ghijklmnop'[uid[0] % 10]
        h = 'for %%%%%s in (%s) do ' % (v, ' '.join('xyz'[:s[1]])) if len(s) < 4 or s[3] != 'l' else 'for /l %%%%%s in (1,1,%d) do ' % (v, s[1])
        return h + (block(s[2]) if len(s) < 5 else join(s[2]))
    if k in ('and', 'or'): return text(s[1], ml) + (' && ' if k == 'and' else ' || ') + text(s[2], ml)
    raise ValueError(k)
progs = []   # (key, {file: text}, expected output)
def expected(m):
    return ''.join(o + '\n' for o in m.out), m.err
count = [0]
def item(prog, ml=False, others=None, first='p%d'):
    """An item that calls a file with the program."""
    m = M({'': prog, **(others or {})})
    try: m.call('', 0)
    except Long: return None
    i = count[0] % 200; count[0] += 1
    name = 'p%d' % i
    chk.transitions += m.steps
    for v in m.visited: chk.state((hash(str(prog)), v))
    out, err = expected(m)
    src = '\n'.join(text(s, ml) for s in prog) + '\n'
    files = [(name + '.bat', b(src))]
    for n, pr in (others or {}).items(): files.append((n, b('\n'.join(text(s, ml) for s in pr) + '\n')))
    def verdict(o, out=out, err=err):
        t = o.decode('latin1').replace(' \n', '\n')
        if err is None: return None if t.startswith(out + '[') and not t.endswith('[0]\n') else 'expected %r and an error level other than 0' % out
        return None if t == out + '[%d]\n' % err else 'expected %r' % (out + '[%d]\n' % err)
    return Item('program %r' % src + (' with ' + repr({f[0]: f[1] for f in files[1:]}) if others else ''), 'set v=\nset w=\ncall r.bat 7\ncall %s.bat\necho [%%errorlevel%%]\n' % name, verdict, data=files)
R = ('r.bat', b'exit /b %1\n')
def go(gen, per=200): batch(chk, (x for x in gen if x), per=per, files=lambda its: [R] + [f for it in its for f in it.data])

# 1: flat programs
CMD = [('echo',), ('goto', 'a'), ('goto', 'b', 'goto :b'), ('call', 'a'), ('call', 'b'), ('eof',), ('exit', 5), ('exit', None),
       ('once', 'v', [('goto', 'a')]), ('once', 'w', [('goto', 'b', 'goto:b')]), ('goto', 'zz', 'goto /Q zz'), ('for', 2, [('once', 'v', [('eof',)])], ''), ('once', 'v', [('call', 'b')])]
def flat():
    for n in range(1, 6 if THOROUGH else 5):
        for body in itertools.product(CMD, repeat=n):
            # jumps to both labels matter only if they are there
            for pa in range(n + 1):
                for pb in range(n + 1):
                    if n == 4 and not THOROUGH and (hash((pa, pb)) + sum(CMD.index(c) * 7 ** j for j, c in enumerate(body))) % 40: continue
                    if n == 5 and (pa * 6 + pb + sum(CMD.index(c) * 7 ** j for j, c in enumerate(body))) % 61: continue
                    l = [('echo', 'e%d' % j) if c[0] == 'echo' else c for j, c in enumerate(body)]
                    prog = l[:pa] + [('label', 'a')] + l[pa:]
                    q = pb + (pb >= pa)
                    prog = prog[:q] + [('label', 'b')] + prog[q:]
                    yield item(prog)
chk.caps.append('programs of 4 lines (quick) and 5 lines (thorough) besides the labels: one in 40 and one in 61, spread evenly; all the smaller ones')
go(flat())

# 2: leaving nests
E = lambda x: ('echo', x)
def wraps(inner, d):
    yes = E('t%d' % d)
    yield ('block', [inner, yes])
    yield ('block', [('block', [inner]), yes])
    yield ('if', 1, [inner, yes], [])
    yield ('if', 0, [E('no')], [inner, yes])
    yield ('if', 1, [inner, yes], [], 'bare')
    yield ('for', 2, [inner, yes], '')
    yield ('for', 2, [inner, yes], 'l')
    yield ('for', 2, [inner, yes], '', 'bare')
    yield ('redir', [inner, yes])
    yield ('and', ('block', [inner]), yes)
    yield ('or', ('block', [inner]), yes)
    yield ('block', [yes, ('once', 'v', [inner]), E('u%d' % d)])
LEAVES = [('goto', 'z'), ('eof',), ('exit', 3), ('exit', 0), ('exit', None), ('call', 's'), ('call', 'k'), ('once', 'w', [('goto', 'y')])]
def nests():
    for depth in range(1, 4 if THOROUGH else 3):
        def rec(d):
            if d == depth:
                yield from LEAVES
            else:
                for i in rec(d + 1): yield from wraps(i, d)
        for k, n in enumerate(rec(0)):
            for ml in (False, True):
                # operators and IF or FOR without blocks swallow the rest of the line
                if has_bare(n) and ml: continue
                if depth == 3 and (k + ml) % 2: continue
                prog = [('goto', 'st'), ('label', 's'), E('sub'), ('eof',), ('label', 'k'), E('k'), ('exit', 4), ('label', 'st'), ('label', 'y'), E('y'), n, E('after'), ('eof',), ('label', 'z'), E('z')]
                yield item(prog, ml)
                if depth < 3 or k % 8 == 0:
                    # the nest is in a called label: control comes back
                    prog = [('call', 'm'), E('back'), ('eof',), ('label', 's'), E('sub'), ('eof',), ('label', 'k'), E('k'), ('exit', 4), ('label', 'm'), ('label', 'y'), E('y'), n, E('after'), ('eof',), ('label', 'z'), E('z')]
                    yield item(prog, ml)
                    # ... in the middle of a line, which goes on
                    prog = [('for', 2, [('call', 'm'), E('back')], ''), E('end'), ('eof',)] + prog[3:]
                    yield item(prog, ml)
def has_bare(n):
    return isinstance(n, tuple) and (n[0] in ('and', 'or') or 'bare' in n or any(has_bare(x) for y in n if isinstance(y, list) for x in y) or any(has_bare(x) for x in n if isinstance(x, tuple)))
go(nests())

# 3: spellings of labels and jumps
def spellings():
    LAB = [('lab', 'lab'), ('LaB', 'lab'), ('two words', 'two words'), ('lab', 'LAB'), ('x.1-y_z', 'x.1-y_z'), ('1', '1'), ('a', 'a'), ('eofx', 'eofx'), ('lab', ':lab'), ('two words', ':Two words'), ('/z', ':/z'), ('é', 'é')]
    LINE = [':%s', ' :%s', '\t:%s ', ':%s\t', ':%s extra words', ':%s & echo no', ':%s | "odd ( quote', ':%s,x']
    JUMP = ['goto %s', 'GOTO %s', 'goto  %s', 'goto %s ', '@goto %s', 'goto /q %s', 'if 1==1 goto %s', '(goto %s)', 'goto\t%s', 'for %%%%i in (1) do goto %s', 'set t=%s\ngoto %%t%%', 'set t=%s\ngoto !t!']
    for (l, j), line, jump in itertools.product(LAB, LINE, JUMP):
        decoys = ':%sx\necho decoy\n:x%s\necho decoy\n::%s\necho decoy\nrem :%s\n' % ((l.split()[0],) * 4)
        if l.startswith('/'): decoys = ''
        i = count[0] % 200; count[0] += 1
        src = 'echo 1\n' + jump % j + '\necho no\n' + decoys + line % l + '\necho 2\n'
        chk.transitions += 1; chk.state(src)
        yield Item('program %r' % src, 'call p%d.bat' % i, '1\n2\n', data=[('p%d.bat' % i, b(src))])
        if jump.startswith('goto ') and j[0] == ':':
            i = count[0] % 200; count[0] += 1
            src = 'echo 1\n' + jump.replace('goto', 'goto').replace(' ', '', 1) % j + '\necho no\n' + decoys + line % l + '\necho 2\n'
            yield Item('program %r' % src, 'call p%d.bat' % i, '1\n2\n', data=[('p%d.bat' % i, b(src))])
        if ' ' not in l and jump in ('goto %s', 'if 1==1 goto %s', '(goto %s)', 'set t=%s\ngoto %%t%%', 'for %%%%i in (1) do goto %s'):
            i = count[0] % 200; count[0] += 1
            src = 'echo 1\n' + jump.replace('goto', 'call') % (':' + j.lstrip(':') + ' p q') + '\necho 3\ngoto :eof\n' + decoys + line % l + '\necho 2 %1 %2\n'
            if 'set' in jump: src = 'echo 1\nset t=:%s\ncall %%t%% p q\necho 3\ngoto :eof\n' % j.lstrip(':') + decoys + line % l + '\necho 2 %1 %2\n'
            yield Item('program %r' % src, 'call p%d.bat' % i, lambda o: None if o.replace(b' \n', b'\n') == b'1\n2 p q\n3\n' else '1, 2 p q, 3', data=[('p%d.bat' % i, b(src))])
batch(chk, spellings(), per=200, prelude='@echo off\nset _q=1\n', files=lambda its: [f for it in its for f in it.data])

# 4: other files
def files():
    o = lambda n, *tail: [('label', 'u')] * 0 + [E(n + '0'), ('eof',), ('label', 'l'), E(n + '1')] + list(tail) + [('label', 'm'), E(n + '2')]
    tails = [(), (('eof',),), (('exit', 6),), (('goto', 'm'),), (('call', 'm'),), (('goto', ('', 'l'), 'goto /F:p%d.bat l'),), (('call', ('', 'l'), 'call /e p%d.bat :l'),), (('call', ('g.bat', None), 'call g.bat'),), (('goto', ('g.bat', 'l'), 'goto /Fg.bat :l'),),
             (('exit', None),), (('call', ('g.bat', 'm'), 'call /E :m g.bat'),)]
    for t1, t2 in itertools.product(tails, tails):
        for how in [('goto', ('o.bat', 'l'), 'goto /F:o.bat l'), ('goto', ('o.bat', 'm'), 'goto /q /f:o.bat :m'), ('call', ('o.bat', None), 'call o.bat'), ('call', ('o.bat', 'l'), 'call /e o.bat :l'), ('call', ('o.bat', 'l'), 'call /e :l o.bat x'),
                    ('call', ('o.bat', None), 'call o.bat :l'), ('call', ('o.bat', 'zz'), 'call /e o.bat :zz'), ('goto', ('o.bat', 'zz'), 'goto /q /f:o.bat zz')]:
            for after in ([E('end')], [E('q'), ('goto', 'l')], [('exit', None)]):
                main = [how] + after + [('eof',), ('label', 'l'), E('pl')]
                n = count[0] % 200
                def sub(x): return tuple([x[0], x[1], x[2] % n] if len(x) > 2 and '%d' in x[2] else x)
                f, g = o('f', *map(sub, t1)), o('g', *map(sub, t2))
                # EXIT /b without a code and without an error level of its own keeps that of the caller
                yield item(main, others={'o.bat': f, 'g.bat': g})
# (each program has its own files o.bat and g.bat: one process each)
go(files(), per=1)

# 5: loops and recursion with counters
def counters():
    for n in [0, 1, 2, 5, 20, 60]:
        up = ''.join('d%d\n' % i for i in range(n)); down = ''.join('u%d\n' % i for i in reversed(range(n)))
        yield Item('recursion of %d levels' % n, 'call rec.bat %d' % n, up + 'end\n' + down)
        yield Item('recursion of %d levels through files' % n, 'call rec2.bat 0 %d' % n, up + 'end\n' + down)
        yield Item('loop of %d turns' % n, 'call loop.bat %d' % n, ''.join('l%d\n' % i for i in range(n)) + 'end %d\n' % n)
        yield Item('case %d' % n, 'call case.bat %d' % n, {0: 'zero\n', 1: 'one\n', 2: 'two\n'}.get(n, 'other\n') + 'done\n')
        chk.transitions += 4 * (n + 1)
        for k in (1, 2, 5):
            out = ''
            for i in range(n):
                for j in range(k):
                    if j > i: break
                    out += '%d.%d\n' % (i, j)
            yield Item('loops of %d and %d turns' % (n, k), 'call two.bat %d %d' % (n, k), out)
batch(chk, counters(), files=[
    ('rec.bat', b'set n=0\ncall :r %1\ngoto :eof\n:r\nif %n% GEQ %1 (echo end&goto :eof)\nsetlocal\necho d%n%\nset /a k=n&set /a n+=1\ncall :r %1\nendlocal\necho u%n%\n'.replace(b'setlocal\n', b'').replace(b'endlocal\n', b'set /a n-=1\n')),
    ('rec2.bat', b'if %1==%2 (\necho end\ngoto :eof\n)\necho d%1\nset /a nx=%1+1\ncall rec2.bat %nx% %2\necho u%1\n'),
    ('loop.bat', b'set i=0\n:top\nif %i% EQU %1 goto out\necho l%i%\nset /a i+=1\ngoto top\n:out\necho end %i%\n'),
    ('case.bat', b'goto /Q :case_%1\necho other\ngoto :end\n:case_0\necho zero\ngoto :end\n:case_1\necho one\ngoto :end\n:case_2\necho two\n:end\necho done\n'),
    ('two.bat', b'set i=0\n:o\nif %i%==%1 goto :eof\nset j=0\n  :i\nif %j%==%2 goto n\nif %j% GTR %i% (goto n)\necho %i%.%j%\nset /a j+=1\ngoto i\n:n\nset /a i+=1\ngoto o\n'),
])

# 6: EXIT
cs = []
for code in [0, 1, 2, 5, 100, 255]:
    for ctx, out in [('%s', 'a\n'), ('(%s&echo no)', 'a\n'), ('if 1==1 (%s) else (echo no)', 'a\n'), ('for %%%%i in (1 2) do (echo i&%s)', 'a\ni\n'), ('call :s', 'a\ns\n'), ('call e.bat', 'a\ns\n'), ('fn', 'a\ns\n'), ('call :t', 'a\nt\ns\n'),
                     ('echo x | (echo r&%s)', 'a\nr\n'), ('setlocal&%s', 'a\n'), ('(echo q >f&%s)>g', 'a\n'), ('verify >nul & %s & echo no', 'a\n'), ('call :u', 'a\nu\n'), ('pushd d&%s', 'a\n')]:
        ex = 'exit %d' % code
        t = '@echo off\ndef fn=(\necho s\nexit %d\necho no\n)\necho a\n%s\necho no\ngoto :eof\n:s\necho s\n%s\necho no\ngoto :eof\n:t\necho t\nif 1==1 (\ncall :s\necho no\n)\necho no\n:u\necho u\nfor %%%%i in (1 2) do (\n%s\n)\n' % (code, (ctx % ex if '%s' in ctx else ctx), ex, ex)
        t = t.replace('%%%%', '%%')
        cs.append(script(t, files=[('e.bat', b'echo s\n' + b(ex) + b'\necho no\n'), ('d', None)], key=t, data=(code, out)))
for c, r in zip(cs, run(cs)):
    chk.traces += 1; chk.transitions += 1; chk.state(c.key)
    code, out = c.data
    if r.status != code or r.out.decode().replace(' \n', '\n') != out: chk.violation(c.key, c, (code, out), repr(r))
    else: chk.outcomes.add((code, out))
chk.sample({'program': 'call :a / echo e1 / exit /b 5 / :a / if not defined v (set v=1&goto b) / :b / echo e5'})
chk.finish()
