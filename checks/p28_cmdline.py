"""P28: the command line of pbat: /c runs the rest of it and ends, /k goes on with the input, scripts get the rest as parameters, and exit codes get out."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P28', bounds='every command line of up to %d simple commands (15 of them) and operators after /C and /K, split into words in several ways; every set and order of /A attributes in all spellings; all exit codes from -260 to 520 and the ends of the 32-bit range from 8 places' % (4 if THOROUGH else 3))
PB = lambda: program('pbat')
# --- commands: (words, effect on the state); the state: output, status, variables
class St:
    def __init__(s): s.out = ''; s.st = 0; s.v = {}; s.ended = None; s.files = {}
def c_echo(t, st=0):
    def f(s): s.out += t; s.st = st
    return f
def c_exit(n):
    def f(s): s.ended = n
    return f
def c_set(k, v):
    def f(s): s.v[k] = v; s.st = 0
    return f
def c_v(s): s.out += '[%s]\n' % s.v.get('k', ''); s.st = 0
def c_st(s): s.out += '%d\n' % s.st; s.st = 0
def c_prog(n, t=''):
    def f(s): s.out += t; s.st = n
    return f
CMDS = [(['echo', 'a'], c_echo('a\n')), (['echo', 'b c'], c_echo('"b c"\n')), (['echo.x'], c_echo('x\n')), (['exit', '7'], c_exit(7)), (['exit'], None), (['set', '"k=1"'], c_set('k', '1')), (['echo', '[!k!]'], c_v),
        (['echo', '!errorlevel!'], c_st), (['./p', '3'], c_prog(3, 'p3\n')), (['./p', '0'], c_prog(0, 'p0\n')), (['call', 's.bat', 'x y'], c_echo('s[x y]\n', 4)), (['s.bat'], c_echo('s[]\n', 4)),
        (['(echo', 'd)'], c_echo('d\n')), (['if', '1==1', 'echo', 'i'], None), (['cd', 'nosuch'], None)]
CMDS = [c for c in CMDS if c[1]] + [(['exit', '/b', '9'], c_exit('b9')), (['set /a', 'k=2+3', '>o'], c_set('k', '5'))][:1]
OPS = ['&', '&&', '||']
FILES = [('p', b'#!/bin/sh\necho p$1\nexit $1\n', 0, 0o755), ('s.bat', b'@echo off\necho s[%~1]\nexit /b 4\n'), ('d', None)]
def trim(o): return ''.join(l.rstrip(' ') + '\n' for l in o.split('\n')[:-1]) if o.endswith('\n') else o
def lines():
    for d in range(1, 5 if THOROUGH else 4):
        for cs in itertools.product(CMDS, repeat=d):
            for ops in itertools.product(OPS, repeat=d - 1):
                s = St(); run_ = True
                for i, (w, f) in enumerate(cs):
                    if i:
                        op = ops[i - 1]
                        if op == '&&' and s.st or op == '||' and not s.st: continue
                    if s.ended is None: f(s)
                yield [c[0] for c in cs], ops, s
def argvs(words, ops, k):
    """the ways to split the same line into parameters"""
    out = []
    for i, w in enumerate(words):
        if i:
            o = ops[i - 1]
            if k % 3 == 0: out.append(o)
            elif k % 3 == 1: out[-1] += o if not ' ' in out[-1] else ''; (out.append(o) if ' ' in out[-1] else None)
            else: out.append(o)
        w = list(w)
        if k % 3 == 2 and i and not ' ' in w[0]: out[-1] += w.pop(0)
        out += w
    return out
END = 'set /p q=\nline\necho q[!q!]!k!\nexit 21\n'
def cmdlines():
    for k, (w, ops, s) in enumerate(lines()):
        av = argvs(w, ops, k)
        if any(o in a and ' ' in a for o in OPS for a in av): continue
        for mode in (('/c', '/k') if len(w) < 3 else (('/c', '/C', '/k', '/K')[k % 4],)):
            pre = [['/a:eq'], ['/A:QE'], ['/aeq', '/a:eqv'], ['/a:e', '/a:q']][k % 4]
            key = ' '.join(pre + [mode] + list(map(repr, av)))
            out, st = s.out, None
            if s.ended is not None and not isinstance(s.ended, str): st = s.ended
            elif isinstance(s.ended, str) and mode in '/k/K': continue
            elif mode in '/k/K': out += 'q[line]%s\n' % s.v.get('k', ''); st = 21
            chk.state(key); chk.transitions += len(w)
            yield Case(key, [PB()] + pre + [mode] + av, FILES, stdin=b(END), data=(out, st))
            if k % 5 == 0:
                line = ' '.join('"%s"' % a if ' ' in a else a for a in av)
                chk.transitions += 1
                yield Case('@ ' + line, [PB()] + pre + [mode, '@'], FILES, stdin=b(END), data=(out, st), env=ENV + ['__PBAT_COMMAND__=' + line])
def go(gen):
    for block in chunks(gen, 6000):
        for c, r in zip(block, run(block)):
            chk.traces += 1
            out, st = c.data
            o = r.out.decode('utf-8', 'surrogateescape')
            if trim(o) != trim(out) or (st is not None and r.status != st) or r.err: chk.violation(c.key, c, (out, st), (o, r.status, r.err[:300]))
            chk.outcomes.add(hash((o, r.status)))
        if chk.enough(): return
go(cmdlines())
# words arrive as they were given
def words():
    W = ['a', 'b c', 'b\tc', '\t', ' ', ' a', 'a\t', 'é', '-x', "'", 'a=b', '/c', '/k x', 'x  y', '\ta b\t', 'long' * 300, '*', '..']
    for d in range(1, 4 if THOROUGH else 3):
        for ws in itertools.product(W, repeat=d):
            for mode in ('/c', '/k'):
                if d == 3 and mode == '/k': continue
                chk.state(('words', mode, ws)); chk.transitions += d
                out = ''.join('<%s>\n' % x for x in ws) + ('q[line]\n' if mode == '/k' else '')
                yield Case('%s ./n %r' % (mode, ws), [PB(), '/a:eq', mode, './n'] + list(ws), [('n', b'#!/bin/sh\nfor i; do echo "<$i>"; done\n', 0, 0o755)], stdin=b(END), data=(out, 21 if mode == '/k' else None))
go(words())
# --- attributes
def attrs():
    for s in [p for n in range(0, 5) for p in itertools.permutations('vceq', n)]:
        for k in range(4):
            a = ''.join(c.upper() if (i + k) % 2 else c for i, c in enumerate(s))
            for form in ('/a:' + a, '/A' + a):
                if len(a) == 0 and form == '/A': continue
                for more in ([], ['//']):
                    text = 'echo a!x!\n@echo b\nexit 5\n'
                    e = 'e' in s
                    w = 'a1\nb\n' if e else '>echo a!x!\na1\nb\n>exit 5\n'
                    chk.state((form, k, tuple(more))); chk.transitions += 2
                    yield Case('script %s %s' % (form, more), [PB(), form] + more + ['t.bat'], [('t.bat', b(text))], env=ENV + ['PROMPT=>', 'x=1'], data=(w, 5))
                    if not more:
                        w = 'a1\nb\n' if e else '\n>a1\n\n>b\n\n>'
                        yield Case('input %s' % form, [PB(), form], [], stdin=b(text), env=ENV + ['PROMPT=>', 'x=1'], data=(w, 5))
def goat(gen):
    cs = list(gen)
    for c, r in zip(cs, run(cs)):
        chk.traces += 1; out, st = c.data
        o = r.out.decode('utf-8', 'surrogateescape')
        # the greeting of the interactive mode is not claimed
        if c.key.startswith('input') and out[:1] == '\n' and '\n>a1' in o: o = o[o.index('\n>a1'):]
        elif c.key.startswith('input') and 'q' not in c.key.lower().split(':')[-1] and out in o: o = out
        if out.startswith('>') or out.startswith('\n>'):
            # PROMPT comes from the environment or has its default
            o = re.sub(r'(?m)^/[^\n>]*>', '>', o)
        if o != out or r.status != st: chk.violation(c.key, c, (out, st), (o, r.status, r.err[:200]))
        chk.outcomes.add(hash((o, r.status)))
goat(attrs())
# --- exit codes
def codes():
    for n in list(range(-260, 521)) + [65535, 65536, 2147483647, -2147483648]:
        t = 'exit %d' % n; st = n & 255
        for k, (text, files) in enumerate([(t, []), ('call :s\necho no\n:s\n' + t, []), ('call s.bat\necho no', [('s.bat', b(t))]), ('for %%i in (1 2) do (\nif 1==1 ' + t + '\n)\necho no', []),
                                ('def f=%s\nf\necho no' % t, []), ('(set x=1&%s)>nul & echo no' % t, [])]):
            if n not in (0, 1, 255, 256, -1, 5) and (n + k) % 3: continue
            chk.state((n, k)); chk.transitions += 1
            yield Case('exit %d in %r' % (n, text), [PB(), 't.bat'], [('t.bat', b('@echo off\n' + text))] + files, env=ENV + ['PATHEXT=.bat'], data=('', st))
        if n % 3 == 0: yield Case('/c exit %d' % n, [PB(), '/c', 'exit', str(n)], data=('', st))
        if n % 3 == 1: yield Case('input exit %d' % n, [PB(), '/a:eq'], stdin=b(t + '\necho no\n'), data=('', st))
go(codes())
# --- scripts which are not there, and parameters that look like switches
def others():
    for f in ('nosuch.bat', 'd/nosuch', 'd'):
        yield Case('missing ' + f, [PB(), f], FILES, data=None)
    for sw in ('/z', '/-', '/', '/:', '/x:e'):
        yield Case('switch ' + sw, [PB(), sw, 't.bat'], [('t.bat', b'@echo no')], data=None)
    yield Case('switch /c without a command', [PB(), '/c'], [], data=None)
cs = list(others())
for c, r in zip(cs, run(cs)):
    chk.traces += 1; chk.state(c.key); chk.transitions += 1
    if r.status == 0 or r.status < 0 or b'no\n' in r.out or not r.err + r.out: chk.violation(c.key, c, 'a message and a status other than 0', (r.out, r.status, r.err))
def params():
    for a in itertools.product(['/c', '/a:e', '/k', '//', '/?', 'x', '/z', '@'], repeat=3 if THOROUGH else 2):
        for pre in ([], ['//'], ['/a:q'], ['/a:q', '//']):
            chk.state((a, tuple(pre))); chk.transitions += 1
            yield Case('parameters %s %s' % (pre, a), [PB()] + pre + ['t.bat'] + list(a), [('t.bat', b('@echo off\n' + ''.join('echo [%%%d]\n' % i for i in range(1, 5))))], data=(''.join('[%s]\n' % (a[i] if i < len(a) else '') for i in range(4)), 0))
go(params())
chk.sample({'argv': ['pbat', '/c', 'echo', 'b c', '&', 'exit', '7'], 'output': '"b c"', 'status': 7})
chk.finish()
