"""P30: PROMPT, PECHO and the echoing of lines: what is shown is the text with its codes replaced, for each line that runs while ECHO is on."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P30', bounds='texts of up to %d of 36 codes and characters given to PECHO, PECHO., PROMPT and SET PROMPT; every history of up to 3 (thorough 4) lines of 22 kinds, from a script and from standard input, and of up to %d of the lines that switch the echo' % (4 if THOROUGH else 3, 7 if THOROUGH else 6))
CODE = {'a': '&', 'b': '|', 'c': '(', 'e': '\x1b', 'f': ')', 'g': '>', 'h': '\b', 'l': '<', 'n': '/', 'q': '=', 's': ' ', 'u': 'Joe B', 'w': '', '_': '\n', '$': '$'}
def tokens():
    t = [('$' + k, v) for k, v in CODE.items()]
    t += [('$' + k.upper(), v) for k, v in CODE.items() if k.isalpha()]
    t += [('$p', 'P'), ('$P', 'P'), ('$+', '+'), ('$x4;', ''), ('$x.c;', ''), ('$X0F;', '')]
    t += [(c, c) for c in ('x', ' ', 'p', '=', ';', ',', '.', "'", '+', '_', 'é', '\t', '(')]
    return t
TOK = tokens()
SMALL = [t for t in TOK if t[0] in ('$a', '$P', '$$', '$g', '$_', '$+', '$x4;', 'x', ' ', 'é', '$s', 'p', '$u', '_', 'g', '$h')]
def pecho():
    n = 0
    def gen():
        for t in TOK: yield (t,)
        yield ()
        yield from itertools.product(TOK, repeat=2)
        yield from itertools.product(SMALL, repeat=3)
        if THOROUGH: yield from itertools.product(SMALL, repeat=4); yield from itertools.product(TOK, repeat=3)
    # the folder and the number of pushed folders change between the statements
    for s in gen():
        src = ''.join(a for a, v in s)
        for depth in ((n % 4),) if len(s) > 1 else range(4):
            n += 1
            cwd = ('', '/d', '/d', '')[depth]; plus = (0, 0, 2, 3)[depth]
            pre = ('', 'cd d\n', 'pushd d\npushd .\n', 'pushd d\npushd ..\npushd .\n')[depth]
            post = ('', 'cd ..\n', 'popd\npopd\n', 'popd\npopd\npopd\n')[depth]
            def exp(cwd, plus):
                return ''.join('\0' + cwd if v == 'P' else '+' * plus if a == '$+' else v for a, v in s)
            form = n % 3
            if form == 0: text = 'pecho [%s]\n' % src; w = '[%s]\n' % exp(cwd, plus)
            elif form == 1: text = 'pecho.[%s]\n' % src; w = '[%s]\n' % exp(cwd, plus)
            else:
                # the text of the command comes from a variable
                text = 'set "k=[%s]"\npecho !k!\n' % src; w = '[%s]\n' % exp(cwd, plus)
            chk.state((src, form, depth)); chk.transitions += len(s) + 1
            def verdict(out, w=w):
                o = out.decode('utf-8', 'surrogateescape')
                r = re.compile(re.escape(w).replace(re.escape('\0'), r'/[^\0]*?/run[^/]*/[^/\0]*?').replace('\0', r'/[^\0]*?'), re.S)
                if w.count('\0'):
                    if not WD: return None
                    return None if o == w.replace('\0', WD[0]) else 'expected %r' % w.replace('\0', WD[0])
                return None if o == w else 'expected %r' % w
            yield Item('pecho %r at %d' % (text, depth), pre + text + post, (w, verdict)[1])
# the folder of a case differs between processes: SUBST makes it the same
WD = []
def items_run():
    """like mc.batch, with the folder of each process known from its first line"""
    per = 250
    for block in chunks(chunks(pecho(), per), 64):
        if chk.enough(): return
        cs = [script(b('@echo off\nset USERNAME=Joe B\nset USERDOMAIN=\ncd\n') + b''.join(b'echo \x01@%d\n' % i + it.text for i, it in enumerate(its)) + b'echo \x01@%d\n' % len(its),
                     files=[('d', None)], key=its[0].key) for its in block]
        for its, c, r in zip(block, cs, run(cs)):
            outs = split_marks(r.out, len(its) + 1)
            WD[:] = [r.out.split(b'\n')[0].decode()]
            for it, o in zip(its, outs):
                chk.traces += 1
                bad = it.expect(o if o is not None else b'?no output?')
                if bad or r.err:
                    chk.violation(it.key, c, bad, (o, r.err[:200]))
                else: chk.outcomes.add(hash(o))
items_run()
# --- dates and times
def times():
    shape = lambda s: re.sub(r'\d', '9', s.strip())
    for code, var in (('d', 'date'), ('t', 'time'), ('D', 'date'), ('T', 'TIME')):
        def verdict(out):
            a, p, z = out.decode().rstrip('\n').split('\n')
            if a == z and p != a: return 'expected %r' % a
            return None if shape(a) == shape(p) else 'shapes differ: %r %r' % (a, p)
        chk.state(code); chk.transitions += 1
        yield Item('$' + code, 'echo %%%s%%\npecho $%s\necho %%%s%%' % (var, code, var), verdict)
batch(chk, times())
# --- histories of lines with the echo on
class St:
    def __init__(s, stdin): s.echo = True; s.prompt = '$P$G'; s.cwd = ''; s.stack = []; s.out = ''; s.stdin = stdin; s.v = ''; s.fl = 0
    def shown(s, p=None):
        p = s.prompt if p is None else p
        return re.sub(r'\$(.)', lambda m: {'P': '\0' + s.cwd, 'G': '>', '$': '$', '+': '+' * len(s.stack), '_': '\n', 'S': ' ', 'L': '<', 'U': 'Joe B'}[m.group(1).upper()], p)
    def before(s, line, at=False, silent=False):
        """what is shown before a line runs"""
        if not s.echo: return
        if s.stdin: s.out += '\n' + s.shown()
        elif not at and not silent: s.out += s.shown() + line.lstrip() + '\n'
def L(line, f, at=False, silent=False): return (line, f, at, silent)
def e_echo(t):
    def f(s): s.out += t + '\n'
    return f
def sete(v):
    def f(s): s.echo = v
    return f
def setp(v):
    def f(s): s.prompt = v
    return f
def cd(d):
    def f(s): s.cwd = d
    return f
def pushd(s): s.stack.append(s.cwd); s.cwd = '/d'
def popd(s): s.cwd = s.stack.pop()
def state(s): s.out += 'Echo command %s\n' % ('enabled' if s.echo else 'disabled')
def nop(s): pass
def pout(s): s.out += s.shown('<$$$+>') + '\n'
def sub(kind):
    def f(s):
        if kind == 'on': s.before('echo on'); s.echo = True; s.before('echo o'); s.out += 'o\n'
        elif kind == 'off': s.before('echo off'); s.echo = False; s.before('echo f'); s.out += 'f\n'
        elif kind == 'at': s.before('echo t', at=True); s.out += 't\n'; s.before('set v=1'); s.v = '1'
    return f
LINES = [L('echo a', e_echo('a')), L('@echo b', e_echo('b'), True), L('  echo  c', e_echo(' c')), L('echo off', sete(False)), L('@echo off', sete(False), True), L('echo on', sete(True)), L('@echo on', sete(True), True),
         L('prompt K$G$+', setp('K$G$+')), L('set PROMPT=($P)$$', setp('($P)$$')), L('prompt', setp('$P$G')), L('cd d', cd('/d')), L('pushd ROOT', pushd), L('popd', popd), L('echo', state), L(' @ echo', state, True), L('rem r', nop),
         L('pecho $l$$$+$g', pout), L('call on.bat', sub('on')), L('call off.bat', sub('off')), L('@call at.bat', sub('at'), True), L('if 1==1 echo i', e_echo('i')), L('set v=1', nop), L('echo e& echo f', lambda s: s.out.__class__ and setattr(s, 'out', s.out + 'e\nf\n'))]
SUBF = [('on.bat', 'echo on\necho o\n'), ('off.bat', 'echo off\necho f\n'), ('at.bat', '@echo t\nset v=1\n'), ('d', None)]
SUBF += [('d/' + n, t) for n, t in SUBF[:3]]
def hist():
    for d in range(1, 5 if THOROUGH else 4):
        yield from itertools.product(LINES, repeat=d)
    SW = [l for l in LINES if l[0] in ('echo a', '@echo b', 'echo off', '@echo on', 'echo')]
    for d in range(4, 8 if THOROUGH else 7): yield from itertools.product(SW, repeat=d)
def histories():
    for k, h in enumerate(hist()):
        modes = (False, True) if len(h) < 3 else (k % 3 == 2,)
        for stdin in modes:
            s = St(stdin); ok = True; text = ''
            for i, (line, f, at, silent) in enumerate(h):
                if line == 'popd' and not s.stack or line == 'cd d' and s.cwd or line.startswith('pushd') and s.cwd: ok = False; break
                line = line.replace('ROOT', 'd')
                if stdin and ('call' in line): ok = False; break
                sp = (k + i) % 5 == 4 and not stdin      # labels, comments and blank lines are not shown
                if sp: text += (':lab%d\n' % i, '\n', ':: x\n', '  \n')[(k // 5 + i) % 4]
                text += line + '\n'
                s.before(line, at, silent); f(s)
            if not ok: continue
            if stdin:
                if s.echo: s.out += '\n' + s.shown()      # waits for the next line, which is missing
            chk.state((h and tuple(x[0] for x in h), stdin)); chk.transitions += len(h)
            yield stdin, text, s.out
for block in chunks(histories(), 6000):
    cs = [Case(('stdin ' if sd else '') + repr(t), [program('pbat')] + ([] if sd else ['t.bat']), SUBF + ([] if sd else [('t.bat', b(t))]), stdin=b(t) if sd else b'', env=ENV + ['USERNAME=Joe B']) for sd, t, w in block]
    for (sd, t, w), c, r in zip(block, cs, run(cs)):
        chk.traces += 1
        o = r.out.decode('utf-8', 'surrogateescape')
        pat = re.escape(w).replace('\\\0', '\0').replace('\0', '(/(?:[^/\n()>$]+/)*[^/\n()>$]+)')
        m = re.fullmatch(pat, o)
        ok = m and len(set(m.groups())) <= 1
        if not ok or r.err: chk.violation(c.key, c, w, (o, r.err[:200]))
        chk.outcomes.add(hash(w))
    if chk.enough(): break
chk.sample({'text': 'pecho [$P$+$$g]', 'shown': '[<folder><one + per pushed folder>$g]'})
chk.finish()
