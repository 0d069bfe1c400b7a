"""P08: DEF: procedures, their parameters and their local variables."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P08', bounds='every body of up to 3 symbols ($1 to $9, $*, things that only look like one) with every list of up to 3 parameters out of 9 forms; every tree of three procedures whose bodies have up to 3, 2 and 1 (thorough 3, 2 and 2) '
            'operations on local, inherited and global variables and calls of the next one, with what it leaves and how it is left (end, GOTO, EXIT /B); recursion; histories of DEF, DEF /F, DEF /L')
# --- parameters
SYM = ['$1', '$2', '$3', '$9', '$*', '$', '$a', '$0', '$$', '-$2-', '$1$2', '$$1', '$12']
ARGS = [('a', 'a'), ('bc', 'bc'), ('"d e"', 'd e'), ('$2', '$2'), ('$1x', '$1x'), ('$*', '$*'), ('x=y', 'x=y'), ('"f,g"', 'f,g'), ('$$', '$$')]
def subst(body, args, raw):
    out, i = '', 0
    while i < len(body):
        c = body[i]
        if c == '$' and i + 1 < len(body) and body[i + 1] in '123456789*':
            d = body[i + 1]; i += 2
            out += raw if d == '*' else (args[int(d) - 1] if int(d) <= len(args) else '')
        else: out += c; i += 1
    return out
def params():
    k = 0
    for n in (1, 2, 3):
        for syms in itertools.product(SYM if n < 3 else SYM[:5] + SYM[7:11], repeat=n):
            for m in range(0, 4):
                for args in itertools.product(ARGS if m < 2 else ARGS[:6], repeat=m):
                    k += 1
                    if n == 3 and (k % (3 if THOROUGH else 29)) or n == 2 and m == 3 and k % (2 if THOROUGH else 7): continue
                    body = ' '.join(syms); raw = [' ', ', ', '  '][k % 3].join(a[0] for a in args)
                    e = subst(body, [a[1] for a in args], raw)
                    chk.state((body, args)); chk.transitions += 1
                    form = k % 4
                    call = 'p %s' % raw
                    t = 'def /f p=echo [%s]\n' % body if form % 2 else 'def /f p=(\necho [%s]\necho =\n)\n' % body
                    yield Item('p=[%s] p %s' % (body, raw), t + call + '\n', '[%s]\n' % e + ('' if form % 2 else '=\n'))
    # more parameters; loop variables of the caller
    for n in range(0, 13):
        a = ['w%d' % i for i in range(1, n + 1)]
        yield Item('%d parameters' % n, 'def /f p=echo [$1$2$3$4$5$6$7$8$9][$*][$9]\np %s\n' % ' '.join(a), '[%s][%s][%s]\n' % (''.join(a[:9]), ' '.join(a), a[8] if n > 8 else ''))
    for l, v in itertools.product((['x'], ['x', 'y z'], ['1', '2', '3']), ('%%i', 'a %%i', '%%i b', '%%i %%i', '"%%i"')):
        t = 'def /f p=(\necho [$*]\nfor %%j in ($1) do echo <%%j>\n)\n'.replace('<', '{').replace('>', '}')
        t = 'def /f p=(\necho [$*]\nfor %%j in (q) do echo {%%j}\n)\n'
        yield Item('for %r p %s' % (l, v), t + 'for %%i in (' + ' '.join('"%s"' % x if ' ' in x else x for x in l) + ') do p ' + (v if not any(' ' in x for x in l) else v.replace('%%i', '%%~i').replace('"', '')) + '\n',
                   ''.join('[%s]\n{q}\n' % (v if not any(' ' in y for y in l) else v.replace('"', '')).replace('%%i', x) for x in l))
batch(chk, params(), per=250)

# --- local variables
OPS = {'1': 'set _a=1', '2': 'set _a=2', 'X': 'set /x _a=3', 'B': 'set /x _b=4', 'c': 'set _b=6', 'U': 'set _a=', 'G': 'set g=5'}
# the variables as expanded, as the list of SET, and as seen by the two sides of a pipe
OBSS = ['echo [!_a!][!_b!][!g!]', 'set _\necho [!_a!][!_b!][!g!]', 'echo [!_a!][!_b!][!g!]|find /v ""', 'echo x|echo [!_a!][!_b!][!g!]']
def seen(obs, f, g):
    return ('' if obs != 1 else ''.join('%s=%s\n' % (n, f[n]) for n in ('_a', '_b') if n in f)) + '[%s][%s][%s]' % (f.get('_a', ''), f.get('_b', ''), g)
def obs_of(k): return 0 if k % 3 else 1 if k % 2 else 2 + k // 6 % 2
class Leave(Exception): pass
def allowed(seq):
    fa = fb = False
    for o in seq:
        if o == 'X': fa = True
        if o == 'B': fb = True
        if o in '12U' and fa: return False
        if o == 'c' and fb: return False
    return True
class M:
    def __init__(self, obs=0): self.g = ''; self.fr = [({}, set())]; self.out = []; self.obs = obs
    def see(self): self.out.append(self.now())
    def now(self): return seen(self.obs, self.fr[-1][0], self.g)
    def op(self, o):
        f, x = self.fr[-1]
        if o in '12X': f['_a'] = {'1': '1', '2': '2', 'X': '3'}[o]
        if o == 'X': x.add('_a')
        if o in 'Bc': f['_b'] = '4' if o == 'B' else '6'
        if o == 'B': x.add('_b')
        if o == 'U': f.pop('_a', None)
        if o == 'G': self.g = '5'
    def proc(self, bodies, lvl):
        self.fr.append((dict(self.fr[-1][0]), set()))
        try:
            for o in bodies[lvl]:
                if o == 'I': self.proc(bodies, lvl + 1)
                elif o in 'JKL': raise Leave(o)
                else: self.op(o)
                self.see(); chk.transitions += 1
        finally:
            f, x = self.fr.pop()
            for n in x:
                if n in f: self.fr[-1][0][n] = f[n]
NAMES = ['p', 'q', 'r', 's']
def define(bodies, jump, obs):
    t = ''; OBS = OBSS[obs]
    for i in reversed(range(len(bodies))):
        t += 'def /f %s=(\n' % NAMES[i]
        for o in bodies[i]: t += (NAMES[i + 1] if o == 'I' else 'goto j%d' % jump if o == 'J' else 'exit /b 7' if o == 'K' else 'goto :eof' if o == 'L' else OPS[o]) + '\n' + OBS + '\n'
        t += ')\n'
    return t
K = [0]
def seqs(ops, n, lo=0):
    for k in range(lo, n + 1):
        for h in itertools.product(ops, repeat=k):
            if allowed(h): yield h
def trees():
    third = list(seqs('2XBcU', 2 if THOROUGH else 1, 1))
    second = list(seqs('2XBUGI', 2, 1)); first = list(seqs('1XBcUI', 3, 1))
    n = 0
    for f in first:
        for s in (second if 'I' in f else [None]):
            for t in (third if s and 'I' in s else [None]):
                n += 1
                if not THOROUGH and s and t and n % 3: continue
                if THOROUGH and t and len(t) == 2 and n % 4: continue
                bodies = [f] + ([s] if s else []) + ([t] if t else [])
                for main in ((), ('1',), ('1', 'c')) if n % 5 == 0 or not s else ((('1',) if n % 2 else ()),):
                    K[0] += 1; obs = obs_of(K[0]); OBS = OBSS[obs]; m = M(obs)
                    for o in main: m.op(o)
                    m.proc(bodies, 0); m.see()
                    form = K[0] % 4
                    call = ['p\n', 'if 1==1 (p) else p\n', 'for %%i in (x) do p\n', '(p)\n'][form]
                    chk.state((bodies[0], s, t, main))
                    yield Item('main %s, p=%s' % (' '.join(main), ' q= '.join(' '.join(x) for x in bodies)), 'set _a=\nset _b=\nset g=\n' + define(bodies, K[0], obs) + ''.join(OPS[o] + '\n' for o in main) + call + OBS + '\n', '\n'.join(m.out) + '\n')
batch(chk, trees(), per=80, timeout=30000)
# left by GOTO, EXIT /B or GOTO :EOF, at any depth: the locals of all that was left are gone
def leaving():
    for f in seqs('1XBI', 2, 1):
        for s in (list(seqs('2XB', 1, 0)) if 'I' in f else [None]):
            for how in 'JKL':
                for where in (0, 1) if s is not None else (0,):
                    for pos in range(len((f, s)[where]) + 1):
                        bodies = [list(f)] + ([list(s)] if s is not None else [])
                        bodies[where].insert(pos, how); K[0] += 1; k = K[0]
                        obs = obs_of(k); OBS = OBSS[obs]; m = M(obs); m.op('1'); h = None
                        try: m.proc(bodies, 0); m.see(); h = 'end'
                        except Leave as e: h = e.args[0]
                        t = 'set _a=1\nset _b=\nset g=\n' + define(bodies, k, obs) + 'call :l%d\necho back %%errorlevel%%\n' % k + OBS + '\ngoto x%d\n:l%d\np\n' % (k, k) + OBS + '\ngoto :eof\n:j%d\necho jumped\n' % k + OBS + '\ngoto :eof\n:x%d\n' % k
                        out = list(m.out)
                        # the variables of the main script: changed by inheritance only
                        fin = m.now()
                        if h == 'J': out += ['jumped', fin]
                        chk.state((f, s, how, where, pos))
                        code = 7 if h == 'K' else None
                        def v(o, out=out, code=code, fin=fin):
                            l = o.decode()
                            if not l.startswith(''.join(x + '\n' for x in out)): return 'expected %r' % out
                            r = l[len(''.join(x + '\n' for x in out)):].split('\n', 1)
                            if len(r) != 2 or not r[0].startswith('back ') or code is not None and r[0] != 'back %d' % code or r[1] != fin + '\n': return 'expected, behind the call, status %r and %r: %r' % (code, fin, r)
                        yield Item('p=%s q=%s' % (' '.join(bodies[0]), ' '.join(bodies[1]) if s is not None else ''), t, v)
batch(chk, leaving(), per=60, timeout=30000)
# recursion; a procedure on either side of a pipe; redirected; within SETLOCAL
def misc():
    for n in range(0, 12 if THOROUGH else 8):
        t = 'def /f r=(\nset /a _n=$1 - 1\nif $1 gtr 0 r !_n!\necho $1 !_n!\n)\nset _n=z\nr %d\necho !_n!\n' % n
        yield Item('recursion %d' % n, t, ''.join('%d %d\n' % (i, i - 1) for i in range(0, n + 1)) + 'z\n')
        t = 'def /f r=(\nif $1 gtr 0 (\nset /a _n=$1 - 1\nr !_n! .\n)\nif $1==0 set /x _d=1\nset /x _d=!_d!+\n)\nset _d=\nr %d\necho !_d!\n' % n
        yield Item('inherited recursion %d' % n, t, '1' + '+' * (n + 1) + '\n')
        t = 'def /f twice=(\n$*\n$*\n)\nset c=\n' + 'twice ' * n + 'set c=!c!x\necho [!c!]\n' if n < 6 else None
        if t: yield Item('procedures as commands %d' % n, t, '[%s]\n' % ('x' * 2 ** n))
    base = 'set _a=1\nset g=\ndef /f p=(\nset _a=2\nset /x _b=3\nset g=4\necho in !_a!\n)\nset _b=\n'
    fin = 'echo [!_a!][!_b!][!g!]\n'
    for call, e in (('p > o.txt\ntype o.txt\n', 'in 2\n[1][3][4]\n'), ('p | more\n', 'in 2\n[1][][]\n'), ('echo q | p\n', 'in 2\n[1][3][4]\n'), ('(echo q | p) > o.txt\ntype o.txt\n', 'in 2\n[1][3][4]\n'),
                    ('setlocal\np\nendlocal\n', 'in 2\n[1][][]\n'), ('setlocal\nset _a=7\np\necho !_a!!_b!\nendlocal\n', 'in 2\n73\n[1][][]\n'), ('p && echo ok\n', 'in 2\nok\n[1][3][4]\n'), ('p & p\n', 'in 2\nin 2\n[1][3][4]\n'),
                    ('nosuch || p\n', 'in 2\n[1][3][4]\n'), ('call :w\ngoto w2\n:w\np\necho [!_a!]\ngoto :eof\n:w2\n', 'in 2\n[1]\n[1][3][4]\n'), ('for /f %%i in (\'p\') do echo %%i\n', 'in\n[1][][]\n'), ('(p&p)|more\n', 'in 2\nin 2\n[1][][]\n')):
        yield Item(call, base + call.replace('w2', 'w%d' % K[0]).replace(':w\n', ':w\n') + fin, e)
        K[0] += 1
    for setl in range(1, 4):
        t = base + 'def /f o=(\n' + 'setlocal\n' * setl + 'set _a=9\np\necho !_a!!_b!\n' + 'endlocal\n' * setl + 'echo !_a!!_b!\n)\no\n' + fin
        yield Item('setlocal in a procedure %d' % setl, t, 'in 2\n93\n1\n[1][][]\n')
batch(chk, misc(), per=1)
# names of any length, one the beginning of the other, defined in any order
def named():
    L = ['q' * n for n in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 200]]
    for order in (L, L[::-1], L[1::2] + L[::2]):
        for f in ('', '/f ', '/F '):
            t = ''.join('def %s%s=echo %d $1\n' % (f, n, len(n)) for n in order) + ''.join('%s %d\n' % (n, i) for i, n in enumerate(L))
            yield script('@echo off\n' + t, key='names of many lengths %s' % f), ''.join('%d %d\n' % (len(n), i) for i, n in enumerate(L)), None
    for names in (['g', 'ga', 'h', 'gb', 'zz'], ['alpha', 'beta', 'al', 'alphabet', 'b']):
        for p in itertools.permutations(names):
            t = '@echo off\n' + ''.join('def %s=echo %s\n' % (n, n) for n in p) + ''.join('%s\n' % n for n in names)
            pre = ['', names[0], names[2], 'A', 'y']
            t += ''.join(('echo @\ndef %s %s' % (('/l', '/L')[k % 2], x)).rstrip() + '\n' for k, x in enumerate(pre)) + 'echo @\n'
            yield script(t, key='definitions of %s' % ' '.join(p)), ''.join(n + '\n' for n in names), [sorted('%s=echo %s' % (n, n) for n in names if n.startswith(x.lower())) for x in pre]
for ch in chunks(named(), 2000):
    for (c, e, ls), r in zip(ch, run([c for c, _, _ in ch])):
        chk.traces += 1; chk.state(c.key); chk.transitions += 1
        o = r.out.decode('latin1').split('@\n')
        got = [sorted(x for x in g.split('\n') if x and not x.lower().startswith('help=')) for g in o[1:-1]]
        if o[0] != e or ls is not None and got != ls: chk.violation(c.key, c, (e, ls), r.out)
        else: chk.outcomes.add(r.out)
# --- DEF itself
def histories():
    NM = ['da', 'DB', 'dab']
    ALPHA = [(n, f, b_) for n in range(3) for f in ('', '/f ') for b_ in ('1', '2')] + [('call', n) for n in range(3)]
    D = 4 if THOROUGH else 3
    for n in range(1, D + 1):
        for i, h in enumerate(itertools.product(ALPHA, repeat=n)):
            if n == 4 and i % 7: continue
            if n == 3 and not THOROUGH and i % 3: continue
            defs, t, out = {}, '@echo off\n', ''
            for o in h:
                chk.transitions += 1
                if o[0] == 'call':
                    t += NM[o[1]].swapcase() + ' z\n'
                    if o[1] in defs: out += 'body%s z\n' % defs[o[1]]
                else:
                    k, f, b_ = o
                    t += 'def %s%s=echo body%s $*\n' % (f, NM[k], b_) + 'if errorlevel 1 echo refused\n'
                    if k in defs and not f: out += 'refused\n'
                    else: defs[k] = b_
            t += 'echo @\ndef /l\necho @\ndef /l d\necho @\ndef /l DA\necho @\ndef /l zz\necho @\nhelp /? \n'
            chk.state((tuple(sorted(defs.items()))))
            yield script(t, key=repr(h)), out, defs
def dodef():
    NM = ['da', 'db', 'dab']
    for ch in chunks(histories(), 4000):
        for (c, e, defs), r in zip(ch, run([c for c, _, _ in ch])):
            chk.traces += 1
            o = r.out.decode('latin1').split('@\n'); bad = None
            if o[0] != e: bad = 'calls', e, o[0]
            else:
                full = ['%s=echo body%s $*' % (NM[k], v) for k, v in defs.items()]
                for p, g in zip(('', 'd', 'da', 'zz'), o[1:5]):
                    want = sorted(x for x in full if x.startswith(p)); got = sorted(x[:x.index('=')].lower() + x[x.index('='):] for x in g.split('\n') if '=' in x and not x.lower().startswith('help='))
                    if want != got: bad = 'def /l ' + p, want, got; break
            if bad: chk.violation(c.key, c, bad[1], bad[2], bad[0])
            else: chk.outcomes.add(r.out)
dodef()
chk.sample({'body': '[$1 $*]', 'parameters': ['"d e"', '$2'], 'text': subst('[$1 $*]', ['d e', '$2'], '"d e" $2')})
chk.sample({'p': ['set _a=1', 'q'], 'q': ['set /x _a=3'], '_a in p after q': '3', '_a outside': ''})
chk.finish()
