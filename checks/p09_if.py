"""P09: the conditions of IF: comparisons, DEFINED, EXIST, ERRORLEVEL, bracket expressions; ELSE; what a bad condition does."""
import sys, itertools, fnmatch
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P09', bounds='every pair of 40 values x 6 comparisons and == x /i x NOT, as text, through %v% and !v!; every bracket expression of up to 4 (thorough 5) '
            'tests with every bracketing, operator and truth value; every DEFINED/EXIST/ERRORLEVEL test over the listed objects; chains of ELSE IF; malformed conditions')
CMP = ['EQU', 'NEQ', 'LSS', 'LEQ', 'GTR', 'GEQ', 'neq', 'Leq']
INTS = ['0', '1', '-1', '7', '9', '10', '010', '0x1F', '31', '0X0a', '-0x2', '+3', '2147483647', '-2147483648', '99', '100', '007', '4294967297', '-2147483649', '0xFFFFFFFF']
FLTS = ['1.5', '1.50', '-0.5', '2e1', '20', '1e-2', '0.01', '20.0', '3.', '.5', '1E1']
STRS = ['abc', 'ABC', 'abd', 'abcd', 'a', 'Z', 'z', '1a', '9x', '08z', '-', 'a.b', '0x', 'x1', 'x10', 'x9', '_']
BLANK = ['a b', 'a  b', '', '1 2', 'A b']
def is_int(s):
    t = s[1:] if s[:1] in '+-' else s
    if not t: return None
    try:
        if t[:2].lower() == '0x': v = int(t[2:], 16) if t[2:] else None
        elif t[0] == '0' and len(t) > 1: v = int(t, 8)
        elif t.isdigit(): v = int(t)
        else: return None
    except ValueError: return None
    if v is None: return None
    v = -v if s[0] == '-' else v
    return v if -2**53 <= v < 2**53 else None
def is_float(s):
    import re
    return float(s) if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s) else None
def compare(op, a, b_, ci):
    if op == '==':
        return a.lower() == b_.lower() if ci else a == b_
    x, y = is_int(a), is_int(b_)
    if x is None or y is None:
        x, y = is_float(a), is_float(b_)
        if x is None or y is None:
            x, y = (a.lower(), b_.lower()) if ci else (a, b_)
    return {'EQU': x == y, 'NEQ': x != y, 'LSS': x < y, 'LEQ': x <= y, 'GTR': x > y, 'GEQ': x >= y}[op.upper()]
def ambiguous(a, b_):
    # an octal or hexadecimal number has another value as a floating point number
    for s, t in ((a, b_), (b_, a)):
        if is_int(s) is not None and is_int(t) is None and is_float(t) is not None and s.lstrip('+-')[:1] == '0' and len(s.lstrip('+-')) > 1 and '.' not in s: return True
    return False
def quote(s): return '"%s"' % s if s == '' or ' ' in s else s
n = 0
def pairs():
    vals = INTS + FLTS + STRS + BLANK
    for a in vals:
        for b_ in vals:
            if not ambiguous(a, b_): yield a, b_
def comparisons():
    for k, (a, b_) in enumerate(pairs()):
        ops = CMP if THOROUGH else CMP[:6] if k % 3 else ['equ', 'Neq', 'lss', 'lEQ', 'GtR', 'geq']
        for neg in (0, 1):
            for ci in (0, 1):
                t, e = '', ''
                pre = (['/i ', '/I '][k % 2] if ci else '') + (['not ', 'Not ', 'NOT ', 'nOT '][k % 4] if neg else '')
                for op in ops:
                    r = compare(op, a, b_, ci) != bool(neg)
                    chk.state((a, op, b_, ci, neg)); chk.transitions += 1
                    mode = (k + neg + ci * 2) % 3
                    if mode == 0: l, rr = quote(a), quote(b_)
                    elif mode == 1: l, rr = '!v!', '!w!'
                    else: l, rr = ('%v%', '%w%') if not (' ' in a + b_ or '' in (a, b_)) else ('"%v%"', '"%w%"')
                    if mode == 1 and '' in (a, b_): l, rr = quote(a), quote(b_)
                    t += 'if %s%s %s %s echo %s\n' % (pre, l, op, rr, op)
                    if r: e += op + '\n'
                yield Item('set v=%s & set w=%s\n%s' % (a, b_, t), 'set v=%s\nset w=%s\n%s' % (a, b_, t), e)
        # ==
        if not (a == '' or b_ == '') and a[0] != '[':
            t, e = '', ''
            for neg in (0, 1):
                for ci in (0, 1):
                    pre = ('/I ' if ci else '') + ('NOT ' if neg else '')
                    r = compare('==', a, b_, ci) != bool(neg)
                    forms = ['!v!==!w!', '"%s"=="%s"' % (a, b_)]
                    if ' ' not in a + b_: forms += ['%s==%s' % (a, b_), 'x%v%y==x%w%y', '"x%v%"=="x%w%"']
                    for j, f in enumerate(forms):
                        t += 'if %s%s (echo %d) else echo n%d\n' % (pre, f, j, j)
                        e += '%s%d\n' % ('' if r else 'n', j); chk.transitions += 1
            yield Item('== of %r and %r' % (a, b_), 'set v=%s\nset w=%s\n%s' % (a, b_, t), e)
batch(chk, comparisons(), per=200)

# DEFINED, EXIST, ERRORLEVEL
FILES = [('a.txt', b''), ('b c.txt', b''), ('d', None), ('d/e.dat', b''), ('.hid', b''), ('x.y.z', b''), ('UP.txt', b'')]
names = {'a.txt', 'b c.txt', 'd', '.hid', 'x.y.z', 'UP.txt', 't.bat'}
def exists(p):
    q_ = p[2:] if p.startswith('./') else p
    if q_.startswith('d/'): return bool(fnmatch.filter(['e.dat'], q_[2:]))
    return any(fnmatch.fnmatchcase(x, q_) for x in names)
OBJ = ['a.txt', 'a', 'a.tx', 'a.txtt', '"b c.txt"', 'b', 'd', 'd/e.dat', 'd/f.dat', 'd/*.dat', 'd/*.txt', '*.txt', '?.txt', '??.txt', '*.z', '*q*', '.hid', 'up.txt', 'UP.txt', 'U*', './a.txt', 'nodir/a.txt', 'nodir/*', 'a.txt/x', '"b ?.txt"', 'x.*.z', '*c.txt', 'd?', '"b  c.txt"']
cnt = [0]
def tests():
    for o in OBJ:
        r = exists(o.strip('"'))
        for neg in (0, 1):
            t = 'if %sexist %s echo y\nif [ %sEXIST %s ] (echo y) else echo n\n' % ('not ' * neg, o, 'NOT ' * neg, o)
            chk.transitions += 2; chk.state(('exist', o, neg))
            yield Item(t, t, ('y\n' if r != bool(neg) else '') + ('y\n' if r != bool(neg) else 'n\n'))
    for var, val in itertools.product(['v', 'V', 'vv', 'a-b', 'éa'], [None, 'x', '0', ' ', '""']):
        for ref in ('v', 'V', 'vv', 'a-b', 'éa', 'w'):
            for neg in (0, 1):
                r = val is not None and var.lower() == ref.lower()
                t = 'set v=\nset vv=\nset a-b=\nset éa=\nset w=\n' + ('' if val is None else 'set "%s=%s"\n' % (var, val) if val != '""' else 'set %s=""\n' % var)
                if val == ' ': continue
                t += 'if %sdefined %s echo y\nif [ %sdefined %s and 1 equ 1 ] (echo y) else echo n\n' % ('not ' * neg, ref, 'NOT ' * neg, ref)
                chk.transitions += 2; chk.state(('defined', var, val, ref, neg))
                yield Item(t, t, ('y\n' if r != bool(neg) else '') + ('y\n' if r != bool(neg) else 'n\n'))
    E = [0, 1, -1, 2, 3, 10, 255, 256, -5, 100000]
    for e, x in itertools.product(E, E + [9, 99999]):
        for neg in (0, 1):
            r = (e >= x) != bool(neg)
            cnt[0] += 1; i = cnt[0] % 1000
            t = 'call :l%d\ngoto x%d\n:l%d\nexit /b %d\n:x%d\nif %serrorlevel %d echo y\n' % (i, i, i, e, i, 'not ' * neg, x)
            t += 'call :l%d\nif [ %sERRORLEVEL %d ] (echo y) else echo n\ncall :l%d\nif not %%errorlevel%%==%d echo z\n' % (i, 'NOT ' * neg, x, i, x)
            chk.transitions += 3; chk.state(('level', e, x, neg))
            yield Item(t, t, ('y\n' if r else '') + ('y\n' if r else 'n\n') + ('z\n' if e != x else ''))
batch(chk, tests(), per=100, files=FILES)

# bracket expressions
def trees(n):
    """Lists of n tests with brackets: a list of items, each a test or a bracketed list."""
    def seqs(n, top):
        # compositions of n in parts, each part a leaf (1) or a bracket
        if n == 0: yield []; return
        for k in range(1, n + 1):
            for rest in seqs(n - k, False):
                if k == 1: yield ['L'] + rest
                if not (top and k == n):
                    for sub in seqs(k, True):
                        if len(sub) > 1: yield [sub] + rest
    return list(seqs(n, True))
LEAF = {1: ['a equ a', 'not a equ b', 'defined v', 'exist a.txt', '3 gtr 2', 'errorlevel 0', 'not defined w', '"x y" EQU "x y"', 'a == a'],
        0: ['a equ b', 'a NEQ a', 'defined w', 'exist q.txt', '3 leq 2', 'errorlevel 7', 'NOT DEFINED v', '"x y" EQU "x  y"', 'a == b', 'not a == a']}
def render(seq, ops, truth, leaf):
    """-> text, value; consumes ops, truth"""
    words, vals, used = [], [], []
    for k, x in enumerate(seq):
        if k:
            o = ops.pop(0); used.append(o); words.append(['AND', 'and', 'And'][leaf[0] % 3] if o else ['or', 'OR'][leaf[0] % 2])
        if x == 'L':
            t = truth.pop(0); leaf[0] += 1
            words.append(LEAF[t][(leaf[0] * 7 + len(words)) % len(LEAF[t])]); vals.append(t)
        else:
            w, v = render(x, ops, truth, leaf); words.append('[ ' + w + ' ]'); vals.append(v)
    # and before or
    groups, cur = [], vals[0]
    for o, v in zip(used, vals[1:]):
        if o: cur = cur and v
        else: groups.append(cur); cur = v
    groups.append(cur)
    return ' '.join(words), 1 if any(groups) else 0
def exprs():
    k = 0
    for n in range(1, 6 if THOROUGH else 5):
        for tr in trees(n):
            for ops in itertools.product((0, 1), repeat=n - 1):
                t, e = '', ''
                for truth in itertools.product((0, 1), repeat=n):
                    k += 1
                    s, v = render(tr, list(ops), list(truth), [k])
                    wrap = ['[ %s ]', '[ [ %s ] ]', '[ %s ]'][k % 3]
                    neg = k % 5 == 0
                    t += 'if %s%s (echo %d) else echo n%d\n' % ('not ' if neg else '', wrap % s, k % 10, k % 10)
                    e += '%s%d\n' % ('' if bool(v) != neg else 'n', k % 10); chk.transitions += 1; chk.state((str(tr), ops, truth))
                yield Item(t, 'type nul 2>nul\nset v=1\nset w=\nrem\n' + t, e)
    for ci in (0, 1):
        for a, b_ in itertools.product(['abc', 'ABC', 'x y', 'X Y', '10', '0xA'], repeat=2):
            r = compare('EQU', a, b_, ci)
            for form, v in (('[ %s ]', r), ('[ a equ a and %s ]', r), ('[ %s or b equ a ]', r), ('[ b equ a or %s ]', r), ('[ %s and b neq c ]', r), ('[ not %s ]', not r), ('[ b equ a or [ 1 equ 1 and %s ] ]', r),
                            ('[ [ not %s and 1 equ 1 ] or 2 equ 3 ]', not r)):
                for op in ('EQU', '=='):
                    if op == '==' and {a, b_} == {'10', '0xA'}: continue
                    x = form % ('%s %s %s' % (quote(a), op, quote(b_)))
                    t = 'if %s%s (echo y) else echo n\n' % ('/i ' * ci, x); chk.transitions += 1
                    yield Item(t, t, 'y\n' if v else 'n\n')
batch(chk, exprs(), per=25, files=[('a.txt', b'')])

# chains of ELSE IF, in several layouts
LAY = [('if %s (\n%s\n) else ', '(\n%s\n)\n'), ('if %s (%s) else ', '(%s)\n'), ('if %s ( %s\n) ELSE ', '%s\n'), ('if %s ( %s) Else ', '( %s)\n')]
def chains():
    k = 0
    for n in range(1, 5):
        for conds in itertools.product((0, 1), repeat=n):
            for lay in range(4):
                for bodies in (1, 2):
                    t = ''
                    for j, c in enumerate(conds):
                        k += 1
                        body = 'echo b%d' % j + ('&set z=%d' % j if bodies == 2 else '')
                        t += LAY[lay][0] % (LEAF[c][k % 9], body)
                    t += LAY[lay][1] % ('echo last' + ('&set z=n' if bodies == 2 else '')) + 'echo [!z!]\n'
                    first = conds.index(1) if 1 in conds else -1
                    e = ('b%d\n' % first if first >= 0 else 'last\n') + '[%s]\n' % ((str(first) if first >= 0 else 'n') if bodies == 2 else '')
                    chk.transitions += n; chk.state((conds, lay, bodies))
                    yield Item(t, 'set z=\nset v=1\nset w=\nrem\n' + t, e)
    # nested in the taken and in the other branch, without ELSE outside
    for a, c, d in itertools.product((0, 1), repeat=3):
        for lay in range(3):
            inner = [lambda x, s: 'if %s (echo %s1) else echo %s0' % (LEAF[x][3], s, s), lambda x, s: 'if %s (\necho %s1\n) else (\necho %s0\n)' % (LEAF[x][0], s, s),
                     lambda x, s: 'if %s (echo %s1) else (echo %s0)' % (LEAF[x][4], s, s)][lay]
            t = 'if %s (\n%s\necho e\n) else (\n%s\necho f\n)\n' % (LEAF[a][1], inner(c, 'p'), inner(d, 'q'))
            e = 'p%d\ne\n' % c if a else 'q%d\nf\n' % d
            chk.transitions += 2; chk.state((a, c, d, lay))
            yield Item(t, 'set v=1\nset w=\nrem\n' + t, e)
batch(chk, chains(), per=40, files=[('a.txt', b'')])

# a malformed condition runs nothing of its line, and the script goes on
BAD = ['if', 'if a', 'if a equ', 'if not', 'if not defined', 'if exist', 'if defined', 'if errorlevel', 'if /i', 'if /i a', 'if [ ] echo X', 'if [ a equ a echo X',
       'if [ a equ ] echo X', 'if [ a equ a and ] echo X', 'if [ or a equ a ] echo X', 'if [ a equ a b equ b ] echo X', 'if [ [ a equ a ] echo X', 'if [ a foo a ] echo X',
       'if a foo a echo X', 'if a foo b echo X', 'if a = a echo X', 'if not a foo b echo X', 'if /i defined v echo X', 'if /i exist a.txt echo X', 'if a equ b (echo X) echo Y',
       'if a equ b (echo X) els (echo Y)', 'if [ not ] echo X', 'if [ a equ a and and a equ a ] echo X', 'if [ a equ a or ] echo X', 'if [ defined ] echo X', 'if [ exist a.txt b ] echo X']
def bad():
    for x in BAD:
        for tail in ('', '&echo Z', '&&echo Z', '||echo Z'):
            for form in range(3):
                t = [x + tail + '\n', '(' + x + tail + '\n)\n', '(\n' + x + tail + '\n)\n'][form]
                if form == 1 and 'echo' not in x: continue
                chk.transitions += 1; chk.state(('bad', t))
                yield Item(t, 'set v=1\n' + t + 'echo end\n', 'end\n')
batch(chk, bad(), per=50, files=[('a.txt', b'')])
chk.sample({'if': '[ a equ a or [ defined w and 3 gtr 2 ] ]', 'result': 'true'}); chk.sample({'if': '/i not 0x1F GEQ 31', 'result': 'false'})
chk.finish()
