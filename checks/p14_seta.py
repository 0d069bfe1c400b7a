"""P14: SET /A computes the documented value of every expression of a bounded grammar."""
import sys, itertools, math
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *

chk = Check('P14', bounds='all expressions of up to 4 operands over the documented operators, unary operators and one pair of '
            'parentheses (operand alphabets in the code), all assignment operators, every function at %d arguments, every constant, in expressions' % (22 if THOROUGH else 16))
VARS = {'va': 5, 'vb': -7}
ABSENT = 'vz'                     # an undefined variable is 0

# --- reference: precedence climbing over (is_float, int value, float value) ----------------------
PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '<<': 6, '>>': 6, '+': 7, '-': 7, '*': 8, '/': 8, '%': 8}
class Skip(Exception): pass       # the result is not defined by the documentation
LIM = 1 << 31

def num(t):
    if t in VARS: return (False, VARS[t], float(VARS[t]))
    if t == ABSENT: return (False, 0, 0.0)
    if '.' in t or 'E' in t: return (True, 0, float(t))
    v = int(t, 16) if t[:2] == '0x' else int(t, 8) if t[0] == '0' and len(t) > 1 else int(t)
    return (False, v, float(v))

def toint(d):
    if math.isnan(d) or math.isinf(d) or abs(d) >= LIM: raise Skip
    return int(d)

def fdiv(x, y):
    if y == 0:
        if x == 0 or math.isnan(x): return math.nan
        return math.copysign(math.inf, x) * math.copysign(1, y)
    return x / y

def ffmod(x, y):
    if y == 0 or math.isinf(x) or math.isnan(x) or math.isnan(y): return math.nan
    return math.fmod(x, y)

def binop(op, x, y):
    f = x[0] or y[0]
    a, c, da, dc = x[1], y[1], x[2], y[2]
    if op in '+-*':
        fn = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q}[op]
        try: d = fn(da, dc)
        except OverflowError: raise Skip
        i = 0 if f else fn(a, c)
    elif op in '/%':
        if not f and c == 0: f, da, dc = True, float(a), float(c)
        d = fdiv(da, dc) if op == '/' else ffmod(da, dc)
        if f: i = 0
        else:
            q = abs(a) // abs(c) * (1 if (a < 0) == (c < 0) else -1)
            i = q if op == '/' else a - q * c
    else:
        def bit(p, q):
            if op == '&': return p & q
            if op == '|': return p | q
            if op == '^': return p ^ q
            if op == '&&': return int(bool(p) and bool(q))
            if op == '||': return int(bool(p) or bool(q))
            if not 0 <= q < 31 or p < 0 and op == '<<': raise Skip
            return p << q if op == '<<' else p >> q
        # the operators on bits work on the truncated values
        i = 0 if f else bit(a, c)
        d = float(bit(toint(da), toint(dc))) if f else float(i)
        # the floating point value of an integer operation is only used if a later operand is one
    if not f and abs(i) >= LIM: raise Skip
    return (f, i, d)

def unop(op, x):
    f, i, d = x
    if op == '-': return (f, -i, -d)
    if op == '!': return (f, int(not i), float(not toint(d)) if f else float(not i))
    return (f, ~i, float(~toint(d)) if f else float(~i))

def evaluate(toks):
    pos = 0
    def primary():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t in '-!~': return unop(t, primary())
        if t == '(':
            v = expr(1); assert toks[pos] == ')'; pos += 1
            return v
        return num(t)
    def expr(p):
        nonlocal pos
        l = primary()
        while pos < len(toks) and toks[pos] in PREC and PREC[toks[pos]] >= p:
            op = toks[pos]; pos += 1
            l = binop(op, l, expr(PREC[op] + 1))
        return l
    return expr(1)

def fmt(v):
    x = v[2] if v[0] else v[1]
    if isinstance(x, float):
        if math.isnan(x): return 'nan'
        if math.isinf(x): return 'inf' if x > 0 else '-inf'
        if x == 0: return '0'
    else:
        if abs(x) >= 10 ** 14: raise Skip
        return str(x)
    s = '%.14g' % x
    return s

def esc(s): return s.replace('^', '^^').replace('%', '%%')

def norm(o): return o.replace(b'-nan', b'nan').replace(b'[-0]', b'[0]')

def item(toks, sp=''):
    try: v = fmt(evaluate(toks))
    except Skip: return None
    e = sp.join(toks)
    exp = b'[%s]\n' % v.encode()
    chk.state(tuple(toks)); chk.transitions += len(toks)
    return Item('set /a r=' + e, 'set r=none\nset /a "r=%s"\necho [%%r%%]' % esc(e),
                lambda o, exp=exp: None if norm(o) == exp else 'expected %s' % show(exp))

def mixed(toks):
    """A float sub-expression of integer operations on bits has no documented value."""
    return any('.' in t for t in toks) and any(t in ('&', '|', '^', '&&', '||', '<<', '>>', '~', '!') for t in toks)

OPS = list(PREC)
def gen():
    lits = ['0', '1', '2', '3', '7', '010', '0x1F', '2147483647', 'va', 'vb', ABSENT, '0.5', '2.5', '1.5E2']
    for a in lits:
        yield [a]
        for u in '-!~':
            yield [u, a]
            for w in '-!~': yield [u, w, a]
    for a in lits:
        for c in lits:
            for op in OPS: yield [a, op, c]
    A3 = ['0', '2', '7', 'va', 'vb', '0.5'] + (['1', '3', '010', ABSENT, '2.5'] if THOROUGH else [])
    for o1, o2 in itertools.product(OPS, OPS):
        for a, c, d in itertools.product(A3, repeat=3):
            yield [a, o1, c, o2, d]
            if '.' in a + c + d and not THOROUGH: continue
            yield ['(', a, o1, c, ')', o2, d]
            yield [a, o1, '(', c, o2, d, ')']
    for o1, o2 in itertools.product(OPS, OPS):
        for u in '-!~':
            for a, c, d in itertools.product(['0', '2', 'vb'], repeat=3):
                yield [u, a, o1, c, o2, d]
                yield [a, o1, u, c, o2, d]
                yield [a, o1, c, o2, u, d]
                yield [u, '(', a, o1, c, ')', o2, d]
    vals4 = [('1', '2', '3', 'va'), ('7', '3', '2', '6'), ('va', '0', '2', '1')] + \
            ([('6', '1', '3', '2'), ('2', 'vb', '3', '4'), ('1', '0', '0', '3')] if THOROUGH else [])
    for o in itertools.product(OPS, repeat=3):
        for v in vals4:
            yield [v[0], o[0], v[1], o[1], v[2], o[2], v[3]]
            if THOROUGH:
                yield [v[0], o[0], '(', v[1], o[1], v[2], ')', o[2], v[3]]
                yield ['(', v[0], o[0], v[1], ')', o[1], '(', v[2], o[2], v[3], ')']
    # deep nesting and long chains
    for n in (1, 2, 5, 20, 60):
        yield ['('] * n + ['va'] + [')'] * n
        yield list(itertools.chain(*[['1', '+']] * n)) + ['1']
        yield ['-'] * n + ['3']

def bitfloat_ok(toks):
    return not mixed(toks)

def items():
    seen = set()
    for t in gen():
        k = tuple(t)
        if k in seen: continue
        seen.add(k)
        if not bitfloat_ok(t): continue
        it = item(t)
        if it: yield it
    # blanks change nothing
    for t in (['1', '+', '2', '*', '3'], ['(', '7', '-', '2', ')', '%', '3'], ['-', 'va', '+', '~', '2'], ['1', '<<', '3', '|', '1']):
        for sp in (' ', '  '): yield item(t, sp)
    # assignments: var op= expr is var = var op (expr), and nested assignments set their variable
    for op in ('+', '-', '*', '/', '%', '^', '&', '|', '&&', '||', '<<', '>>'):
        for init in ('0', '1', '6', '-5', None, '2.5'):
            for rhs in (['2'], ['0'], ['1', '+', '2'], ['va', '-', '3'], ['2', '|', '1'], ['0.5']):
                if (init == '2.5' or rhs == ['0.5']) and op not in '+-*/': continue
                if init == '2.5' and rhs != ['0.5']: continue
                try:
                    iv = (False, 0, 0.0) if init is None else num(init.lstrip('-'))
                    if init and init[0] == '-': iv = unop('-', iv)
                    v = fmt(binop(op, iv, evaluate(rhs)))
                except Skip: continue
                if init in ('0', '-5') and op == '/' and v in ('nan',): pass
                exp = b'[%s]\n' % v.encode(); e = ''.join(rhs)
                for sp in ('', ' '):
                    key = 'set r=%s; set /a r%s%s=%s%s' % (init, sp, op, sp, e)
                    chk.state(key); chk.transitions += 1
                    yield Item(key, 'set r=%s\nset /a "r%s%s=%s%s"\necho [%%r%%]' % (init or '', sp, esc(op), sp, esc(e)),
                               lambda o, exp=exp: None if norm(o) == exp else 'expected %s' % show(exp))
    for a, c in itertools.product(['1', '2', 'va', '0x10'], repeat=2):
        for op in ('+', '*', '-'):
            x, y = evaluate([a]), evaluate([c])
            v = binop(op, x, y)
            exp = b'[%d][%d]\n' % (v[1], x[1])
            key = 'set /a r=(s=%s)%s%s' % (a, op, c)
            chk.state(key)
            yield Item(key, 'set s=\nset r=\nset /a "r=(s=%s)%s%s"\necho [%%r%%][%%s%%]' % (a, op, c), exp)

    for a, x in (('1234567.25', 1234567.25), ('2147483647', 2147483647), ('0.5', .5), ('-3', -3), ('99999999', 99999999), ('-0.0625', -.0625), ('12345678', 12345678), ('(3*5.0)', 15), ('(va*100003)', 500015), ('(1/0)', math.inf), ('(0/0)', math.nan)):
        for f, y in (('(s=%s)', x), ('(s=%s)+0.0', x), ('1.0*(s=%s)', x), ('(s=%s)*0', x * 0), ('(s=%s)+s-s', x)):
            if math.isinf(x) and 's-s' in f: y = math.nan
            if a == '2147483647' and '*0' in f or '*0' in f and math.isinf(x): continue
            key = 'set /a r=' + f % a; chk.state(key); chk.transitions += 2
            yield Item(key, 'set s=\nset r=\nset /a "r=%s"\necho [%%r%%][%%s%%]' % esc(f % a), lambda o, w=b('[%s][%s]\n' % (fmt((True, 0, float(y))), fmt((True, 0, float(x))))): None if norm(o) == w else 'expected %s' % show(w))
    # functions and constants: anything given to them is a floating point number, and so is what they give
    def safe(f):
        def g(x):
            try: return f(x)
            except ZeroDivisionError: return math.nan
            except ValueError: return math.nan
            except OverflowError: return math.inf
        return g
    inv = lambda f: (lambda x: f(1 / x))
    rec = lambda f: (lambda x: 1 / f(x))
    FUN = {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'cot': rec(math.tan), 'sec': rec(math.cos), 'csc': rec(math.sin), 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'acot': inv(math.atan), 'asec': inv(math.acos), 'acsc': inv(math.asin),
           'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'coth': rec(math.tanh), 'sech': rec(math.cosh), 'csch': rec(math.sinh), 'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'acoth': inv(math.atanh), 'asech': inv(math.acosh), 'acsch': inv(math.asinh), 'abs': abs, 'step': lambda x: 0.0 if x < 0 else 1.0, 'delta': lambda x: math.inf if x == 0 else 0.0, 'nandelta': lambda x: math.nan if x == 0 else 0.0}
    CON = {'e': math.e, 'log2e': math.log2(math.e), 'log10e': math.log10(math.e), 'ln2': math.log(2), 'ln10': math.log(10), 'pi': math.pi, 'pi_2': math.pi / 2, 'pi_4': math.pi / 4, '1_pi': 1 / math.pi, '2_pi': 2 / math.pi, '2_sqrtpi': 2 / math.sqrt(math.pi), 'sqrt2': math.sqrt(2), 'sqrt1_2': math.sqrt(.5)}
    def near(v):
        def f(o):
            t = norm(o).strip(b'[]\n')
            if math.isnan(v): return None if t == b'nan' else 'expected nan'
            if math.isinf(v): return None if t == (b'inf' if v > 0 else b'-inf') else 'expected %s' % v
            try: x = float(t)
            except ValueError: return 'expected %.14g' % v
            return None if abs(x - v) <= 1e-12 * max(1.0, abs(v)) and len(t) <= 21 else 'expected %.14g' % v
        return f
    def fitem(e, v):
        chk.state(e); chk.transitions += 1
        return Item('set /a r=' + e, 'set r=none\nset /a "r=%s"\necho [%%r%%]' % esc(e), near(v))
    ARGS = ['0', '1', '2', '-1', '-3', '0.5', '-0.25', '3', '10', '100', 'va', 'vb', '1+1', '2*0.25', 'pi', 'e-2'] + (['0.1', '7', '1.5', '-2.5', '20', '0.001'] if THOROUGH else [])
    VAL = {'va': 5.0, 'vb': -7.0, '1+1': 2.0, '2*0.25': 0.5, 'pi': math.pi, 'e-2': math.e - 2}
    POLE = {('csc', '0'), ('cot', '0'), ('coth', '0'), ('csch', '0'), ('acot', '0'), ('asec', '0'), ('acsc', '0'), ('acoth', '0'), ('asech', '0'), ('acsch', '0'), ('log', '0'), ('log10', '0'), ('tan', 'pi'), ('cot', 'pi'), ('csc', 'pi'), ('sin', 'pi'), ('atanh', '1'), ('atanh', '-1'), ('acoth', '1'), ('acoth', '-1')}
    for n, f in FUN.items():
        for a in ARGS:
            if (n, a) in POLE: continue
            x = VAL.get(a); x = float(a) if x is None else x
            v = safe(f)(x)
            yield fitem('%s(%s)' % (n, a), v)
            yield fitem('1+%s(%s)*2' % (n, a), 1 + v * 2)
            yield fitem('%s (%s)/4-va' % (n, a), v / 4 - 5)
            for k, g in FUN.items():
                if k in ('abs', 'exp', 'step', 'sqrt') and not math.isinf(v) and abs(v) < 50: yield fitem('%s(%s(%s))' % (k, n, a), safe(g)(v))
    for n, v in CON.items():
        yield fitem(n, v); yield fitem('2*%s' % n, 2 * v); yield fitem('7/%s-va' % n, 7 / v - 5); yield fitem('-%s' % n, -v); yield fitem('(%s)+0' % n, v)
        for m, w in CON.items(): yield fitem('%s+%s' % (n, m), v + w)
    # names that only begin or end like a function or a constant are variables
    for n in list(FUN) + list(CON):
        for nm in (n + 'z', 'z' + n, n.upper() + 'q', n + '_'):
            if nm in FUN or nm in CON: continue
            yield Item('variable ' + nm, 'set %s=41\nset /a "r=%s+1"\necho [%%r%%]\nset %s=' % (nm, nm, nm), b'[42]\n')
    # how numbers are written
    for x, w in [('0.1', '0.1'), ('.5', '0.5'), ('5.', '5'), ('1.5E3', '1500'), ('1.0e-3', '0.001'), ('2.E+2', '200'), ('123456789.125', '123456789.125'), ('1.0e20', '1e+20'), ('0.00001', '1e-05'), ('1.0/3', '0.33333333333333'), ('2.0/3', '0.66666666666667'), ('1.0e300*1.0e300', 'inf'), ('-1.0e300*1.0e300', '-inf'), ('99999999999', '99999999999'), ('0x7fffffff', '2147483647'), ('0xABCdef', '11259375'), ('0777', '511'), ('00', '0'), ('1.0-1', '0'), ('100000.0*100000', '10000000000')]:
        chk.state(x); yield Item('set /a r=' + x, 'set r=none\nset /a "r=%s"\necho [%%r%%]' % x, b('[%s]\n' % w))
    # inf and nan are kept by variables
    for setup, e, w in [('1/0', 'r', 'inf'), ('-1/0', 'r', '-inf'), ('0/0', 'r', 'nan'), ('1/0', 'r+1.0', 'inf'), ('0/0', 'r*2.0', 'nan'), ('1/0', '1.0/r', '0'), ('2.5', 'r*2.0', '5'), ('2.5', 'r+0.0', '2.5')]:
        yield Item('%s then %s' % (setup, e), 'set /a "r=%s"\nset /a "r=%s"\necho [%%r%%]' % (setup, e), (lambda w: lambda o: None if norm(o) == b('[%s]\n' % w) else 'expected ' + w)(w))

batch(chk, items(), per=400, prelude='@echo off\nsetlocal DisableDelayedExpansion\nset va=5\nset vb=-7\nset vz=\n',
      outcome=lambda it, o: o)
chk.sample('set /a "r=1&3|4" -> 5'); chk.sample('set /a "r=va-vb*2%%3" against the reference')
chk.assumptions += ['values whose result is not defined (shifts to the left of negative numbers, shifts by negative numbers, overflow of 32 bits, operators on bits '
                    'of non integers) are outside of the enumerated space']
chk.finish()
