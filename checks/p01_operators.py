"""P01: which commands of a line run, in which order, and what %ERRORLEVEL% is afterwards."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P01', bounds='every line of up to 4 commands (each succeeds with an output, or fails with 1 or 3) joined by & && || and |, every line of '
            'up to 2 (thorough 3) terms where a term may be a block of up to 2 commands or lines, the same behind IF (true, false, both with ELSE) and '
            'FOR (0, 1, 2 turns) in first, second and third position, with and without blanks, typed on one line or on several; each '
            'started with an error level of 0 and of 7, the error level is observed after each line')
chk.assumptions.append('the commands are ECHO and CALL of a label ending with EXIT /B n; a pipe ends with TYPE, which copies what it gets')

# A chain is [(op, term), ...]; terms: ('e', letter) ('f', n) ('b', [chain, ...]) ('if', truth, chain) ('ife', truth, [chain], [chain])
# ('for', n, chain) ('t') = TYPE
class Stop(Exception): pass
def run_term(t, st):
    k = t[0]
    if k == 'e': st['out'].append(t[1]); st['el'] = 0
    elif k == 'f': st['el'] = t[1]
    elif k == 't': st['out'] += st['in']; st['in'] = []; st['el'] = 0
    elif k == 'b':
        for c in t[1]: run_chain(c, st)
    elif k == 'if':
        if t[1]: run_chain(t[2], st)
    elif k == 'ife':
        for c in (t[2] if t[1] else t[3]): run_chain(c, st)
    elif k == 'ifc':
        for c in (t[2] if t[1] else [t[3]]): run_chain(c, st)
    elif k == 'for':
        for _ in range(t[1]): run_chain(t[2], st)
def run_chain(chain, st):
    i, skipped = 0, False
    while i < len(chain):
        op, t = chain[i]
        # a pipe goes along with its first command
        j = i
        while j + 1 < len(chain) and chain[j + 1][0] == '|': j += 1
        if (op == '&&' and st['el']) or (op == '||' and not st['el']): pass
        else:
            data = st['in']
            for k in range(i, j):
                sub = {'out': [], 'in': data, 'el': st['el']}
                run_term(chain[k][1], sub); data = sub['out']
            if j > i:
                keep = st['in']; st['in'] = data
                run_term(chain[j][1], st); st['in'] = keep
            else: run_term(chain[i][1], st)
        i = j + 1

def text(chain, sp, nl, v='i'):
    out = ''
    for op, t in chain:
        if op: out += sp + op + sp
        k = t[0]
        if k == 'e': out += 'echo ' + t[1]
        elif k == 'f': out += 'call :r %d' % t[1]
        elif k == 't': out += 'type'
        elif k == 'b': out += '(' + nl.join(text(c, sp, nl, v) for c in t[1]) + (nl if nl == '\n' else '') + ')'
        elif k == 'if': out += 'if %d==1 ' % t[1] + text(t[2], sp, nl, v)
        elif k == 'ife': out += 'if %d==1 (' % t[1] + nl.join(text(c, sp, nl, v) for c in t[2]) + ') else (' + nl.join(text(c, sp, nl, v) for c in t[3]) + ')'
        elif k == 'ifc': out += 'if %d==1 (' % t[1] + nl.join(text(c, sp, nl, v) for c in t[2]) + ') else ' + text(t[3], sp, nl, v)
        elif k == 'for': out += 'for %%' + v + ' in (' + ' '.join('xy'[:t[1]]) + ') do ' + text(t[2], sp, nl, chr(ord(v) + 1))
    return out

def letters(chain, it=None):
    """Gives every ECHO of a chain a letter of its own."""
    it = it or iter('abcdefghijklmnop')
    def term(t):
        k = t[0]
        if k == 'e': return ('e', next(it))
        if k == 'b': return ('b', [letters(c, it) for c in t[1]])
        if k in ('if', 'for'): return (k, t[1], letters(t[2], it))
        if k == 'ife': return (k, t[1], [letters(c, it) for c in t[2]], [letters(c, it) for c in t[3]])
        if k == 'ifc': return (k, t[1], [letters(c, it) for c in t[2]], letters(t[3], it))
        return t
    return [(op, term(t)) for op, t in chain]

E, F1, F3, T = ('e', ''), ('f', 1), ('f', 3), ('t',)
OPS = ['&', '&&', '||']
def seqs(terms, n, first=None):
    """Chains of exactly n terms."""
    if n == 0: yield []; return
    for c in seqs(terms, n - 1):
        for op in (OPS if n > 1 else [None]):
            for t in terms: yield c + [(op, t)]
ATOMS = [E, F1, F3]
def blocks():
    for n in (1, 2):
        for c in seqs(ATOMS, n): yield ('b', [c])
    for a in ATOMS:
        for x in ATOMS: yield ('b', [[(None, a)], [(None, x)]])
def pipes():
    """Pipes as a list of operator/term pairs."""
    left = [E, F1, ('b', [[(None, E), ('&', E)]]), ('b', [[(None, E)], [(None, F1)]]), ('b', [[(None, F1), ('||', E)]])]
    right = [T, E, F3, ('b', [[(None, T)], [(None, E)]]), ('b', [[(None, T), ('&&', F1)]]), ('b', [[(None, E), ('&', T), ('&', F3)]])]
    for a in left:
        for x in right:
            yield [(None, a), ('|', x)]
            yield [(None, a), ('|', T), ('|', x)]
def gen():
    for n in (1, 2, 3, 4): yield from seqs(ATOMS, n)
    bl = list(blocks())
    yield from seqs(bl + ATOMS, 2)
    for b_ in bl:
        for c in seqs(ATOMS, 2):
            for op in OPS: yield [(None, b_)] + [(op, c[0][1])] + c[1:]; yield c[:1] + [(op, b_)] + c[1:]; yield c + [(op, b_)]
    if THOROUGH:
        yield from seqs(bl + ATOMS, 3)
        yield from seqs(ATOMS, 5)
        for b_ in bl:   # a block in a block
            for x in bl:
                for op in OPS + ['nl']:
                    inner = ('b', [[(None, b_), (op, x)]] if op != 'nl' else [[(None, b_)], [(None, x)]])
                    for op2 in OPS:
                        for a in ATOMS: yield [(None, inner), (op2, a)]; yield [(None, a), (op2, inner)]
    # pipes among other operators
    for p in pipes():
        yield p
        for op in OPS:
            for a in ATOMS:
                yield [(None, a), (op, p[0][1])] + p[1:]
                yield p + [(op, a)]
                if THOROUGH:
                    for op2 in OPS:
                        for a2 in ATOMS: yield [(None, a), (op, p[0][1])] + p[1:] + [(op2, a2)]
    # IF and FOR swallow the rest of the line
    bodies = [c for n in (1, 2, 3 if THOROUGH else 2) for c in seqs(ATOMS + ([('b', [[(None, F1), ('||', E)]])]), n)]
    bodies += [p for p in pipes()]
    for c in bodies:
        for t in (('if', 0, c), ('if', 1, c), ('for', 0, c), ('for', 1, c), ('for', 2, c)):
            yield [(None, t)]
            for op in OPS + ['|']:
                for a in ATOMS:
                    yield [(None, a), (op, t)]
            yield [(None, ('b', [[(None, t)]])), ('&&', E), ('||', E)]
            yield [(None, ('b', [[(None, t)]])), ('|', T)]
        if len(c) <= 2:
            for t in (('if', 0, c), ('if', 1, c), ('for', 2, c)):
                for o in (('if', 1), ('if', 0), ('for', 2)):
                    yield [(None, o + ([(None, t)],))]
                    for op in OPS + ['|']:
                        for a in (E, F1): yield [(None, o + ([(None, a), (op, t)],))]
    # a block which holds an IF or a FOR, followed by more commands
    for c in (c for n in (1, 2) for c in seqs(ATOMS, n)):
        for t in (('if', 0, c), ('if', 1, c), ('for', 0, c), ('for', 2, c)):
            for o in (('if', 1), ('if', 0), ('for', 2)):
                for op in OPS:
                    for a in (E, F1):
                        yield [(None, o + ([(None, ('b', [[(None, t)]])), (op, a)],))]
                        yield [(None, o + ([(None, a), (op, ('b', [[(None, t)]])), (op, E)],))]
                yield [(None, o + ([(None, ('b', [[(None, t)]])), ('|', T)],))]
    for c in (c for n in (1, 2) for c in seqs(ATOMS, n)):
        for d in (c for n in (1, 2) for c in seqs(ATOMS, n)):
            for v in (0, 1):
                t = ('ife', v, [c], [d])
                yield [(None, t)]
                yield [(None, F3), ('||', t)]
                yield [(None, E), ('&&', t)]
                t = ('ifc', v, [c], d)
                if True:
                    yield [(None, t)]
                    for v2 in (0, 1): yield [(None, ('ifc', v, [c], [(None, ('if', v2, d))]))]
                    yield [(None, ('for', 2, [(None, t)]))]

def items():
    for c in gen():
        c = letters(c)
        for el, sp, nl in ((0, '', '&'), (7, '', '\n'), (7, ' ', '\n')):
            if sp and not THOROUGH and len(c) > 2: continue
            t = text(c, sp, nl)
            st = {'out': [], 'in': [], 'el': el}
            run_chain(c, st)
            exp = [el, st['out'], st['el']]
            chk.state((t, el)); chk.transitions += len(c)
            yield Item('error level %d, line %r' % (el, t), 'call :r %d\n%s\necho [!errorlevel!]\n' % (el, t), check(st['out'], st['el'], not sp))

# blanks of any kind between the words of IF and FOR, and lines which expand to a label or to nothing
def odd():
    for ws in (' ', '\t', '  ', ' \t', '\t\t'):
        for w in ('IF 1==1 echo a', 'IF 0==1 echo a', 'if 0==1 (echo a) ELSE (echo b)', 'FOR %%i IN (x y) DO echo %%i', 'FOR /L %%i IN (1,1,2) DO echo %%i', 'IF not 1==1 echo a', 'if 1==1 IF 0==1 echo a', 'for %%i in (x) do IF %%i==x echo a'):
            for tail in ('', '&echo c', '||echo d', '&&echo e'):
                for pre in ('', 'echo p&'):
                    line = pre + w.replace(' ', ws) + tail
                    line = line.replace('echo' + ws, 'echo ')
                    f = 'IF 0' in w and 'ELSE' not in w and not w.startswith('if 1') or 'not' in w
                    no = 'IF 0==1 echo a' in w or 'not' in w
                    body = [] if no else ['b'] if 'ELSE' in w else ['x', 'y'] if '(x y)' in w else ['1', '2'] if '/L' in w else ['a']
                    per = 2 if '(x y)' in w or '/L' in w else 1
                    end = [] if no or tail in ('', '||echo d') else [tail[-1]]
                    if 'ELSE' in w or 'FOR' in w or True:
                        o = ['p'] if pre else []
                        if per == 2: o += [z for x in body for z in [x] + end]
                        else: o += body + end
                    chk.state(('odd', line)); chk.transitions += 1
                    yield Item('line %r' % line, line, ''.join(x + '\n' for x in o))
    for v in (':x', ' :x', ':', '::', ': x y', '\t:x'):
        for line in ('!c!', ' !c!', '%%i', '\t!c!'):
            chk.state(('colon', v, line)); chk.transitions += 1
            if line == '%%i': yield Item('line which expands to %r' % v, 'for %%%%i in ("%s") do %%%%~i\necho k\n' % v, 'k\n')
            else: yield Item('line %s which expands to %r' % (line, v), 'set c=%s\n%s\necho k\n' % (v, line), 'k\n')
            yield Item('line %%c%% which expands to %r' % v, 'set c=%s\n%%c%%\necho k\n' % v, 'k\n')
            yield Item('line  %%c%% which expands to %r' % v, 'set c=%s\n  %%c%% y\necho k\n' % v, 'k\n')
    for line in ('!u!', '%u%', ' ', '\t', '', '!u! !u!', '%u%%u%', ' %u% ', '!u!&echo a', 'echo a&!u!', 'echo a& &echo b', '( )', '(!u!)'):
        o = ('a\n' if 'echo a' in line else '') + ('b\n' if 'echo b' in line else '')
        yield Item('line %r of an undefined variable' % line, 'set u=\n' + line + '\necho k\n', o + 'k\n')

def check(out, el, exact):
    want = ''.join(x + '\n' for x in out) + '[%d]\n' % el
    def f(got):
        g = got.decode('latin1')
        if not exact: g = '\n'.join(l.rstrip(' ') for l in g.split('\n'))
        return None if g == want else 'expected %r' % want
    return f

import mc
_case = mc.script
def with_tail(text_, *a, **k): return _case(text_ + b'goto :eof\n:r\nexit /b %1\n', *a, **k)
mc.script = with_tail
chk.sample({'line': 'call :r 1||echo a&(echo b', 'meaning': 'left to right'})
batch(chk, items(), per=250, stdin=b'')
batch(chk, odd(), per=100)
for c in itertools.islice(gen(), 40, 44): chk.sample({'line': text(letters(c), '', '&')})
chk.finish()
