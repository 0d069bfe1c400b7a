"""P07: SETLOCAL and ENDLOCAL: what they save and bring back, across calls, blocks, procedures and pipes."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P07', bounds='every history of up to 5 (thorough 6) operations out of 11 (assignments, SETLOCAL with each option, ENDLOCAL, a failing command, CALL and return with what is balanced in the call), '
            'with the variables, both expansions, the options and ERRORLEVEL observed after each; the same in one block, in a procedure, in a called file, in a loop and in a pipe; after every history of up to 3 (thorough 4) the options as seen in 16 places (sides of pipelines, loops, labels, procedures)')
# state: (a, b, delayed, cmdly, err), stack of saved (a, b, delayed, cmdly); calls: stack of depths
SETS = {'1': ('a', '1'), '2': ('a', '22'), 'b': ('b', '3'), 'u': ('a', None)}
LOC = {'L': ('', None, None), 'D': (' disabledelayedexpansion', False, None), 'N': (' ENABLEDELAYEDEXPANSION', True, None), 'C': (' cmdlycorrect', None, True), 'I': (' CMDLYINCORRECT enabledelayedexpansion', True, False)}
START = (('', ''), True, False, 0, (), ())
def step(s, op):
    (a, b_), dl, cm, err, stack, calls = s
    if op in SETS:
        n, v = SETS[op]; v = v or ''
        return ((v, b_) if n == 'a' else (a, v)), dl, cm, 0, stack, calls
    if op in LOC:
        _, d, c = LOC[op]
        return (a, b_), dl if d is None else d, cm if c is None else c, err, stack + (((a, b_), dl, cm),), calls
    if op == 'E':
        if len(stack) <= (calls[-1] if calls else 0): return s
        (v, d, c) = stack[-1]
        return v, d, c, err, stack[:-1], calls
    if op == 'x': return (a, b_), dl, cm, -1, stack, calls
    if op == '(': return (a, b_), dl, cm, err, stack, calls + (len(stack),)
    if op == ')':
        return (a, b_), dl, cm, err, stack, calls[:-1]
def ok(h):
    """Calls are nested and what they SETLOCAL is undone before they return."""
    s = START
    for op in h:
        if op == ')' and (not s[5] or len(s[4]) != s[5][-1]): return False
        s = step(s, op)
    return not s[5]
def text(op):
    if op in SETS: return 'set %s=%s' % (SETS[op][0], SETS[op][1] or '')
    if op in LOC: return 'setlocal' + LOC[op][0]
    return {'E': 'endlocal', 'x': 'nosuch'}[op]
def obs(mode, s):
    (a, b_), dl, cm, err = s[:4]
    if mode == 'line': return 'echo [%a%][%b%][!a!][!b!][%errorlevel%]\n', '[%s][%s][%s][%s][%d]\n' % (a, b_, a if dl else '!a!', b_ if dl else '!b!', err)
    if mode == 'ext': return 'call /e s.bat :obs\n', '' if cm else 'ext [%s]\n' % a
    return 'echo [!a!][!b!]\n', '[%s][%s]\n' % (a if dl else '!a!', b_ if dl else '!b!')
K = [0]
def build(h, mode):
    """Text and expected output.  Calls become labels behind the main part."""
    main, out, s, subs = [[]], [], START, []
    for op in h:
        s = step(s, op)
        if op == '(': K[0] += 1; main[-1].append('call :s%d\n' % K[0]); main.append([':s%d\n' % K[0]])
        elif op == ')': main[-1].append('goto :eof\n'); subs += main.pop(); main[-1] += []
        else: main[-1].append(text(op) + '\n')
        if op == 'x': continue          # seen after the next operation: the observation itself sets ERRORLEVEL
        t, e = obs(mode, s); main[-1].append(t); out.append(e)
        s = s[:3] + (0,) + s[4:]
        chk.state((s, mode)); chk.transitions += 1
    body = ''.join(main[0])
    # leave nothing behind
    tail = 'endlocal\n' * len(s[4])
    return body, ''.join(subs), tail, ''.join(out), s
S = 'echo no\n:obs\necho ext [%a%]\n'
RESET = 'set a=\nset b=\n'
def hist(n, ops):
    for h in itertools.product(ops, repeat=n):
        if ok(h): yield h
def items(ops, n, mode):
    for k in range(1, n + 1):
        for h in hist(k, ops):
            body, subs, tail, out, s = build(h, mode)
            x = K[0] = K[0] + 1
            yield Item(' '.join(h), RESET + body + tail + 'goto x%d\n' % x + subs + ':x%d\n' % x, out)
ALL = '12buLDNCIEx'
batch(chk, items('12uLDEx()', 6 if THOROUGH else 5, 'line'), per=150, files=[('s.bat', S)], timeout=20000)
batch(chk, items('1bLDNCIE', 5 if THOROUGH else 4, 'line'), per=150, files=[('s.bat', S)], timeout=20000)
batch(chk, items('1LCIE()', 6 if THOROUGH else 5, 'ext'), per=150, files=[('s.bat', S)], timeout=20000)
# three and four levels deep
def deep():
    for n in range(1, 9 if THOROUGH else 7):
        for kinds in itertools.product('LDN', repeat=min(n, 4)):
            for opened in range(n + 2):
                h = []
                for i in range(n): h += [kinds[i % len(kinds)], '12b'[i % 3]]
                h += ['E'] * opened
                body, subs, tail, out, s = build(h, 'line')
                yield Item(' '.join(h), RESET + body + tail, out)
batch(chk, deep(), per=60, files=[('s.bat', S)])
# the same histories in other places
def balanced(h):
    d = 0
    for op in h:
        if op in LOC: d += 1
        if op == 'E': d = max(0, d - 1)
    return d == 0
def places():
    n = 5 if THOROUGH else 4
    for k in range(1, n + 1):
        for h in itertools.product('12bLDE', repeat=k):
            if not balanced(h) or not any(o in LOC or o == 'E' for o in h): continue
            s = START; t, out = '', ''
            for op in h:
                s = step(s, op); tt, e = obs('block', s); t += text(op) + '\n' + tt; out += e
                chk.state((s, 'block')); chk.transitions += 1
            fin = '[%s][%s]\n' % s[0]; see = 'echo [!a!][!b!]\n'; x = K[0] = K[0] + 1
            yield Item('block: ' + ' '.join(h), RESET + '(\n' + t + ')\n' + see, out + fin)
            yield Item('one line: ' + ' '.join(h), RESET + t.replace('\n', ' & ').rstrip(' &') .replace('=1 ', '=1').replace('=22 ', '=22').replace('=3 ', '=3') + '\n' + see.replace('\n', '\n'), ''.join(l + (' ' if i < len(h) - 1 else '') + '\n' for i, l in enumerate(out.split('\n')[:-1])) + fin)
            yield Item('if: ' + ' '.join(h), RESET + 'if 1==1 (\n' + t + ') else echo no\n' + see, out + fin)
            yield Item('called block: ' + ' '.join(h), RESET + 'call :s%d\n' % x + see + 'goto x%d\n:s%d\n(\n' % (x, x) + t + ')\ngoto :eof\n:x%d\n' % x, out + fin)
            yield Item('procedure: ' + ' '.join(h), RESET + 'def /f proc=(\n' + t + ')\nproc\n' + see, out + fin)
            yield Item('left of a pipe: ' + ' '.join(h), RESET + 'set a=0\n(\n' + t.replace('!a!', '!a!').replace(text('1') + '\n', text('1') + '\n') + ') | more\n' + see, None if False else pipeexp(h) + '[0][]\n')
            # twice in a loop: the second turn starts from what the first one left
            s2 = (s[0],) + START[1:]; out2 = ''
            for op in h: s2 = step(s2, op); out2 += obs('block', s2)[1]
            yield Item('loop: ' + ' '.join(h), RESET + 'for %%i in (x y) do (\n' + t + ')\n' + see, out + out2 + '[%s][%s]\n' % s2[0])
def pipeexp(h):
    s = (('0', ''),) + START[1:]; out = ''
    for op in h: s = step(s, op); out += obs('block', s)[1]
    return out
batch(chk, places(), per=80, files=[('s.bat', S)], timeout=20000)
# a called file has the same limits as a called label, and options and variables of the caller; at the end of the interpreter nothing is left
def files():
    cs = []
    for k in (1, 2, 3):
        for outer in itertools.product('1LD', repeat=k):
            for inner in itertools.product('2LDE', repeat=3):
                d = 0; good = True
                for o in inner:
                    if o in LOC: d += 1
                    if o == 'E': d = max(0, d - 1)
                if d: continue
                s = START; t, out, sub = '@echo off\n', '', ''
                for o in outer: s = step(s, o); t += text(o) + '\n'
                t += 'call f.bat\n'; s = step(s, '(')
                for o in inner:
                    s = step(s, o); sub += text(o) + '\n'; tt, e = obs('line', s); sub += tt; out += e
                s = step(s, ')'); tt, e = obs('line', s); t += tt; out += e
                for o in outer:
                    s = step(s, 'E'); t += 'endlocal\n'; tt, e = obs('line', s); t += tt; out += e
                chk.state((outer, inner)); chk.transitions += len(outer) + len(inner)
                cs.append((script(t, files=[('f.bat', '@echo off\n' + sub)], key='%s call f.bat: %s' % (' '.join(outer), ' '.join(inner))), out))
    for (c, e), r in zip(cs, run([c for c, _ in cs])):
        chk.traces += 1
        if r.out.decode() != e: chk.violation(c.key, c, e, r.out)
        else: chk.outcomes.add(e)
files()
# ENDLOCAL & SET x=%x% keeps a value
def keep():
    for n in range(1, 5):
        t = RESET + 'set a=0\n' + 'setlocal\n' * n + 'set a=5\n'
        for j in range(n): t += 'endlocal & set a=%a%\n' if j < n - 1 else 'endlocal & set a=%a%&set b=%a%\n'
        yield Item('keep %d' % n, t + 'echo [%a%][%b%]\n', '[5%s][5%s]\n' % (('', '')))
batch(chk, keep())
# every observer sees a variable that was removed or set within SETLOCAL the same way
def observers():
    OBSV = [('echo [!vv!]', lambda v: '[%s]' % v), ('echo [!vv!]|more', lambda v: '[%s]' % v), ('(echo [!vv!]|more)|more', lambda v: '[%s]' % v), ('echo x|(echo [!vv!])', lambda v: '[%s]' % v), ("for /f %%i in ('echo [!vv!]') do echo %%i", lambda v: '[%s]' % v),
            ('if defined vv (echo d) else (echo u)', lambda v: 'd' if v else 'u'), ('(if defined vv (echo d) else (echo u))|more', lambda v: 'd' if v else 'u'), ('/usr/bin/env|/bin/grep -c "^vv="', lambda v: '1' if v else '0'), ('call :o%d', lambda v: '[%s]' % v), ('def /f pv=echo [!vv!]\npv', lambda v: '[%s]' % v),
            ('for %%i in (1) do echo [!vv!]', lambda v: '[%s]' % v), ('set vv 2>nul|/bin/grep -c "^vv="', lambda v: '1' if v else '0'), ('(set vv=q&echo [!vv!])|more', lambda v: '[q]'), ('(set vv=&echo [!vv!])|more', lambda v: '[]'), ('echo x|(set vv=&echo [!vv!])', None)]
    k = 0
    for n in (1, 2, 3, 4):
        for h in itertools.product((None, '', 'a', 'b'), repeat=n):
            if n == 4 and not THOROUGH: continue
            k += 1
            t, e, st = 'set vv=\n', '', []
            v = ''
            for lvl, x in enumerate(h):
                if lvl: t += 'setlocal\n'; st.append(v)
                if x is not None: t += 'set vv=%s\n' % x; v = x
            def look(v):
                tt, ee = '', ''
                for o, f in OBSV:
                    if f is None: continue
                    tt += (o % k if '%d' in o else o) + '\n'; ee += f(v) + '\n'
                return tt, ee
            a, b_ = look(v); t += a; e += b_
            while st: v = st.pop(); t += 'endlocal\n'; a, b_ = look(v); t += a; e += b_
            chk.state(('obs', h)); chk.transitions += n * len(OBSV)
            yield Item('observers of %r' % (h,), t + 'goto z%d\n:o%d\necho [!vv!]\ngoto :eof\n:z%d\n' % (k, k, k), e)
batch(chk, observers(), per=6, timeout=30000)

# the options hold in the sides of pipelines, in the commands of FOR /F, in procedures and in called labels too, and what a side changes stays in it
def sides():
    def ob(s, x):
        (a, b_), dl, cm = s[:3]; v = '[%s][%s]' % ((a, b_) if dl else ('!a!', '!b!')); c = 'no' if cm else 'ext [%s]' % a
        yield 'echo [!a!][!b!]|more', v
        yield '(echo [!a!][!b!])|more', v
        yield 'echo x|(echo [!a!][!b!])', v
        yield 'echo x|more|(echo [!a!][!b!])', v
        yield '(echo [!a!][!b!]|more)|more', v
        yield '(setlocal enabledelayedexpansion\necho [!a!][!b!]\nendlocal)|more', '[%s][%s]' % (a, b_)
        yield '(setlocal disabledelayedexpansion\necho [!a!][!b!]\nendlocal)|more', '[!a!][!b!]'
        yield 'echo x|(setlocal disabledelayedexpansion\necho [!a!][!b!]\nendlocal\necho [!a!][!b!])', '[!a!][!b!]\n' + v
        yield '(if 1==1 (echo [!a!][!b!]) else echo no)|more', v
        yield 'for %%i in (1) do (echo [!a!][!b!])|more', v
        yield 'for %%i in (1) do (echo [!a!][!b!]|more)', v
        yield 'call :o%d' % x, v
        yield 'call :o%d|more' % x, v
        yield 'def /f pv=echo [!a!][!b!]\npv', v
        yield 'pv|more', v
        yield '(call /e s.bat :obs 2>nul)|more', None if cm else c
        yield 'echo x|(call /e s.bat :obs 2>nul)', None if cm else c
    k = 0
    for n in range(1, 5 if THOROUGH else 4):
        for h in itertools.product('1bLDNIE', repeat=n):
            if h[-1] in '1b' and n > 1 and h[-2] in '1b': continue
            k += 1; s = START; t = RESET
            for op in h: s = step(s, op); t += text(op) + '\n'
            t2, e = '', ''
            for o, w in ob(s, k): t2 += o + '\n'; e += w + '\n' if w is not None else ''
            chk.state(('sides', s[:5])); chk.transitions += n + 16
            yield Item('options in sides after ' + ' '.join(h), t + t2 + 'endlocal\n' * len(s[4]) + 'goto z%d\n:o%d\necho [!a!][!b!]\ngoto :eof\n:z%d\n' % (k, k, k), e)
batch(chk, sides(), per=8, files=[('s.bat', S)], timeout=30000)

chk.sample({'history': '1 L 2 ( D E ) E', 'values of a': ['1', '1', '22', '22', '22', '22', '22', '1']})
chk.finish()
