"""P13: pipes and FOR /F commands under every schedule of the threads and processes involved (lib/sched.c)."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P13', bounds='every schedule with up to 2 (simple pipelines 3, thorough one more) preemptions, at the level of system calls on shared objects, of every pipeline of two or three sides out of the lists below, '
            'on its own, in blocks, loops, calls, IF, after another pipe, in FOR /F; and every schedule without bound of the smallest ones; every pipeline of two or three sides out of 8 + 2 first ones, 10 filters and 7 last ones in 12 surroundings (arguments, levels, folders, loops, procedures, SETLOCAL), under one schedule')
PRE = '@echo off\n'
LEAK = '/bin/ls /proc/self/fd\n'
LEAKED = '0\n1\n2\n3\n'
# left sides: (text, lines written, effect which must not be seen)
LEFT = [('echo a', ['a ']), ('(echo a&echo b)', ['a', 'b']), ('set x=lost', []), ('/bin/echo a', ['a']), ('(set x=lost&echo !x!)', ['lost']), ('type ..\\f'.replace('\\', '/'), ['f1', 'f2']),
        ('(cd /&cd)', ['/']), ('(echo a&/bin/echo b&echo c)', ['a', 'b', 'c']), ('(pushd /&setlocal&set x=lost)', []), ('call :sub', ['sub']), ('(if 1==1 echo y)', ['y']), ('(for %%i in (1 2) do echo %%i)', ['1', '2']),
        ('nosuch 2>nul', []), ('(echo e 1>&2)', [])]
# right sides: (text, function of the lines read -> (output, variables set, status))
def rd(l, i): return l[i] if i < len(l) else ''
RIGHT = [('(set /p v=)', lambda l: ('', {'v': rd(l, 0)}, None)),
         ('(set /p v=&set /p w=)', lambda l: ('', {'v': rd(l, 0), 'w': rd(l, 1)}, None)),
         ('type', lambda l: (''.join(x + '\n' for x in l), {}, 0)),
         ('/bin/cat', lambda l: (''.join(x + '\n' for x in l), {}, 0)),
         ('find "a"', lambda l: (''.join(x + '\n' for x in l if 'a' in x), {}, None)),
         ('(set v=1&set w=2)', lambda l: ('', {'v': '1', 'w': '2'}, 0)),
         ('(set /p v=&/bin/cat)', None),
         ('(cd /&set v=!cd!)', lambda l: ('', {'v': '/', 'cd': '/'}, 0)),
         ('call :right', lambda l: ('r ' + rd(l, 0) + '\n', {'v': rd(l, 0)}, None)),
         ('nosuch', lambda l: ('', {}, -1)),
         ('rem', lambda l: ('', {}, 0))]
RIGHT = [r for r in RIGHT if r[1]]
TAIL = 'echo [!v!][!w!][!x!]!errorlevel!\n' + LEAK + 'exit\n:sub\necho sub\nset x=lost\ngoto :eof\n:right\nset /p v=\necho r !v!\ngoto :eof\n'
def tail(env, status): return ('[%s][%s][%s]' % (env.get('v', ''), env.get('w', ''), env.get('x', '')), status, LEAKED)
def case(name, text, bound, maxruns=400000, variant='plain'):
    c = script(text, files=[('f', 'f1\nf2\n'), ('in', 'in1\nin2\n'), ('w', None)], key=name, timeout=600000, variant=variant, cap=1 << 26)
    c.argv = [cbuild('lib/sched.c'), str(bound), str(maxruns), program('pbat', variant), '../t.bat']
    return c
def parse(out):
    """Statistics and outcomes: (count, schedule, status, output, errors, files)"""
    head, rest = out.split(b'\n', 1); st = [int(x) for x in head.split()]; res = []
    for _ in range(st[6]):
        l, rest = rest.split(b'\n', 1); n, k, m = map(int, l.split())
        sched, blob, rest = rest[:k], rest[k:k + m], rest[k + m:]; f = []
        while blob:
            z, blob = blob.split(b'\n', 1); f.append(blob[:int(z)]); blob = blob[int(z):]
        res.append((n, sched.decode(), f[0].decode(), f[1], f[2], dict(zip(f[3::2], f[4::2]))))
    return st, res
tot = {'schedules': 0, 'choices': 0, 'most threads': 0, 'longest': 0, 'diverged': 0}
def explore(jobs):
    """jobs: (name, text, bound, judge(status, out, err, files) -> complaint or None)"""
    jobs = list(jobs)
    for js in chunks(jobs, 64):
        for (name, text, bound, judge), r in zip(js, run([case(n, t, b_) for n, t, b_, j in js])):
            if r.status != 0 or not r.out: print('check error: the scheduler failed on %s: %r' % (name, r)); sys.exit(3)
            st, res = parse(r.out)
            tot['schedules'] += st[0]; tot['choices'] += st[1]; tot['most threads'] = max(tot['most threads'], st[2]); tot['longest'] = max(tot['longest'], st[3]); tot['diverged'] += st[5]
            if st[4]: chk.caps.append(name)
            chk.traces += st[0]; chk.transitions += st[1]; chk.state((name, bound))
            def wrong(res):
                for n, sched, status, out, err, files in res:
                    bad = judge(status, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), files)
                    if bad: return bad, n, sched, status, out, err
                    chk.outcomes.add(hash((out, status)))
            w = wrong(res)
            if w and wrong(parse(run([case(name, text, bound)])[0].out)[1]):       # schedules are repeatable: what is wrong is wrong again
                bad, n, sched, status, out, err = w
                chk.violation(name, case(name, text, bound), bad, '%s: %s %s' % (status, show(out), show(err)[:300]), 'in %d of %d schedules, for instance %s' % (n, st[0], sched[:1500]))
            elif w: chk.extra['not repeatable'] = chk.extra.get('not repeatable', 0) + 1
        if chk.enough(): return
def want(out, env, status):
    a, s, b_ = tail(env, status)
    def judge(st, o, err, files):
        if st != '0': return 'ends with 0'
        if s is None:
            import re
            return None if re.fullmatch(re.escape(out + a) + r'-?\d+\n' + re.escape(b_), o) else out + a + '?\n' + b_
        return None if o == out + a + '%d\n' % s + b_ else out + a + '%d\n' % s + b_
    return judge
def pipe(l, r):
    """Output, variables and status of l | r."""
    o, env, st = r[1](l[1]); return o, env, st
def two(bound):
    for l, r in itertools.product(LEFT, RIGHT):
        o, env, st = pipe(l, r)
        n = (l[0] + r[0]).count('/bin/'); b_ = bound - n if n < 2 else bound - 2
        if b_ < 0: continue
        yield '%s | %s (%d)' % (l[0], r[0], b_), PRE + l[0] + ' | ' + r[0] + '\n' + TAIL, b_, want(o, env, st)
T = THOROUGH
L1 = [l for l in LEFT if '/bin/' not in l[0]]
R1 = [r for r in RIGHT if '/bin/' not in r[0]]
def lines(l): return ''.join(x + '\n' for x in l)
# three sides
def three():
    MID = [('type', lambda l: l), ('find "a"', lambda l: [x for x in l if 'a' in x]), ('(set /p q=&echo {!q!})', lambda l: ['{%s}' % rd(l, 0)]), ('set v=lost', lambda l: []), ('/bin/cat', lambda l: l)]
    for l, m, r in itertools.product([LEFT[i] for i in (0, 1, 2, 3, 4, 9)], MID, [RIGHT[i] for i in (0, 1, 2, 3, 5)]):
        k = (l[0] + m[0] + r[0]).count('/bin/'); b_ = (2 if T else 1) - k
        if b_ < 0 or m[0].startswith('set') and l[1] or r[0] == '(set v=1&set w=2)' and m[1](l[1]): continue      # nobody would read
        o, env, st = pipe((None, m[1](l[1])), r)
        yield '%s | %s | %s (%d)' % (l[0], m[0], r[0], b_), PRE + l[0] + ' | ' + m[0] + ' | ' + r[0] + '\n' + TAIL, b_, want(o, env, st)
# pipelines inside of other things
def nested():
    for l, r in itertools.product([LEFT[i] for i in (0, 1, 2, 9)], [RIGHT[i] for i in (0, 2, 4, 5)]):
        o, env, st = pipe(l, r); P = l[0] + ' | ' + r[0]; b_ = 2 if T else 1
        if '=' in r[0] and l[1] and r[0].startswith('(set v'): continue
        yield P + ' in a block', PRE + '(%s & echo then)\n' % P + TAIL, b_, want(o + 'then\n', env, 0) if st == 0 or st is None else None
        yield P + ' twice', PRE + 'for %%%%k in (1 2) do %s\n' % P + TAIL, b_, want(o + o, env, None)
        yield P + ' in a call', PRE + 'call :s2\n' + TAIL + ':s2\n' + P + '\ngoto :eof\n', b_, want(o, env, None)
        yield P + ' after IF', PRE + 'if 1==1 ' + P + '\n' + TAIL, b_, want(o, env, None)
        yield P + ' twice on a line', PRE + P + ' & ' + P + '\n' + TAIL, b_, want(o + o, env, st)
        yield '(%s) > o' % P, PRE + '(%s) > o\ntype o\n' % P + TAIL, b_, want(o, env, 0)
        yield '(%s) | type' % P, PRE + '(%s) | type\n' % P + TAIL, b_ - 1 if not T else 1, want(o, {}, 0)
        yield '%s to o' % P, PRE + P + ' > o\ntype o\n' + TAIL, b_, want(o, env, 0)
        yield 'setlocal, %s' % P, PRE + 'set x=0\nsetlocal\n' + P + '\nendlocal\n' + TAIL, b_, want(o, {'x': '0'}, None)
        yield 'def, %s' % P, PRE + 'def /f p=(\n%s\n)\np\n' % P + TAIL, b_, want(o, env, None)
    for l in LEFT:
        for r in (RIGHT[0], RIGHT[2]):
            if '&1' in l[0] or '2>' in l[0] or '>&2' in l[0]: continue
            o, env, st = pipe(l, r); k = l[0].count('/bin/')
            yield l[0] + ' > o | ' + r[0], PRE + l[0] + '>o|' + r[0] + '\ntype o\n' + TAIL, (2 if T else 1) - k, want((pipe((None, []), r)[0]) + lines(x.rstrip(' ') for x in l[1]), pipe((None, []), r)[1], 0)
    # a pipeline has ended when all of its sides have
    for r in (RIGHT[0], RIGHT[5], RIGHT[2], RIGHT[-1]):
        for l in (('(echo a&echo z>o)', ['a']), ('(echo a&for %%i in (1 2) do echo z>o)', ['a']), ('(echo a|(type&echo z>o))', ['a']), ('echo a|(type&echo z>o)', ['a'])):
            if '=' in r[0] and 'v=1' in r[0] or r[0] == 'rem': l = (l[0].replace('echo a&', '').replace('echo a|(type&', 'echo a|(set /p q=&'), [])
            o, env, st = pipe(l, r)
            yield l[0] + ' | ' + r[0] + ', then type o', PRE + l[0] + ' | ' + r[0] + '\ntype o\n' + TAIL, 2 if T else 1, want(o + 'z\n', env, 0)
    # input left over for the next reader
    yield 'input', PRE + 'set /p v=\n(set /p w=&echo !w!) | set /p x=\n' + TAIL, 2, want('', {'v': 'in1', 'x': 'in2'}, None)
# FOR /F reads what its command writes, which runs in a copy of the interpreter
def forf():
    for l in LEFT:
        k = l[0].count('/bin/'); text = l[0]
        if text.startswith('('): text = text[1:-1]
        text = text.replace('1>&2', '1^>&2').replace('&', '^&') if 0 else text
        if '(' in text or '>' in text or '!' in text: continue
        l = (l[0], [x.rstrip() for x in l[1]])
        for body, f in (('echo [%%i]', lambda x: '[%s]\n' % x), ('(set v=%%i&rem)', None), ('(echo %%i | type)', None)):
            e = ''.join('[%s]\n' % x for x in l[1]) if f else ''.join('%s \n' % x for x in l[1]) if 'type' in body else ''
            env = {'v': l[1][-1]} if 'set' in body and l[1] else {}
            b_ = (3 if T else 2) - k - (body.count('|')) * (len(l[1]) > 1)
            yield 'for /f %s: %s (%d)' % (l[0], body, b_), PRE + 'for /f "delims=" %%%%i in (\'%s\') do %s\n' % (text, body.replace('%', '%%').replace('%%%%', '%%')) + TAIL, b_, want(e, env, None)
# more than a pipe holds; readers that go away
def large():
    big = 'for /l %%i in (1,1,3) do type ../f'
    for n in (70, 700):
        t = 'set a=' + 'x' * 996 + '\n'
        w = '(for /l %%%%i in (1,1,%d) do echo !a!)' % n
        yield 'about %d000 bytes | type' % n, PRE + t + w + ' | type > o\nwc /l o | set /p v=\nset a=\n' + TAIL, 1 if n == 70 and T else 0, big_ok
        yield 'about %d000 bytes, first line read' % n, PRE + t + w + ' | set /p v=\nset a=\nset v=!v:~0,3!\n' + TAIL, 1 if n == 70 else 0, want('', {'v': 'xxx'}, None)
        yield 'about %d000 bytes, nothing read' % n, PRE + t + w + ' | set v=1\nset a=\n' + TAIL, 1 if n == 70 else 0, want('', {'v': '1'}, 0)
        yield 'about %d000 bytes, cat | first line read' % n, PRE + t + w + ' | /bin/cat | set /p v=\nset a=\nset v=!v:~0,3!\n' + TAIL, 0, want('', {'v': 'xxx'}, None)
def big_ok(status, out, err, files):
    o = files.get(b'o', b'')
    if status != '0' or not out.endswith(LEAKED): return 'ends with 0, only 0 1 2 open'
    return None if o in (b''.join(b'x' * 996 + b'\n' for _ in range(n)) for n in (70, 700)) else 'all that was written (got %d bytes)' % len(o)
def small(bounds):
    bounds = list(bounds)
    for text, out, env, st in (('echo a|set /p v=', '', {'v': 'a'}, None), ('set x=1|set v=2', '', {'v': '2'}, 0), ('rem|cd|set v=3', '', {'v': '3'}, 0)):
        bound = bounds.pop(0)
        yield text + ', bound %d' % bound, PRE + text + '\necho [!v!][!w!][!x!]!errorlevel!\nexit\n', bound, (lambda st, env: lambda s, o, err, f: None if s == '0' and o.startswith('[%s][][]' % env['v']) else 'v=' + env['v'])(st, env)
import time
for name, gen in (('two', two(2 if T else 1)), ('three', three()), ('nested', nested()), ('forf', forf()), ('large', large()), ('small', small((40, 40, 4) if T else (4, 4, 2)))):
    if os.environ.get('ONLY', name) != name: continue
    t0 = time.time(); n0 = tot['schedules']
    explore([j for j in gen if j[3] and j[2] >= 0])
    chk.extra['schedules, ' + name] = tot['schedules'] - n0
    if 'VERBOSE' in os.environ: print(name, tot['schedules'] - n0, tot, '%.1f s' % (time.time() - t0), flush=True)
# --- what a side gets from where the pipeline stands, and what it may do: every pipeline of two or three sides, as it happens to be scheduled
def sides():
    import re
    LIDS = [('find /v ""', lambda l: l), ('(set /p q=&echo [!q!])', lambda l: ['[%s]' % rd(l, 0)]), ('(find /v ""&exit 3)', lambda l: l), ('(find /v ""&goto :eof)', lambda l: l), ('for %%i in (1) do find "a"', lambda l: [x for x in l if 'a' in x]),
            ('if 1==1 (find /v "") else echo no', lambda l: l), ('(find /v ""&exit /b 4)', lambda l: l), ('call :id', lambda l: ['id'] + l), ('( find /v "" | find "a" )', lambda l: [x for x in l if 'a' in x]), ('(set v=lost&find "a"&echo !v!a)', lambda l: [x for x in l if 'a' in x] + ['losta'])]
    LASTS = [('if 1==1 find /v "" & echo zz', lambda l: l + ['zz']), ('if 1==2 find /v "" & echo zz', lambda l: []), ('for %%x in (1 2) do set q=%%x& echo zz', lambda l: ['zz', 'zz']), ('for /l %%x in (1,1,2) do find "a" && echo zz || echo no', lambda l: [x for x in l if 'a' in x] + (['zz'] if any('a' in x for x in l) else ['no']) + ['no']),
             ('if not 1==1 (echo n) else find /v ""& if 1==1 echo zz', lambda l: l + ['zz']), ('find /v "" & echo zz', lambda l: l + ['zz']), ('find "a" && echo zz || echo no', lambda l: [x for x in l if 'a' in x] + (['zz'] if any('a' in x for x in l) else ['no']))]
    FIRST = [('(echo a&exit 3)', ['a']), ('(echo a&goto :eof)', ['a']), ('(echo ab&echo c&exit /b 4)', ['ab', 'c']), ('(if 1==1 if 1==1 echo a)', ['a']), ('(for %%i in (a b) do for %%j in (c d) do echo %%i%%j)', ['ac', 'ad', 'bc', 'bd']), ('call :id nul', ['id']), ('(setlocal&pushd d1&set v=lost&echo !v!a)', ['losta']), ('exit 5', [])]
    # the surroundings: before, around, behind, and what a side writes there
    CTX = [('', '@', '', [('echo !v!', 'V'), ('echo %v%!V!', 'VV')]),
           ('call :r 5\n', '@', '', [('echo !errorlevel!', '5'), ('if errorlevel 5 echo ge5', 'ge5')]),
           ('call :r -3\n', '@', '', [('echo !errorlevel!', '-3'), ('if "!errorlevel!"=="-3" echo neg', 'neg')]),
           ('call :in one "two 3" four five\ngoto done\n:in\n', '@', 'goto :eof\n:done\n', [('echo %1.%~2.%3', 'one.two 3.four'), ('echo %4.%5', 'five.'), ('(if "%3"=="four" echo %~1)', 'one'), ('echo %0', ':in')]),
           ('call :in one "two 3" four five\ngoto done\n:in\nshift\n', '@', 'goto :eof\n:done\n', [('echo %~1.%2.%3.%4', 'two 3.four.five.')]),
           ('setlocal disabledelayedexpansion\n', '@', 'endlocal\n', [('echo !v!%v%', '!v!V')]),
           ('setlocal\nset v=W\n', '@', 'endlocal\n', [('echo !v!', 'W')]),
           ('pushd d1\n', '@', 'popd\n', [('dir /b *.txt', 'in.txt'), ('(popd&if exist t.bat echo back)', 'back'), ('(cd ..&if exist d1/in.txt echo up)', 'up'), ('(pushd ..&popd&if exist in.txt echo there)', 'there')]),
           ('', 'for %%k in (K) do (@)', '', [('echo %%k', 'K'), ('(if 1==1 (echo %%k%%k))', 'KK')]),
           ('', 'for /f "tokens=1,2" %%k in ("K L M") do (@)', '', [('echo %%k%%l', 'KL')]),
           ('def /f p=(\nset _l=L\n', '@', ')\np A "B C"\n', [('echo !_l!.$1.$2', 'L.A.B C'), ('(set _l=M&echo !_l!$1)', 'MA')]),
           ('set u=x y\n', 'if defined u (@) else echo no', '', [('echo %u%', 'x y'), ('for %%i in (!u!) do echo %%i', None)])]
    n = 0
    for ci, (pre, around, post, obs) in enumerate(CTX):
        for f, lines in [(t, [o] if o else ['x', 'y']) for t, o in obs] + FIRST:
            for mids in [()] + [(m,) for m in LIDS]:
                for r in LIDS + LASTS:
                    n += 1; last = r[0]; behind = [m[0].replace('%%i', '%%w') for m in mids] + [last]; every = ' | '.join([f] + behind)
                    if 'exit' in last or 'goto' in last: continue                       # these leave the script itself
                    if ci == 5 and any('!' in x for x in behind + [f] * (f != obs[0][0])): continue
                    if around != '@' and 'else' in last or any('else' in m[0] for m in mids) or pre.startswith('def') and 'call' in every: continue
                    if f == 'for %%i in (!u!) do echo %%i': every = every.replace(f, '(%s)' % f)
                    l = lines; known = True
                    for m in mids:
                        if not l and 'set /p' in m[0]: known = False                    # SET /P at the end of its input is another matter
                        l = m[1](l)
                    if not known or not l and 'set /p' in last: continue
                    out = r[1](l)
                    t = 'set v=V\n' + pre + around.replace('@', every) + '\n' + post
                    v = 'lost' if 'set v=lost' in last and ci != 6 else 'V'
                    chk.state(('side', t)); chk.transitions += 2 + len(mids)
                    t += 'echo - [!v!]\ngoto :eof\n'
                    for a in (':in', 'done', ':r', ':id'): t = re.sub(re.escape(a) + r'(?=[ \n)|&])', a + str(n), t)
                    t = 'call :g%d\ngoto h%d\n:g%d\n' % (n, n, n) + t + ':r%d\nexit /b %%1\n:id%d\necho id\nif "%%1"=="" find /v ""\ngoto :eof\n:h%d\n' % (n, n, n)
                    want = [x.replace(':in', ':in%d' % n) for x in out] + ['- [%s]' % v]
                    yield Item('%s where %r' % (every, pre + around), t, lambda o, want=want: None if [x.rstrip().replace(' ]', ']') for x in o.decode('utf8', 'replace').split('\n')[:-1]] == want else 'expected %r' % want)
if os.environ.get('ONLY', 'sides') == 'sides': batch(chk, sides(), per=40, files=[('d1', None), ('d1/in.txt', 'x')], timeout=30000)
chk.extra['scheduling'] = tot
chk.assumptions.append('threads and processes are switched at system calls on shared objects (lib/sched.c); what a thread does between two of them is taken to happen at once')
chk.sample({'pipeline': 'echo a | type | set /p v=', 'schedules': tot['schedules']})
chk.finish()
