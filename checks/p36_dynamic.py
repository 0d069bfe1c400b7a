"""P36: the dynamic variables tell the moment at which they are expanded."""
import sys, itertools, time, os, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P36', bounds='%DATE%, %TIME% and $d, $t of PECHO at every day of leap and common years, every second of an hour, every hour and the ends of all years 1970-2037, in 9 time zones with every change of summer time of 4 years; '
            '%ERRORLEVEL% and %=EXITCODEASCII% after all codes -300..300 and the limits; every history of up to 3 (thorough 4) of 13 steps and 4 (5) of 9 (folders, assignments to the names, codes), followed by every form of expansion in every surrounding (3 forms in one surrounding from 3 steps on); %RANDOM%; the constant variables in every way to start')
# --- the clock
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NST3:30NDT,M3.2.0,M11.1.0', 'LINT-14', 'AoE12', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'X-0:00:59']
def moments(zi):
    """Seconds since 1970 (of the zone's standard time, roughly: what matters is that all boundaries are near)."""
    out = []
    def at(*a): return int(__import__('calendar').timegm(a + (0,) * (6 - len(a))))
    for y in range(1970, 2038):
        if y == 1970: out += [at(1970, 1, 2) + d for d in (-1, 0, 1)]
        else: out += [at(y, 1, 1) + d for d in (-1, 0, 1)] + [at(y, 3, 1) - 1, at(y, 3, 1)]
    for y in (2023, 2024):
        for d in range(366): out.append(at(y, 1, 1) + d * 86400 + d * 211 % 86400)
    for h in range(24): out += [at(2026, 10, 9, h) + d for d in (-1, 0, 59, 60)]
    if zi == 0 or THOROUGH: out += [at(1999, 12, 31, 23) + s for s in range(3600)]
    else: out += [at(1999, 12, 31, 23) + s for s in range(0, 3600, 61)]
    for y in (1999, 2024, 2025, 2037):
        for m, d0 in ((3, 8), (3, 25), (10, 25), (11, 1), (4, 1), (9, 24)):
            for d in range(7):
                for h in range(0, 24, 1 if THOROUGH else 5): out += [at(y, m, d0 + d if d0 + d < 31 else 30, h) + x for x in ((-1, 0) if THOROUGH else (0,))]
    if zi and not THOROUGH: out = out[zi % 3::3]
    return out
def local(t, z):
    os.environ['TZ'] = z; time.tzset()
    l = time.localtime(t)
    return time.strftime('%m/%d/%y', l), time.strftime('%H:%M:%S', l)
CLK = cbuild('lib/clock.c', ('-shared', '-fPIC'))
def clock():
    for zi, z in enumerate(ZONES):
        ms = [m for m in moments(zi) if m >= 86400]
        want = [local(t, z) for t in ms]
        for blk in chunks(list(zip(ms, want)), 400):
            t = "@echo off\nset %s=never\n" % ("date", "time", "x")[len(blk) % 3 if zi == 0 else zi % 3]
            for m, _ in blk:
                chk.state((z, m)); chk.transitions += 1
                t += 'echo %d >c\necho %%date%%;%%time%%;!Time:~0,5!;%%date:/=.%%;%%date:~3,2%%;!date:~-2!\npecho $D;$t\n' % m
            yield z, blk, t
def run_clock():
    prog = program('pbat', 'dyn')
    for group in chunks(clock(), 64):
        if chk.enough(): return
        def case(z, t):
            env = ENV + ['LD_PRELOAD=' + CLK, 'CLOCK=c', 'TZ=' + z]
            return Case('clock in ' + z, [prog, 't.bat'], [('t.bat', b(t))], env=env, timeout=30000)
        res = run([case(z, t) for z, blk, t in group])
        for (z, blk, t), r in zip(group, res):
            ls = r.out.decode('latin1').split('\n')
            for i, (m, (d, h)) in enumerate(blk):
                chk.traces += 1
                l = (ls + [''] * 2 * len(blk))[2 * i:2 * i + 2]
                f, g = l[0].split(';'), l[1].split(';')
                T = lambda x: x[:8] == h and (len(x) == 8 or not re.search('[^0-9.,]', x[8:]) and len(x) < 13)
                good = len(f) == 6 and len(g) == 2 and f[0] == d and T(f[1]) and f[2] == h[:5] and f[3] == d.replace('/', '.') and f[4] == d[3:5] and f[5] == d[-2:] and g[0] == d and T(g[1])
                if good: chk.outcomes.add((d, h)); continue
                if chk.enough(): return
                chk.violation('%s at %d' % (z, m), case(z, '@echo off\necho %d >c\necho %%date%%;%%time%%;!Time:~0,5!;%%date:/=.%%;%%date:~3,2%%;!date:~-2!\npecho $D;$t\n' % m), '%s %s' % (d, h), '\n'.join(l) + ' ' + repr(r)[:300])
run_clock()
# --- folder, level and what SET does not change
STEPS = ['cd d1', 'cd ..', 'pushd d1', 'popd', 'set cd=x', 'set errorlevel=9', 'set date=never', 'call :r 7', 'call :r -42', 'set =exitcodeascii=Q', 'find "zz" f >nul', 'setlocal', 'endlocal']
SUB = 'goto :eof\n:r\nexit /b %1\n'
FORMS = [('%cd%', lambda c, e: c), ('!CD!', lambda c, e: c), ('%Cd:~1%', lambda c, e: c[1:]), ('%cd:~-3,2%', lambda c, e: c[-3:-1]), ('!cd:/=\\!', lambda c, e: c.replace('/', '\\')), ('%cd:other%', lambda c, e: c),
         ('%errorlevel%', lambda c, e: str(e)), ('!ERRORLEVEL!', lambda c, e: str(e)), ('%errorlevel:~0,1%', lambda c, e: str(e)[:1]), ('%errorlevel:4=four%', lambda c, e: str(e).replace('4', 'four')), ('%ErrorLevel:~-1%', lambda c, e: str(e)[-1:]),
         ('!=exitcodeascii!', lambda c, e: chr(e & 255) if 0 < e < 256 else None)]
def step(s, op):
    """(folder below the root, level, stack, scopes) - folders are 'r', 'r/d1' and 'r/d1/d1'"""
    d, e, st, sc = s
    if op == 'cd d1': return ('r/d1' if d == 'r' else 'r/d1/d1' if d == 'r/d1' else d), (0 if d != 'r/d1/d1' else None), st, sc
    if op == 'cd ..': return (d.rsplit('/', 1)[0], 0, st, sc) if d != 'r' else None
    if op == 'pushd d1': return (('r/d1' if d == 'r' else 'r/d1/d1'), 0, st + (d,), sc) if d != 'r/d1/d1' else None
    if op == 'popd': return (st[-1], 0, st[:-1], sc) if st else None
    if op.startswith('set '): return d, 0, st, sc
    if op.startswith('call'): return d, int(op.split()[-1]), st, sc
    if op.startswith('find'): return d, 1, st, sc
    if op == 'setlocal': return d, e, st, sc + 1
    return (d, e, st, sc - 1) if sc else None
def histories():
    for n in range(1, 6 if THOROUGH else 5):
        for h in itertools.product(STEPS[:9] if n > 3 and n == (5 if THOROUGH else 4) else STEPS, repeat=n):
            s = ('r', 0, (), 0); bad = False
            for op in h:
                s = step(s, op)
                if s is None or s[1] is None: bad = True; break
            if bad: continue
            yield h, s
WAYS = ['echo [%s]\n', 'if 1==1 (for %%%%i in (1) do @echo [%s])\n', 'for /l %%%%i in (1,1,1) do (echo [%s])\n', 'set v=\nset "v=%s"\necho [!v!]\n', 'call :tell "%s"\n']
SUB = 'goto :eof\n:r\nexit /b %1\n:tell\necho [%~1]\ngoto :eof\n'
FILES = [('d1', None), ('d1/d1', None), ('f', b'a\n'), ('d1/f', b'a\n'), ('d1/d1/f', b'b\n')]
HEAD = '@echo off\n/bin/pwd\nset root=%cd%\n'
def cases():
    """(history, state, text, [form, level at that moment])"""
    k = 0
    for h, s in histories():
        for way, wt in enumerate(WAYS):
            k += 1
            if len(h) > 2 and way != k // len(WAYS) % len(WAYS): continue
            fs = FORMS if len(h) < 3 else [FORMS[(k * 5 + j) % len(FORMS)] for j in range(3)]
            for f, fn in fs:
                if fn('x', s[1]) is None or way > 2 and '=exit' in f: continue
                chk.state((h, f, way)); chk.transitions += 1
                t = 'call :r 0\n' + ''.join(x + '\n' for x in h) + wt % f
                t += 'cd %root%\n' + 'popd\n' * len(s[2]) + 'endlocal\n' * s[3] + 'set cd=\nset date=\nset errorlevel=\nset v=\ncd %root%\n'
                yield ' & '.join(h) + ' & ' + (wt % f).replace('\n', ' & '), s, t, fn, way
def run_histories():
    for block in chunks(chunks(cases(), 60), 64):
        if chk.enough(): return
        cs = [script(HEAD + ''.join('echo \1@%d\n' % i + x[2] for i, x in enumerate(sub)) + 'echo \1@%d\n' % len(sub) + SUB, files=FILES, key=sub[0][0], timeout=30000) for sub in block]
        for sub, r in zip(block, run(cs)):
            outs = split_marks(r.out, len(sub) + 1); root = r.out.decode('latin1').split('\n')[0]
            for (key, s, t, fn, way), o in zip(sub, outs):
                chk.traces += 1
                # an assignment before the expansion sets the level
                want = '[%s]\n' % fn(root + s[0][1:], 0 if way == 3 else s[1])
                if o is not None and o.decode('latin1') == want: chk.outcomes.add((s, way)); continue
                if chk.enough(): return
                chk.violation(key, script(HEAD + t + SUB, files=FILES, key=key), want, repr(o))
run_histories()
# --- all codes
def codes():
    for c in list(range(-300, 301)) + [2147483647, -2147483648, 65536, 1000000]:
        chk.state(('code', c)); chk.transitions += 1
        t = 'call :r %d\necho [%%errorlevel%%]\ncall :r %d\necho [!errorlevel:~-1!%%errorlevel%%]\n' % (c, c); e = '[%d]\n[%s%d]\n' % (c, str(c)[-1], c)
        if 0 < c < 256 and c not in (10, 13): t += 'call :r %d\necho [!=ExitCodeAscii!]\n' % c; e = e.encode() + b'[' + bytes([c]) + b']\n'
        elif c == 0: t += 'call :r 0\necho [!=exitcodeascii!]\n'; e += '[]\n'
        if 31 < c < 127 and chr(c).isalnum(): t += 'call :r %d\necho [%%=EXITCODEASCII%%]\n' % c; e += b'[' + bytes([c]) + b']\n'
        yield c, t, b(e)
def run_codes():
    l = list(codes())
    text = lambda sub: '@echo off\n' + ''.join('echo \1@%d\n' % i + t for i, (c, t, e) in enumerate(sub)) + 'echo \1@%d\n' % len(sub) + SUB
    subs = list(chunks(l, 50))
    for sub, r in zip(subs, run([script(text(x), key='codes', timeout=30000) for x in subs])):
        outs = split_marks(r.out, len(sub) + 1)
        for (c, t, e), o in zip(sub, outs):
            chk.traces += 1
            if o != e:
                if chk.enough(): return
                chk.violation('code %d' % c, script(text([(c, t, e)]), key='x'), e, repr(o))
run_codes()
# --- random numbers: in their range, and new at each expansion
def rnd(out, n):
    x = out.decode().split()
    if len(x) != n or not all(re.fullmatch(r'\d{1,10}', y) and int(y) < 2**31 for y in x): return 'numbers: %r' % out[:200]
    if len(set(x)) < n * 2 // 3: return 'the same numbers again: %r' % out[:200]
R = [Item('random ' + t[:30], t, (lambda n: lambda o: rnd(o, n))(n)) for t, n in [
    ('echo %random% %RANDOM% %Random% %random%', 4), ('echo !random! !random! !RANDOM! !random!', 4), ('for /l %%i in (1,1,20) do @echo !random!', 20), ('set random=5\necho %random% %random% !random! !random!\nset random=', 4),
    ('set a=%random%\nset b=%random%\nset c=!random!\nset d=!random!\necho %a% %b% %c% %d%', 4), ('(echo !random!\necho !random!\necho !random!)', 3), ('call :x\ncall :x\ngoto y\n:x\necho %random% !random!\ngoto :eof\n:y', 4)]]
batch(chk, R, per=1)
# --- the constant ones
def constants():
    own = program('pbat'); d = os.path.dirname(own)
    t = 'echo [%PBAT_OS%][%PBAT_OS_TYPE%][%PBAT_PATH%][%PBAT_IS_SCRIPT%]\nset PBAT_V\n'
    e = '[GNU/Linux][*NIX][%s][%s]'
    for i, (cwd, name, path) in enumerate([('', own, ''), ('', 'pbat', d), ('..', own, ''), ('', os.path.relpath(own, '/dev/shm'), '')]):
        for args, stdin, is_ in (['t.bat'], b'', 'true'), (['/a:qe', '//', 't.bat'], b'', 'true'), (['/a:qe'], b(t), 'true'), ([], b('@echo off\n' + t), 'false'), (['/c', 'c.bat'], b'', 'false'), (['/c', 'call', 't.bat'], b'', 'false'), (['u.bat'], b'', 'true'):
            if name.startswith('..') or name == own and i == 3: continue
            env = ['PATH=%s:/usr/bin:/bin' % d] + ENV[1:]
            argv = [own if name == own else '/usr/bin/env'] + ([] if name == own else ['pbat']) + args
            chk.state(('constants', i, tuple(args))); chk.traces += 1
            yield Case('constants: ' + ' '.join(argv), argv, [('t.bat', b('@echo off\n' + t)), ('c.bat', b('@echo off\n' + t)), ('u.bat', b'@call t.bat\n')], env=env, stdin=stdin), (e % (d, is_)).encode()
cl = list(constants())
for (c, e), r in zip(cl, run([c for c, _ in cl])):
    if e not in r.out or not re.search(rb'(?m)PBAT_VERSION=[0-9.]+$', r.out):
        # a script that is run as a command of its own may be told to be one
        if b'/c' in b(repr(c.argv)) and e.replace(b'[false]', b'[true]') in r.out: continue
        chk.violation(c.key, c, e, repr(r))
chk.sample({'clock': ['NST3:30NDT,M3.2.0,M11.1.0', 1709987399, local(1709987399, 'NST3:30NDT,M3.2.0,M11.1.0')]})
chk.finish()
