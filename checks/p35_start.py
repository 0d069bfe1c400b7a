"""P35: START: what it runs, where, with which parameters, whether it waits, and what it gives back."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P35', bounds='every sequence of up to 2 of 15 and 3 of 11 (thorough 4 of 15) options (/B, /WAIT, /W, /D, a title, /MIN, /LOW, /NODE ...) before a program, a script, an internal command and a name that is none, with and without waiting; every exit status and deadly signal; '
            'every list of up to 3 of 10 parameters; every sequence of up to 2 of 12 internal commands, which leave the variables, the folder, the prompt and the echo of the script alone; every place where START may stand')
PROG = open(cbuild('lib/startee.c'), 'rb').read()
FILES = [('d1', None), ('d 2', None), ('d1/sub', None), ('p', PROG, 0, 0o755), ('my p', PROG, 0, 0o755), ('d1/f', b'line\n'), ('noexec', b'x', 0, 0o644),
         ('s.bat', b'@echo off\necho s %1 %2 v=%v%\n%R%/p 0 q 0 %3\nset v=changed\ncd ..\nexit %4\n'), ('e.bat', b'echo e\nstart /b /wait p 0 q 0 z\n'), ('c.bat', b'echo c %1 v=!v!\nstart %~2\n')]
PRE = '@echo off\nset R=%cd%\nset v=one\n'
TAIL = 'goto :eof\n:later\np %1 g 0 l >ol\ngoto :eof\n:lab\necho lab %1 %2\ngoto :eof\n:start\nstart %~1\ngoto :eof\n'
def explore(items):
    """Like batch(), with labels behind the statements."""
    for blk in chunks(chunks(items, 25), 64):
        if chk.enough(): return
        def case(its):
            text = PRE + ''.join('echo \x01@%d\n' % i + it.text.decode() for i, it in enumerate(its)) + 'echo \x01@%d\n' % len(its) + TAIL
            return script(text, files=FILES, timeout=30000, key=its[0].key)
        for its, r in zip(blk, run([case(x) for x in blk])):
            outs = split_marks(r.out, len(its) + 1)
            for i, it in enumerate(its):
                chk.traces += 1
                if outs[i] == b(it.expect) and (r.status == 0 and outs[len(its)] is not None or i < len(its) - 1): chk.outcomes.add(hash(outs[i])); continue
                if chk.enough(): return
                c = case([it]); rr = run([c])[0]; oo = split_marks(rr.out, 2)
                if rr.status != 0 or oo[1] is None or oo[0] != b(it.expect): chk.violation(it.key, c, it.expect, oo[0] if oo[0] is not None else repr(rr), note='status %d' % rr.status)
                else: chk.violation(it.key, case(its), it.expect, repr(outs[i]), note='only after the preceding statements of the batch')
                break
# --- options, and what they are put before
OPT = ['/b', '/wait', '/W', '/d d1', '/D "d 2"', '"a title"', '""', '/min', '/LOW', '/node 1', '/B', '/MAX', '/AboveNormal', '/affinity 3', '/d %R%/d1']
FOLDER = {'/d d1': '/d1', '/d "d 2"': '/d 2', '/d %r%/d1': '/d1'}
NUM = [0]
def nid(): NUM[0] += 1; return NUM[0]
def model(opts):
    """(waits, same console, folder, has a title), or None where a folder is given twice, or False where a title is"""
    l = [o.lower() for o in opts]; d = [FOLDER[o] for o in l if o in FOLDER]; t = sum(o[0] == '"' for o in l)
    return False if t > 1 else None if len(d) > 1 else ('/wait' in l or '/w' in l, '/b' in l, d[0] if d else '', t > 0)
def options():
    k = 0
    for n in range(5 if THOROUGH else 4):
        for opts in itertools.product(OPT if THOROUGH or n < 3 else OPT[:11], repeat=n):
            m = model(opts)
            if m is False: continue
            k += 1
            if n == 4 and k % 9: continue
            o = ''.join(x + ' ' for x in opts)
            for kind in range(5):
                if n == 4 and (k + kind) % 3: continue
                i = nid(); st = k % 7
                chk.state((opts, kind)); chk.transitions += 1
                if m is None:
                    t = 'start %s%s 2>err\n' % (o, ['p %d q 0' % i, '%R%/s.bat a', 'echo k', './p %d q 0' % i, 'nosuch'][kind]); e = 'bad\n'
                else:
                    w, same, d, title = m
                    if kind in (0, 3):
                        # without a title, a name in quotes would be taken for it
                        name = '"my p"' if kind == 3 and title else ['p', './p', '%R%/p', 'd1/../p'][k % 4]
                        p = 'p [x] [y z] in %s v=one\n' % d
                        if w: t = 'start %s%s %d w %d x "y z"\necho %%errorlevel%%\n' % (o, name, i, st); e = p + '%d\n' % st
                        else: t = 'start %s%s %d g %d x "y z"\necho %%errorlevel%%\necho.>%%R%%/go.%d\n%%R%%/p %d d 0\n' % (o, name, i, st, i, i); e = '0\n' + p
                    elif kind == 1:
                        if not w: continue
                        t = 'start %s%s x yz q %d\necho %%errorlevel%%\n' % (o, '%R%/s.bat' if d else ['s.bat', './s.bat', '%R%/s.bat', 'd1/../s.bat'][k % 4], st); e = 's x yz v=one\np [q] in %s v=one\n%d\n' % (d, st)
                    elif kind == 2:
                        if not w: continue
                        if same: t = 'start %scd>got\nfor /f "delims=" %%%%x in (got) do @if "%%%%x"=="%%R%%%s" (echo same) else echo %%%%x\n' % (o, d); e = 'same\n'
                        else: t = 'start %stype %%R%%/d1/f\n' % o; e = 'line\n'
                    else: t = 'start %snosuch x 2>err\n' % o; e = 'bad\n'
                if e == 'bad\n': t += 'if %errorlevel%==0 (echo good) else echo bad\nfor %%f in (err) do @if %%~zf==0 echo silent\n'
                yield Item('start %skind %d' % (o, kind), t, e)
# --- statuses
def statuses():
    for st in range(256):
        i = nid(); chk.state(('status', st)); chk.transitions += 1
        yield Item('start /b /wait p, status %d' % st, 'start /b /wait p %d q %d\necho %%errorlevel%%\n' % (i, st), 'p in  v=one\n%d\n' % st)
        yield Item('start /wait s.bat, status %d' % st, 'start /wait /b s.bat 1 2 3 %d >nul&&echo good||echo bad\necho %%v%%\n' % st, ('bad' if st else 'good') + '\none\n')
    for sig in (1, 2, 3, 6, 9, 10, 11, 13, 15):
        i = nid(); yield Item('start /b /wait p, signal %d' % sig, 'start /b /wait p %d k %d\necho %%errorlevel%%\n' % (i, sig), 'p in  v=one\n%d\n' % (128 + sig))
# --- parameters
PAR = ['x', '"y z"', '/b', '/wait', '/d', '"/d d1"', '""', 'a/b', '-x', '"q&r"']
def params():
    for n in range(4):
        for ps in itertools.product(PAR, repeat=n):
            for form in range(2 if n == 3 else 4):
                if n == 3 and not THOROUGH and hash_(ps) % 4 != form: continue
                i = nid(); chk.state((ps, form)); chk.transitions += 1
                want = 'p' + ''.join(' [%s]' % p.strip('"') for p in ps) + ' in %s v=one\n' % ('/d1' if form == 1 else '')
                pre = ['start /b /wait p', 'start /wait /d d1 "" /b "my p"', 'start  /WAIT\t/B  ./p', 'start "my p" /w p'][form]
                yield Item(pre + ' ' + ' '.join(ps), '%s %d q 0 %s\n' % (pre, i, ('  ' if form == 2 else ' ').join(ps)), want)
def hash_(ps): return sum(PAR.index(p) * (j + 1) for j, p in enumerate(ps))
# --- internal commands work on a copy of the interpreter
CMDS = ['set v=two', 'set w=new', 'set v=', 'cd d1', 'pushd d1', 'setlocal', 'exit 3', 'exit /b 4', 'prompt q', 'echo on', 'endlocal', 'for %%i in (1 2) do @echo i %%i', 'if %v%==one echo yes', 'call :lab 7 8', 'call c.bat z "/b /wait echo deep"', 'echo [%v%] !v!', 'title x', 'shift', 'rem x', 'def pq=echo other']
OUT = {CMDS[11]: 'i 1\ni 2\n', CMDS[13]: 'lab 7 8\n', CMDS[14]: 'c z v=%s\ndeep\n'}
def isolation():
    def out(c, v):
        if c == CMDS[12]: return 'yes\n' if v == 'one' else ''
        if c == CMDS[15]: return '[%s] %s\n' % (v, v)
        return OUT.get(c, '').replace('%s', v)
    see = 'echo [%v%] [%w%]\nif "%cd%"=="%R%" (echo here) else echo %cd%\npq 5\n'
    for n in (1, 2):
        for cs in itertools.product(CMDS, repeat=n):
            chk.state(('isolation', cs)); chk.transitions += 1
            for form in range(3):
                t = ['def /f pq=echo pq $1\nset v=one\nset w=\n', 'setlocal\nset v=three\ndef /f pq=echo pq $1\n', 'pushd "d 2"\ncd ..\nset w=w\ndef /f pq=echo pq $1\n'][form]
                v = ['one', 'three', 'one'][form]; w = 'w' if form == 2 else ''
                e = ''
                for c in cs: t += 'start /b /wait ' + c + '\n'; e += out(c, v)
                t += see; e += '[%s] [%s]\nhere\npq 5\n' % (v, w)
                t += ['', 'endlocal\necho [%v%]\n', 'popd\nset w=\nif "%cd%"=="%R%" echo back\n'][form]; e += ['', '[one]\n', 'back\n'][form]
                yield Item('start /b /wait %s, form %d' % (' then '.join(cs), form), t, e)
# --- places
def places():
    X = [('p %d q 5 a', 'p [a] in  v=one\n', 5), ('echo a', 'a\n', 0), ('s.bat 1 2 3 5', 's 1 2 v=one\np [3] in  v=one\n', 5), ('nosuch 2>nul', '', 1)]
    for o in ('/b /wait', '/wait /b ""', '"t" /w /low /b', '/d d1/.. /b /wait'):
        for x, out, st in X:
            i = nid(); x = x.replace('%d', str(i)); s = 'start %s %s' % (o, x)
            chk.state((o, x)); chk.transitions += 1
            yield Item('( %s )' % s, '(\necho before\n%s\necho after\n)\n' % s, 'before\n' + out + 'after\n')
            yield Item('for: ' + s, 'for %%%%i in (1 2) do (echo %%%%i&%s)\n' % s, '1\n' + out + '2\n' + out)
            yield Item('if: ' + s, 'if 1==1 (%s) else echo no\n' % s, out)
            yield Item('&&: ' + s, 'echo x&&%s&&echo y||echo n\n' % s, 'x\n' + out + ('n\n' if st else 'y\n'))
            if 'nul' not in s:
                g = '' if x == 'echo a' else ' '
                yield Item('> : ' + s, '%s%s>of\necho x\ntype of\n' % (s, g), 'x\n' + out)
                yield Item('>>: ' + s, 'echo 1 >of\n%s%s>>of\ntype of\n' % (s, g), '1 \n' + out)
                yield Item('| : ' + s, '%s|find /v /n ""\n' % s, ''.join('[%d]%s\n' % (j + 1, l) for j, l in enumerate(out.split('\n')[:-1])))
                yield Item('call: ' + s, 'call :start "%s"\n' % (o.replace('""', 't').replace('"', '') .replace(' t', '') + ' ' + x).replace('t /w', '/w'), out)
                yield Item('for /f: ' + s, 'for /f "delims=" %%%%i in (\'%s\') do echo -%%%%i\n' % s, ''.join('-%s\n' % l for l in out.split('\n')[:-1]))
            yield Item('procedure: ' + s, 'def /f st=%s\nst\necho x\n' % s, out + 'x\n')
    for rd in ('<d1/f', '< d1/f '):
        i = nid(); yield Item('input', 'start /b /wait p %d r 0%s\n' % (i, ' ' + rd), 'p in  v=one read line\n')
    i = nid(); yield Item('pipe into', 'echo hello|start /b /wait p %d r 0\n' % i, 'p in  v=one read hello\n')
    i = nid(); yield Item('2>', 'start /b /wait p %d e 0 2>er\ntype er\n' % i, 'p in  v=one\nerr\n')
    for bad in ('', '/b', '/wait', '/d', '/b /d', '/d d1', '/d d1 /b'):
        yield Item('start ' + bad, 'start %s 2>er&&echo good||echo bad\nfor %%%%f in (er) do @if %%%%~zf==0 echo silent\n' % bad, 'bad\n')
    for bad in ('d1', 'noexec', './nosuch', 'd1/p', '"t" nosuch'):
        yield Item('start /b /wait ' + bad, 'start /b /wait %s 2>er&&echo good||echo bad\nfor %%%%f in (er) do @if %%%%~zf==0 echo silent\n' % bad, 'bad\n')
    for o in ('/b /wait', '/wait', '/wait "t"', '/d d1/.. /w'): yield Item('echo off, start %s e.bat' % o, 'start %s e.bat\n' % o, 'e\np [z] in  v=one\n')
    # internal commands go on by themselves as well
    for c in ('call :later %d', 'for %%%%i in (1) do call :later %d', 'if 1==1 (%%R%%/p %d g 0 l >ol)', 'call /e c.bat z :later %d' if 0 else 'call :later %d x'):
        i = nid(); c = c % i
        yield Item('start /b ' + c, 'set v=one\nstart /b %s\nset v=two\ncd d1\necho first %%errorlevel%%\necho.>%%R%%/go.%d\ncd ..\np %d d 0\ntype ol\nset v=one\n' % (c, i, i), 'first 0\np [l] in  v=one\n')
    # two programs at once: each may wait for the other
    for n in (2, 3, 4):
        ids = [nid() for _ in range(n)]
        t = ''.join('start /b p %d g 0 k%d >o%d\n' % (i, j, j) for j, i in enumerate(ids)) + ''.join('echo.>%%R%%/go.%d\np %d d 0\ntype o%d\n' % (i, i, j) for j, i in reversed(list(enumerate(ids))))
        yield Item('%d at once' % n, t, ''.join('p [k%d] in  v=one\n' % j for j in reversed(range(n))))
explore(options()); explore(statuses()); explore(params()); explore(isolation()); explore(places())
chk.sample({'statement': 'start /D "d 2" /b "a title" p 1 g 3 x "y z"', 'model': model(('/D "d 2"', '/b', '"a title"'))})
chk.finish()
