"""P24: which program or script a name runs, what it is given, and what it gives back."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P24', bounds='every presence of a program and of scripts of the same name in the current folder and two folders of PATH (2^6, thorough 2^9) under every PATH and PATHEXT of the grammar and every form of the name; '
            'every exit code 0..255 and deadly signal; every history of up to 3 changes of the environment (thorough 4); every internal command against programs of its name; unknown, unreadable and broken programs')
def prog(tag): return b'#!/bin/sh\necho ' + b(tag) + b' "$#" "$@"\n'
def bat(tag): return b'@echo off\necho ' + b(tag) + b' %1 %2\n'
# --- where names are searched
PATHS = ['d1:d2', 'd2:d1', 'd1', '%r%/d1:%r%/d2', '%r%/d2/:%r%/d1/', 'no:%r%/d2:no/x:%r%/d1', ':%r%/d1', '%r%/d2::', 'sub/../d1:d2', '%r%/file:d2', '']
EXTS = [['.bat', '.cmd'], ['.cmd', '.bat'], ['.bat'], ['.no', '.cmd'], []]
FORMS = ['p', './p', 'd1/p', '%r%/d2/p', 'sub/../p', 'p.bat', 'd2/p.cmd', '"p"', 'P', '../p']
def search(tree, cwd, path, exts, name):
    """The path of what a name runs (below the root), or None"""
    def norm(d, n):
        if n.startswith('%r%'): l = []; n = n[3:]
        else: l = [x for x in d.split('/') if x]
        for x in n.split('/'):
            if x in ('', '.'): continue
            if x == '..':
                if not l: return None
                l.pop()
            else: l.append(x)
        return '/'.join(l)
    name = name.replace('"', '')
    dirs = [('', '')] if '/' in name else [('', '')] + [(x, x) for x in path.split(':')]
    for d, _ in dirs:
        for e in exts + ['']:
            n = norm(cwd, (d.rstrip('/') + '/' if d else '') + name + e)
            if n is not None and n in tree: return n
    return None
KINDS = ['p', 'p.bat', 'p.cmd'] if THOROUGH else ['p', 'p.bat']
PLACES = [d + k for d in ('', 'd1/', 'd2/') for k in KINDS]
def searches():
    k = 0
    for bits in range(1 << len(PLACES)):
        tree = [PLACES[i] for i in range(len(PLACES)) if bits >> i & 1]
        files = [('d1', None), ('d2', None), ('sub', None), ('sub/d1', None), ('file', b'')]
        tr = set(tree) | {'sub/d1/p'}
        for n in tr: files.append((n, prog(n) if n.endswith('p') else bat(n), 0, 0o755))
        its = []
        for pi, path in enumerate(PATHS):
            for ei, exts in enumerate(EXTS):
                for fi, name in enumerate(FORMS):
                    k += 1
                    if not THOROUGH and (pi + ei + fi + bits) % 5: continue
                    for cwd in ('', 'sub') if (k // 5) % 3 == 0 and 'sub' not in path and 'sub' not in name else ('',):
                        f = search(tr, cwd, path, exts, name)
                        chk.state((bits, path, tuple(exts), name, cwd)); chk.transitions += 1
                        t = 'set PATH=%s\nset PATHEXT=%s\n' % (path, ':'.join(exts)) + ('cd %s\n' % cwd if cwd else '') + '%s x y && echo good|| echo bad\n' % name + ('cd ..\n' if cwd else '')
                        its.append(Item('files: %s; %s' % (' '.join(tree), t), t, 'bad\n' if f is None else '%s %sx y\ngood\n' % (f, '2 ' if f.endswith('p') else '')))
        yield files, its
def all_searches():
    for block in chunks(searches(), 64):
        cases = []
        for files, its in block:
            for sub in chunks(its, 40): cases.append((files, sub))
        def case(files, sub):
            text = '@echo off\nset r=%cd%\n' + ''.join('echo \x01@%d\n' % i + it.text.decode() for i, it in enumerate(sub)) + 'echo \x01@%d\n' % len(sub)
            return script(text, files=files, key=sub[0].key, timeout=30000)
        for (files, sub), r in zip(cases, run([case(f, s) for f, s in cases])):
            outs = split_marks(r.out, len(sub) + 1)
            for i, it in enumerate(sub):
                chk.traces += 1
                if outs[i] is None or outs[i] != b(it.expect): chk.violation(it.key, case(files, [it]), it.expect, outs[i])
                else: chk.outcomes.add(hash(outs[i]))
            if outs[len(sub)] is None: chk.violation('batch ' + sub[0].key, case(files, sub), 'the end of the script', repr(r))
            if chk.enough(): return
all_searches()
# --- internal commands before programs; only whole names are internal commands
INT = 'cls md echo set if goto pause cd title exit del help setlocal endlocal more type start dir chdir mkdir rd rmdir copy for call def shift find break chcp pushd popd wc xargs prompt pecho timeout move ren locale ver'.split()
def names():
    for n in INT:
        for v in (n + 'x', n + '-a', n + '_', n + '2', n + '.sh' if n != 'echo' else 'echo_sh', 'x' + n, n[:-1] + '0', n + n):
            if v in INT or v.startswith('echo') or v.startswith('pecho.'): continue    # ECHO. and PECHO. print
            yield v
NAMES = sorted(set(names()))
def internal():
    for n in NAMES:
        for v in (n, './' + n):
            chk.state(('name', v)); chk.transitions += 1
            yield Item(v, v + ' a /b\n', n + ' 2 a /b\n')
    for n in ('echo', 'ver', 'cd', 'set', 'type', 'find', 'dir', 'more', 'wc'):
        for v in (n, n.upper(), n.capitalize()):
            yield Item('internal ' + v, v + ' /? >nul 2>nul <nul\necho \n' if 0 else '%s f >o 2>nul <f\nfind /c "PROGRAM" o\n' % v, '0\n')
        yield Item('program ' + n, './%s f\n' % n, 'PROGRAM %s 1 f\n' % n)
        yield Item('program by path ' + n, '%%cd%%/%s f g\n' % n, 'PROGRAM %s 2 f g\n' % n)
    for sep in (' ', '\t', ',', ';', '/'):
        t = 'ECHO%sabc\n' % sep
        if sep == ' ': yield Item(t, t, 'abc\n')
        t = 'cd%s.\n' % (sep if sep != '/' else ' ')
        yield Item(t, t + 'echo %errorlevel%\n', '0\n')
batch(chk, internal(), per=40, prelude='@echo off\nset PATHEXT=\nset PATH=%cd%\n', files=[('f', b'abc\n')] + [(n, prog(n), 0, 0o755) for n in NAMES] +
      [(n, prog('PROGRAM ' + n), 0, 0o755) for n in ('echo', 'ver', 'cd', 'set', 'type', 'find', 'dir', 'more', 'wc')])
# --- what comes back
def statuses():
    for n in range(256):
        for form in ('sh -c "exit %d"', 'x%d.sh', '(sh -c "exit %d")', 'if 1==1 sh -c "exit %d"', 'for %%%%i in (1) do sh -c "exit %d"', 'call x.sh %d', 'call :r %d', 's.bat %d', 'echo a | sh -c "cat >/dev/null; exit %d"'):
            if form.startswith('x'): c = './x.sh %d' % n
            else: c = form % n
            if not THOROUGH and n not in (0, 1, 2, 3, 9, 15, 127, 128, 129, 130, 137, 254, 255) and (n + len(form)) % 7: continue
            chk.state((form, n)); chk.transitions += 3
            yield Item(c, c + '\necho %errorlevel%\n', '%d\n' % n)
            if not form.startswith(('for', 'if')):
                yield Item(c + ' &&', c + ' && echo yes\n' + c + ' || echo no\n', 'no\n' if n else 'yes\n')
            yield Item(c + ' if', c + '\nif errorlevel 1 (if errorlevel 128 (echo big) else echo small) else echo zero\n', 'big\n' if n >= 128 else 'small\n' if n else 'zero\n')
    for s in (1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25):
        for c in ('./k.sh %d' % s, 'call k.sh %d' % s, '(./k.sh %d)' % s):
            chk.state(('signal', c)); chk.transitions += 1
            yield Item(c, c + ' && echo yes\n' + c + ' || echo no\n', 'no\n')
            yield Item(c + ' then', c + '\nif errorlevel 1 (echo failed) else echo fine\n', 'failed\n')
    for c, ok in (('nosuch', 0), ('nosuch a b', 0), ('./nosuch', 0), ('d', 0), ('d/', 0), ('./d', 0), ('noexec', 0), ('noexec a', 0), ('badint', 0), ('./badint x', 0), ('/', 0), ('""', 0), ('nosuch/x', 0), ('x.sh/x', 0), ('"no such"', 0),
                  ('x' * 3000, 0), ('x' * 5000 + ' a', 0), ('d/x' + 'y' * 300, 0), ('loop', 0), ('dangling', 0), ('call nosuch', 0), ('call ./nosuch a', 0), ('call noexec', 0), ('call badint', 0), ('call d', 0), ('link.sh 0', 1), ('call link.sh 0', 1)):
        chk.state(c); chk.transitions += 3
        yield Item(c[:200], c + ' && echo yes\n' + c + ' || echo no\n', 'yes\n' if ok else 'no\n')
        yield Item(c[:200] + ' then', c + '\nif errorlevel 1 (echo failed) else if not %errorlevel%==0 (echo failed) else echo fine\n', 'fine\n' if ok else 'failed\n')
        yield Item(c[:200] + ' in block', '(echo a\n%s\necho b)\necho c\n' % c, 'a\nb\nc\n')
        yield Item(c[:200] + ' in for', 'for %%%%i in (1 2) do %s & echo %%%%i\necho c\n' % c, '1\n2\nc\n')
        yield Item(c[:200] + ' out', '%s >o\ntype o\necho c\n' % c, 'c\n')
    # one message, on the error stream, naming it
    for c in ('nosuch', 'nosuch a b', './nosuch', 'noexec', 'badint', 'd'):
        yield Item('message ' + c, c + ' >o 2>e\nfind /c "%s" e\nfind /c /v "" e\n' % c.split()[0].replace('./', ''), lambda out: None if out.split()[0] == b'1' else 'messages: %r' % out)
sf = [('x.sh', b'#!/bin/sh\nexit $1\n', 0, 0o755), ('k.sh', b'#!/bin/sh\nulimit -c 0\nkill -$1 $$\nsleep 1\n', 0, 0o755), ('s.bat', b'@exit /b %1\n'), ('d', None), ('noexec', b'abc\n', 0, 0o644), ('badint', b'#!/nonexistent/x\n', 0, 0o755),
      ('link.sh', b'x.sh', 2, 0), ('loop', b'loop', 2, 0), ('dangling', b'gone', 2, 0)]
def fin(its):
    return None
TAIL = 'goto :done\n:r\n./x.sh %1\ngoto :eof\n:done\n'
def stat_batch():
    for block in chunks(chunks(statuses(), 60), 64):
        def case(its):
            text = b'@echo off\nset PATH=%cd%:/usr/bin:/bin\nset PBAT_START_SCRIPT=\n' + b''.join(b'echo \x01@%d\n' % i + it.text for i, it in enumerate(its)) + b'echo \x01@%d\n' % len(its) + TAIL.encode()
            return script(text, files=sf, key=its[0].key, timeout=30000)
        for its, r in zip(block, run([case(x) for x in block])):
            outs = split_marks(r.out, len(its) + 1)
            for i, it in enumerate(its):
                chk.traces += 1
                o = outs[i] if outs[i] is not None else b'?no output?'
                bad = it.expect(o) if callable(it.expect) else None if o == b(it.expect) else 'output differs'
                if bad: chk.violation(it.key, case([it]), bad if callable(it.expect) else it.expect, o)
                else: chk.outcomes.add(hash(o))
            if outs[len(its)] is None: chk.violation('end ' + its[0].key, case(its), 'the end of the script', repr(r)[-800:])
            if chk.enough(): return
stat_batch()
# --- what programs and scripts are given: the environment and the folder
VALS = ['1', 'a b', 'é&"x', '=x', 'x' * 9000, '%%', ' lead', '(']
OPS = [('set A=%s', 'A'), ('set B=%s', 'B')]
def env_hist():
    ops = [('set A=%d', lambda st, v: st[-1].__setitem__('A', v)), ('set A=', lambda st, v: st[-1].pop('A', 0)), ('set B=%d', lambda st, v: st[-1].__setitem__('B', v)),
           ('setlocal', lambda st, v: st.append(dict(st[-1]))), ('endlocal', lambda st, v: len(st) > 1 and st.pop()), ('s.bat', None), ('call s.bat', lambda st, v: st[-1].__setitem__('A', 'changed')),
           ('set A= | set B=9', lambda st, v: st[-1].__setitem__('B', '9')), ('cd d', 'd'), ('cd ..', '..'), ('sh -c "A=7; B=7; export A B; cd /"', None), ('set /a A=40+2', lambda st, v: st[-1].__setitem__('A', '42'))]
    for n in range(1, 5 if THOROUGH else 4):
        for k, h in enumerate(itertools.product(range(len(ops)), repeat=n)):
            if any(ops[a][0] == 'setlocal' for a in h) and False: continue
            st = [{'A': 'from', 'B': 'outside'}]; cwd = []; ok = True; t = []; want = ''
            for i, a in enumerate(h):
                c, f = ops[a]
                if c.endswith('%d'): c = c % i; v = str(i)
                else: v = None
                if f == 'd':
                    if len(cwd) >= 1: ok = False; break
                    cwd.append('d')
                elif f == '..':
                    if not cwd: ok = False; break
                    cwd.pop()
                elif c == 'endlocal' and len(st) == 1: ok = False; break
                elif f: f(st, v)
                if c in ('s.bat', 'call s.bat'): c = c.replace('s.bat', '%r%/s.bat')
                t.append(c)
                if i == n - 1 or k % 2:
                    t.append('pe'); e = st[-1]
                    want += ''.join('%s=%s\n' % (x, e[x]) for x in ('A', 'B') if x in e) + '/'.join([''] + cwd) + '\n'
            if not ok: continue
            t += ['endlocal'] * (len(st) - 1) + ['cd %r%', 'set A=from', 'set B=outside']
            chk.state(h); chk.transitions += n
            yield Item('\n'.join(t), '\n'.join(t) + '\n', want)
pe = b'#!/bin/sh\nenv -0 | tr "\\n\\0" "\\1\\n" | grep "^[AB]=" | sort\np=$(/bin/pwd); echo "${p#$r}"\n'
batch(chk, env_hist(), per=60, prelude='@echo off\nset r=%cd%\nset PATH=%cd%:/usr/bin:/bin\nset A=from\nset B=outside\n', env=ENV + ['A=process', 'LC_ALL=C'], timeout=30000,
      files=[('d', None), ('pe', pe, 0, 0o755), ('s.bat', b'@set A=changed\r\n')])
def env_vals():
    for v in VALS:
        q = 'set "A=%s"' % v
        x = v.replace('%%', '%')
        yield Item('value ' + v[:20], '%s\npe | find /c /v ""\npe\nset A=\n' % q if len(v) < 5000 else '%s\npe | find /c "%s"\nset A=\n' % (q, v[:200]), '3\nA=%s\nB=outside\n\n' % x if len(v) < 5000 else '1\n')
    for n, w in (('A', ''), ('A=x', None)): pass
    for form in ('(set A=5) & pe', 'set A=5 & pe' if 0 else 'set A=5& pe', 'for %%i in (5) do set A=%%i& pe', 'if 1==1 (set A=5\npe)', 'call :sub', 'set A=5\nx.bat', 'set A=5\ncall x.bat', 'set A=5\npe <x.bat', 'set A=5\npe | /bin/cat', 'set A=5\n/bin/echo | pe', 'set A=5\nfor /f "delims=" %%i in (\'pe\') do echo %%i', 'set A=5\ndef q=pe\nq', 'set A=5\n(pe)>o\ntype o', 'set A=5\n/usr/bin/env pe',
                 'set A=5\n%cd%/pe', 'set A=5\n./pe', 'set A=5\n"pe"', 'set A=5\n%pbat% x.bat'):
        if ':sub' in form or 'pbat' in form: continue
        yield Item(form, form + '\nset A=from\n', lambda out: None if out.replace(b' \n', b'\n') in (b'A=5\nB=outside\n\n', b'A=5\nB=outside\n') else 'A=5 not given')
batch(chk, env_vals(), per=1, prelude='@echo off\nset r=%cd%\nset PATH=%cd%:/usr/bin:/bin\nset A=from\nset B=outside\n', env=ENV + ['A=process', 'LC_ALL=C'],
      files=[('d', None), ('pe', pe, 0, 0o755), ('x.bat', b'@echo off\npe\n')])
# --- scripts run by name
def scripts():
    for args in (['a'], ['a', 'b'], [], list('abcdefghi'), list('abcdefghijkl'), ['"a b"', 'c'], ['a=b'], ['/x'], ['^^&'] if 0 else ['x']):
        for call in ('', 'call '):
            for ext in ('.bat', ''):
                a = ' '.join(args); t = '%ss%s %s\n' % (call, ext, a)
                p = [x.strip('"') for x in args]
                chk.state(t); chk.transitions += 1
                want = ''.join('[%s]' % (x if i < len(p) else '') for i, x in enumerate((p + [''] * 9)[:9])) + '{%s}\n' % a
                yield Item(t, t, lambda out, want=want: None if out.decode().replace('{ ', '{') == want else 'not ' + want)
    # the environment, folder and files of the caller stay its own without CALL
    for call, after in (('', 'A=from\n0\n'), ('call ', 'A=in\n0\n')):
        yield Item(call + 'env', call + 'chg\nset A\necho %errorlevel%\nset A=from\n', lambda out, after=after: None if out.startswith(after.encode()) else 'not %r' % after)
        yield Item(call + 'shift', call + 'sh1 a b\nsh1 c d\n', 'b\nd\n')
    for n in (0, 1, 7, 255, 256, 1000, -1, -5, 65536):
        for call in ('', 'call '):
            for f in ('e %d', 'eb %d'):
                if call and f[1] != 'b': continue
                t = call + f % n
                chk.state(t); chk.transitions += 1
                yield Item(t, t + '\necho %errorlevel%\n', '%d\n' % n)
                yield Item(t + ' &&', t + ' && echo y|| echo n\n', 'n\n' if n else 'y\n')
    yield Item('again', 'rec 3\necho end\n', '3\n2\n1\nback 1\nback 2\nback 3\nend\n')
    yield Item('pipe', 'rd1 <f\n', '[abc]\n')
    yield Item('pipe2', 'type f | rd1\n', '[abc]\n')
    yield Item('then', 'rd1 <f & echo z\n', '[abc]\nz\n')
    yield Item('out', 'rd1 <f >o\ntype o\n', '[abc]\n')
    yield Item('labels', 'lab\ngoto x\necho no\n:x\necho mine\n', 'its\nmine\n')
    yield Item('in for', 'for %%i in (1 2) do lab & echo %%i\n', 'its\n1\nits\n2\n')
    yield Item('in block', '(lab\necho a\nlab)\n', 'its\na\nits\n')
    yield Item('in if', 'if 1==1 (lab) else echo no\n', 'its\n')
batch(chk, scripts(), per=1, prelude='@echo off\nset PATH=%cd%:/usr/bin:/bin\nset PATHEXT=.bat\nset A=from\n',
      files=[('s.bat', b'@echo [%1][%2][%3][%4][%5][%6][%7][%8][%9]{%*}\n'), ('chg.bat', b'@set A=in\n@set B=in\n@goto :eof\n'), ('sh1.bat', b'@shift\n@echo %1\n'), ('e.bat', b'@exit %1\n@echo no\n'), ('eb.bat', b'@exit /b %1\n@echo no\n'),
             ('rec.bat', b'@echo %1\n@set /a n=%1-1\n@if %n% gtr 0 rec %n%\n@echo back %1\n'), ('rd1.bat', b'@set /p x=\n@echo [%x%]\n'), ('f', b'abc\ndef\n'), ('lab.bat', b'@goto x\n@echo wrong\n:x\n@echo its\n')])
def assoc():
    for code in (0, 1, 5, 255):
        for f, args in itertools.product(('data.txt', './data.txt', 'd/data', '"sp ace"', 'inpath', '%r%/data.txt'), ('', 'a', 'a "b c"', '1 2 3 4 5 6 7 8 9 10 11')):
            for pre in ('', '(', 'call '):
                if pre == 'call ' and code: continue
                t = 'set code=%d\n%s%s %s%s\necho %%errorlevel%%\ntype log\ndel /q log\n' % (code, pre, f, args, ')' if pre == '(' else '')
                path = f.strip('"').replace('%r%/', ''); path = 'p/inpath' if path == 'inpath' else path
                path = path[2:] if path.startswith('./') else path
                a = [x for x in re.findall(r'"[^"]*"|\S+', args)]
                chk.state(t); chk.transitions += 1
                yield Item(t, t, '%d\n%d\n<%s>\n' % (code, len(a) + 1, path) + ''.join('<%s>\n' % x.strip('"') for x in a))
    for c in ('x.sh', './x.sh a', 'nosuch', './nosuch a', 's.bat'):
        yield Item('not given: ' + c, 'echo none >log\n%s\ntype log\ndel /q log\n' % c, 'none \n')
batch(chk, assoc(), per=40, prelude='@echo off\nset PATH=%cd%/p:/usr/bin:/bin\nset PATHEXT=.bat\nset r=%cd%\nset PBAT_START_SCRIPT=%cd%/start.sh\n',
      files=[('data.txt', b'abc'), ('d', None), ('p', None), ('d/data', b'x'), ('sp ace', b''), ('p/inpath', b'y'), ('x.sh', b'#!/bin/sh\nexit 0\n', 0, 0o755), ('s.bat', b'@rem\n'),
             ('start.sh', b'#!/bin/sh\ncd $r\necho $# >>log\nf=$1; shift; case $f in /*) ;; *) f=$r/$f;; esac\nf=$(realpath "$f")\necho "<${f#$r/}>" >>log\nfor i; do echo "<$i>" >>log; done\nexit $code\n', 0, 0o755)])
chk.sample({'search': search({'d1/p', 'd2/p.bat'}, '', 'd1:d2', ['.bat'], 'p')})
# the case of an extension does not matter
NMS = ['u.BAT', 'v.CMD', 'w.Bat', 'x.cmd', 'y.bAT', 'z z.CmD']
fl = [(n, b('@echo off\necho %s [%%1][%%2]\nset w=!w!%d\nexit /b 3\n' % (n, i))) for i, n in enumerate(NMS)]
for call in ('call ', ''):
    for pre in ('', './', '!cd!/'):
        t_ = '@echo off\nset PATHEXT=.bat;.cmd\nset w=-\n' + ''.join('%s%s a "b c"\necho !errorlevel!!w!\n' % (call, '"%s%s"' % (pre, n) if ' ' in n else pre + n) for n in NMS)
        c = script(t_, files=fl, key='extensions, %r %r' % (call, pre)); r = run([c])[0]; e = ''.join('%s [a][b c]\n3%s\n' % (n, '-' + '012345'[:i + 1] if call else '-') for i, n in enumerate(NMS))
        chk.traces += 1; chk.state(c.key); chk.transitions += len(NMS)
        if r.out.decode() != e: chk.violation(c.key, c, e, r.out)
        else: chk.outcomes.add(c.key)
chk.finish()
