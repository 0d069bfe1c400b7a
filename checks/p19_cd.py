"""P19: the current folder and the folder stack: CD, PUSHD, POPD, MD, %CD%, and what commands and programs see."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P19', bounds='every history of up to 3 (thorough: 4 over a part) operations out of 65 (CD, PUSHD of one to three folders, POPD, MD, RD; in blocks, procedures, IF, FOR, pipes, redirections) '
            'in a tree with links, blanks and files, in a used process; every history of 2 in a fresh one; every path of up to 4 (thorough 5) components out of 8 from 4 folders; PUSHD/POPD to depth 40')
DIRS = {'': None, 'a': None, 'a/b': None, 'a/b/c': None, 'a/x': None, 'x y': None, 'x y/a': None, 'b': None, '...': None, 'a/...': None, '..a': None, '.b': None, 'a..': None, 'b.': None, '.../..a': None}
LINKS = {'l': 'a/b', 'a/u': '..', 'x y/d': '../a/x', 'k': 'nosuch'}
FILES = {'f', 'a/f'}
SETUP = [(d, None) for d in DIRS if d] + [(l, t, 2, 0) for l, t in LINKS.items()] + [(f, 'F') for f in FILES] + \
    [((d + '/' if d else '') + 'm', 'in <%s>\n' % d) for d in DIRS]
# ---- the model: a folder tree, the current folder (by name), the stack
class Out(Exception): "The path leaves the scratch folder, which is not modelled."
def physical(dirs, path, depth=0):
    """The folder a path (list of names from the scratch folder; 'UP' beyond it is not modelled) leads to, or None."""
    cur = []
    path = list(path)
    n = 0
    while path:
        c = path.pop(0)
        if c in ('', '.'): continue
        if c == '..':
            if not cur: raise Out
            cur.pop(); continue
        p = '/'.join(cur + [c])
        if p in LINKS:
            n += 1
            if n > 20: return None
            path = LINKS[p].split('/') + path; continue
        if p not in dirs: return None
        cur.append(c)
    return '/'.join(cur)
def go(st, path):
    """The state after CD path, or None if it fails."""
    cwd, stack, dirs = st
    full = [] if path.startswith('$') else list(cwd)
    full += [x for x in path.lstrip('$').split('/')]
    if physical(dirs, full) is None: return None
    out = []
    for c in full:
        if c in ('', '.'): continue
        if c == '..':
            if not out: raise Out
            out.pop()
        else: out.append(c)
    if physical(dirs, out) is None: return None
    return tuple(out), stack, dirs
def name(st): return '$' + ''.join('/' + c for c in st[0])
def cd(path, text=None):
    def f(st):
        n = go(st, path)
        return (n, '', 0) if n else (st, '', 1)
    return text or 'cd ' + path.replace('$', '!r!'), f
def pushd(*paths, text=None):
    def f(st):
        for p in paths:
            n = go(st, p)
            if not n: return st, '', 1
            st = (n[0], st[1] + (st[0],), st[2])
        return st, '', 0
    return text or 'pushd ' + ' '.join(('"%s"' if ' ' in p else '%s') % p.replace('$', '!r!') for p in paths), f
def popd(st):
    if not st[1]: return st, '', 1
    t = st[1][-1]
    n = go((st[0], st[1], st[2]), '$/' + '/'.join(t))
    if not n: return None                      # its folder is gone: what remains on the stack is not specified
    return (n[0], st[1][:-1], st[2]), '', 0
def show(st): return st, ''.join('$' + ''.join('/' + c for c in d) + '\n' for d in reversed(st[1])), 0
def md(*names):
    def f(st):
        for n in names:
            at = physical(st[2], st[0])
            if at is None: return None
            cur = [c for c in at.split('/') if c]
            for c in n.split('/'):
                if c in ('', '.'): continue
                if c == '..':
                    if not cur: raise Out
                    cur.pop(); continue
                p = '/'.join(cur + [c])
                if p in FILES: return st, '', 1
                if p in LINKS:
                    t = physical(st[2], p.split('/'))
                    if t is None: return st, '', 1
                    cur = [c for c in t.split('/') if c]; continue
                st = (st[0], st[1], st[2] | {p}); cur.append(c)
        return st, '', 0
    return 'md ' + ' '.join('"%s"' % n if ' ' in n else n for n in names), f
def rd(n):
    def f(st):
        at = physical(st[2], st[0])
        if at is None: return None
        p = (at + '/' if at else '') + n
        if p in DIRS or p in LINKS or p in FILES or p not in st[2]: return st, '', 1
        if any(d.startswith(p + '/') for d in st[2]): return st, '', 1
        return (st[0], st[1], st[2] - {p}), '', 0
    return 'rd ' + n, f
def clone(op):
    """An operation in a copy of the interpreter: folders it creates stay, its current folder does not."""
    return lambda st: (lambda r: r and ((st[0], st[1], r[0][2]), r[1], 0))(op[1](st))
def seq(*ops):
    def f(st):
        out = ''
        for o in ops:
            r = o(st)
            if r is None: return None
            st, w, e = r; out += w
        return st, out, e
    return f
OPS = [cd(p) for p in ('a', 'b', 'a/b', '..', '../..', '.', 'l', 'l/..', 'u', 'd', 'x y', 'nosuch', 'f', 'm', 'a/', './/a/./b//', 'a/../x y', '../b', 'c/../..', 'l/c', 'k', '$', '$/a', '$/x y/d', '$/l/../b', '$/a/nosuch', 'nosuch/..', '...', '.../..a', '../...', '.../..', '..a', '..a/..', '.b', './.b', '.b/.', 'a..', 'a../..', 'b.', 'b./..', '....', '../..a')]
OPS += [cd('x y', 'cd "x y"'), cd('x y/a', 'chdir "x y/a"  '), cd('a', 'cd   a  '), cd('..', 'chdir ..'), cd('q/r'), cd('q')]
OPS += [('cd', lambda st: (st, name(st) + '\n', 0)), ('pushd', show), ('popd', popd)]
OPS += [pushd(*p) for p in (('a',), ('..',), ('x y',), ('b', '..'), ('$/a', 'nosuch'), ('nosuch', 'a'), ('l', 'c', '..'), ('$/a', '$/x y', '$'), ('.',))]
OPS += [md('q'), md('q/r', 'q/s'), md('f/z'), md('a/b/c/t', '../q'), md('l/q'), rd('q'), rd('q/r')]
A, B = cd('a')[1], cd('b')[1]
WRAP = [('(cd a & cd b)', seq(A, B)), ('if exist m cd a', A), ('call :sub', seq(pushd('a')[1], cd('b')[1])),
        ('(cd a & pushd b) | set z=1', lambda st: (st, '', 0)), ('md q | cd a', lambda st: seq(md('q')[1], A)(st)),
        ("for /f \"delims=\" %%i in ('cd a & cd') do echo %%i", lambda st: (st, name((A(st)[0])) + '\n', 0)),
        ('for %%i in (a b) do cd %%i', seq(A, B)), ('cd a>nul && cd b', lambda st: seq(A, B)(st) if A(st)[2] == 0 else A(st)),
        ('cd a || cd b', lambda st: A(st) if A(st)[2] == 0 else B(st)), ('setlocal & cd a & cd ..', None)]
WRAP = [w for w in WRAP if w[1]]
# only FOR and pipes hide the status: it is not observed after them
NOSTAT = {t for t, f in WRAP if t.startswith(('for', 'md q |', '(cd a & pushd', 'if'))}
ALL = OPS + WRAP
ERRLESS = 'cd '
def see(st): return '%s|' % name(st)
LOOK = 'echo !cd!^|\ntype m\n'
def looked(st):
    at = physical(st[2], st[0])
    return see(st) + '\n' + ('in <%s>\n' % at if at in DIRS else '')
def history(ops, start):
    """Batch text, expected output and end state; None if it leaves what is specified."""
    st = start; t = ''; e = ''
    for text, f in ops:
        try:
            r = f(st)
            if r is None or physical(r[0][2], r[0][0]) is None: return None
        except Out: return None
        st, out, err = r
        stat = text not in NOSTAT
        t += text + '\n' + ('set x=!errorlevel!\n' if stat else '') + LOOK + ('if not "!x!"=="0" echo E\n' if stat else '')
        e += out + looked(st) + ('E\n' if err and stat else '')
        chk.state((st[0], st[1], tuple(sorted(set(st[2]) - set(DIRS))))); chk.transitions += 1
    return t, e, st
END = '/bin/pwd\nfor %%i in (m) do echo %%~fi\npushd\necho 1>o\nif exist "!cd!/o" echo ok\ndel o\n'
def ended(st):
    at = physical(st[2], st[0]); lst = show(st)[1]
    return '$' + ('/' + at if at else '') + '\n' + name(st) + '/m\n' + lst + 'ok\n'
START = ((), (), frozenset(DIRS))
CLEAN = 'cd !r!\n' + 'popd\n' * 12 + 'cd !r!\n'
def wipe(st):
    extra = sorted(set(st[2]) - set(DIRS))
    return 'cd !r!\n' + ''.join('rd /s /q "!r!/%s"\n' % d for d in extra if not any(d.startswith(o + '/') for o in extra))
def judge(e):
    def v(out):
        o = out.decode('utf8').split('\n', 1)
        if len(o) != 2: return 'no output'
        got = o[1].replace(o[0], '$')
        return None if got == e else 'expected %r got %r' % (e, got)
    return v
TAIL = 'exit\n:sub\npushd a\ncd b\ngoto :eof\n'
PRE = '@echo off\nset r=!cd!\n'
def fresh(ops):
    h = history(ops, START)
    if not h: return None
    t, e, st = h
    return script(PRE + 'echo !r!\n' + t + END + TAIL, files=SETUP, key=' & '.join(o[0] for o in ops)), judge(e + ended(st))
def runfresh(hs):
    for cs in chunks((c for c in map(fresh, hs) if c), 2000):
        for (c, v), r in zip(cs, run([c[0] for c in cs])):
            chk.traces += 1; bad = v(r.out) if r.status == 0 else 'status %d' % r.status
            if bad: chk.violation(c.key, c, bad, r.out)
            else: chk.outcomes.add(hash(r.out))
        if chk.enough(): return
for d in (1, 2): runfresh(itertools.product(ALL, repeat=d))
def used(d, ops):
    for i, h in enumerate(itertools.product(*ops)):
        x = history(h, START)
        if not x: continue
        t, e, st = x
        yield Item(' & '.join(o[0] for o in h), CLEAN + 'echo !r!\n' + t + 'pushd\n' + wipe(st), judge(e + show(st)[1]))
def usedbatch(items, per=60):
    """Like batch(), with the procedure of the histories behind the last mark."""
    for block in chunks(chunks(items, per), 400):
        if chk.enough(): return
        cases = []
        for its in block:
            t = PRE + ''.join('echo \x01@%d\n' % i + it.text.decode() for i, it in enumerate(its)) + 'echo \x01@%d\n' % len(its) + TAIL
            cases.append(script(t, files=SETUP, key=its[0].key, timeout=20000))
        for its, c, r in zip(block, cases, run(cases)):
            outs = split_marks(r.out, len(its) + 1)
            for it, o in zip(its, outs):
                chk.traces += 1; bad = it.expect(o) if o is not None else 'no output'
                if bad: chk.violation(it.key, c, bad, o)
                else: chk.outcomes.add(hash(o))
CORE = [o for o in ALL if o[0] in ('cd a', 'cd ..', 'cd l', 'cd l/..', 'cd x y', 'cd nosuch', 'popd', 'pushd a', 'pushd b ..', 'pushd !r!/a nosuch', 'pushd l c ..', 'md q', 'rd q', 'cd q', 'call :sub', '(cd a & pushd b) | set z=1', 'for %%i in (a b) do cd %%i')]
if THOROUGH:
    usedbatch(used(3, [ALL] * 3)); usedbatch(used(4, [CORE] * 4))
else:
    usedbatch(used(3, [CORE, ALL, ALL])); usedbatch(used(4, [CORE[::2]] * 4))
# every path
COMP = ['a', 'b', '..', '.', '', 'l', 'u', 'x y', '...'] if THOROUGH else ['a', 'b', '..', '.', '', 'l', 'u', '...']
def paths():
    for start in ((), ('a',), ('l',), ('a', 'b', 'c')):
        for n in range(1, 6 if THOROUGH else 5):
            for p in itertools.product(COMP, repeat=n):
                if n == 5 and ('.' in p or '' in p): continue
                s = '/'.join(p)
                for pre in ('', '$/'):
                    q = pre + s
                    if pre == '' and (s.startswith('/') or not s): continue
                    st = (start, (), frozenset(DIRS)); t = ('/'.join(('!r!',) + start))
                    # paths which leave the scratch folder are below
                    try: r = go(st, q)
                    except Out: continue
                    chk.state((start, q)); chk.transitions += 1
                    yield Item('cd from /%s to %s' % ('/'.join(start), q), 'cd %s\necho !r!\ncd "%s"\nset x=!errorlevel!\n%sif not "!x!"=="0" echo E\n' % (t, q.replace('$', '!r!'), LOOK),
                               judge(looked(r or st) + ('' if r else 'E\n')))
batch(chk, paths(), per=250, prelude=PRE, files=SETUP)
# paths around the root, compared with normpath
def roots():
    for n in range(1, 5):
        for p in itertools.product(['..', '.', 'dev', 'shm', ''], repeat=n):
            q = '/' + '/'.join(p)
            if q.startswith('//'): continue
            ex = os.path.normpath(q); ok = os.path.isdir(q) and os.path.isdir(ex)
            yield Item('cd ' + q, 'cd /usr\ncd %s\nset x=!errorlevel!\necho !cd!\nif not "!x!"=="0" echo E\n' % q, (ex if ok else '/usr') + '\n' + ('' if ok else 'E\n'))
            chk.state(('root', q)); chk.transitions += 1
batch(chk, roots(), per=100)
# a deep stack
def deep():
    for n in range(0, 41):
        seqd = [('a', 'b', 'c', '..', '..', 'x', '..', '..', 'x y', '..')[i % 10] for i in range(n)]
        for inclone in (0, 1):
            t = 'echo !r!\n'; st = START; e = ''
            for d in seqd: t += 'pushd "%s"\n' % d; st = pushd(d)[1](st)[0]
            if inclone: t += '(popd & popd & pushd a & pushd) | set z=1\n(popd & popd & pushd "!r!/a" & pushd) > nul\n'; e += ''
            if inclone:
                for o in (popd, popd, pushd('$/a')[1]): st = o(st)[0]
            t += 'pushd\n'; e += show(st)[1]
            while True:
                t += 'popd\nset x=!errorlevel!\necho !cd!^|\nif not "!x!"=="0" echo E\n'; r = popd(st); st = r[0]; e += see(st) + '\n' + ('E\n' if r[2] else '')
                if r[2]: break
            yield Item('%d times PUSHD%s' % (n, ', then in a pipe' if inclone else ''), CLEAN + t, judge(e)); chk.transitions += 2 * n; chk.state(('deep', n, inclone))
batch(chk, deep(), per=1, prelude=PRE, files=SETUP)
chk.sample({'history': ['pushd l c ..', 'cd ..', 'popd'], 'folders': ['$/l', '$', '$/l/c']})
chk.finish()
