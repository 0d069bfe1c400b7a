"""P27: COPY, MOVE and REN: what ends up where."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P27', bounds='COPY and MOVE of every list of 1 and 2 (and of 3 from a shorter list) sources out of 12, with and without +, to every destination out of 12, with /Y and with every sequence of up to 2 answers; '
            '/R of every tree of up to 4 (thorough 5) entries to a new, an existing and a partly overlapping destination; contents of 0 to 3 buffers; every combination of attributes (R, -R, I, -I, -D) with 10 lists of sources; lists of 1 to 11, 62 to 66 and 126 to 130 operands (thorough: up to 513); REN of every pair of names')
F, D, L = 0, 1, 2
BIG = 'BIG!' * 1500
TREE = {'a': (F, 'A1\n', 0), 'b': (F, 'B22', 0), 'c d': (F, 'C\n\nC', 0), 'e': (F, '', 0), 'big': (F, BIG, 0), 'l': (L, 'a', 0), 'r': (F, 'ro', 0o444), 'd': (D, '', 0), 'd/a': (F, 'DA', 0), 'd/x': (F, 'X', 0), 'd2': (D, '', 0), 'd2/b': (F, 'D2B', 0)}
def files(tree): return [(p, c if k != D else None, k, m) for p, (k, c, m) in tree.items()]
def snapshot(r): return {k: (v[0], v[2].decode('latin1') if v[0] != D else '') for k, v in r.tree.items() if k != 't.bat'}
def q(s): return '"%s"' % s if ' ' in s else s
def norm(p): return '/'.join(x for x in p.split('/') if x not in ('', '.'))
class FS:
    def __init__(self, tree): self.t = {p: (k, c) for p, (k, c, m) in tree.items()}; self.ro = {p for p in tree if tree[p][2] == 0o444}
    def real(self, p):
        p = norm(p)
        while p in self.t and self.t[p][0] == L: p = norm(p.rpartition('/')[0] + '/' + self.t[p][1])
        return p
    def isdir(self, p): p = self.real(p); return p == '' or p in self.t and self.t[p][0] == D
    def isfile(self, p): p = self.real(p); return p in self.t and self.t[p][0] == F
    def read(self, p): return self.t[self.real(p)][1]
    def parent(self, p): return self.isdir(norm(p).rpartition('/')[0])
def match(fs, pat):
    if '?' not in pat and '*' not in pat: return [pat] if fs.isfile(pat) else None
    h, _, last = pat.rpartition('/')
    rx = ''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in last)
    l = [p for p in fs.t if p.rpartition('/')[0] == h and re.fullmatch(rx, p.rpartition('/')[2], re.S)]
    return l or None
class Bad(Exception): pass
def put(fs, src, dst, cat, err, keep=False):
    """Writes src into dst; cat: append."""
    d = fs.real(dst)
    if fs.isdir(dst) or not fs.parent(dst) or dst.endswith('/') or d in fs.ro: err.append('open'); return
    if d not in fs.t and not keep and fs.real(src) in fs.ro: fs.ro.add(d)
    old = fs.t[d][1] if cat and d in fs.t else ''
    fs.t[d] = (F, old + fs.read(src))
    return True
def model(tree, verb, srcs, plus, dst, yes, answers, order):
    """The files afterwards, whether there is an error, questions asked.  order: permutation key for what patterns give."""
    fs = FS(tree); err = []; asked = 0; lst = []
    for s in srcs:
        m = match(fs, s)
        if m is None: return fs.t, True, 0
        lst += sorted((p for p in m if not fs.isdir(p)), reverse=bool(order))
    folder = fs.isdir(dst) or dst.endswith('/')
    answers = list(answers)
    def ask(d):
        nonlocal yes, asked
        if yes or not fs.isfile(d): return True
        asked += 1
        a = answers.pop(0) if answers else 'n'
        if a == 'a': yes = True
        return a in 'ya'
    base = lambda s: norm(s).rpartition('/')[2]
    if verb == 'copy':
        if plus or len(lst) > 1 and not folder:
            for s in lst[1:]:
                if fs.isfile(dst) and fs.real(s) == fs.real(dst): return fs.t, True, 0
            first = True
            for s in lst:
                if first and not ask(dst): 
                    # refused: asked again for the next one; nothing happens if nobody ever agrees
                    if any(a in 'ya' for a in answers): raise Bad
                    return fs.t, False, None
                if fs.isfile(dst) and fs.real(s) == fs.real(dst): first = False; continue
                if put(fs, s, dst, not first, err, True): pass
                first = False
        else:
            for s in lst:
                d = norm(dst) + '/' + base(s) if folder else dst
                if norm(dst) == '' and folder: d = base(s)
                if not ask(d): continue
                if folder and not fs.isdir(dst): err.append('no folder'); continue
                if fs.real(s) == fs.real(d): err.append('itself'); continue
                put(fs, s, d, False, err)
    else:
        folder = folder or len(lst) > 1
        for s in lst:
            d = (norm(dst) + '/' + base(s) if norm(dst) else base(s)) if folder else dst
            if folder and not fs.isdir(dst):
                if fs.isfile(dst): err.append('not a folder'); continue
                err.append('no folder'); continue
            if not ask(d): continue
            s, d = norm(s), norm(d)
            if not fs.parent(d) or s not in fs.t: err.append('gone'); continue
            if fs.isdir(d): err.append('a folder'); continue
            if s != d:
                fs.t[d] = fs.t.pop(s); fs.ro.discard(d)
                if s in fs.ro: fs.ro.add(d); fs.ro.discard(s)
    return fs.t, bool(err), asked
SRC = ['a', 'b', 'c d', 'e', 'big', 'l', 'r', 'd/a', 'd/x', './a', 'nosuch', 'd/*', '?', 'b*']
DST = ['new', 'b', 'a', 'd', 'd/', 'd2', './d2/', 'nod/', 'd/new', 'nod/new', '.', 'c d', 'r', 'l']
def todo():
    for verb in ('copy', 'move'):
        for dst in DST:
            for n in (1, 2, 3):
                for srcs in itertools.product(SRC if n < 3 else ('a', 'b', 'd/a', 'big', 'e') + (('c d', 'd/*') if THOROUGH else ()), repeat=n):
                    for plus in (False, True) if n > 1 and verb == 'copy' else (False,):
                        ans = [None] + ([()] if n == 2 else [(), ('y',), ('n',), ('a',), ('y', 'n'), ('n', 'y'), ('n', 'a'), ('y', 'y')] if n == 1 else [])
                        if n == 2 and {'d/*', '?', 'b*'} & set(srcs): ans = [None]
                        elif n == 2 and (THOROUGH or 'nosuch' not in srcs and srcs[0] != 'l'): ans += [('y',), ('n', 'y'), ('y', 'n'), ('a',)]
                        for a in ans: yield verb, srcs, plus, dst, a
def run_all():
    for ch in chunks(todo(), 6000):
        cs = []; k = 0
        for verb, srcs, plus, dst, a in ch:
            k += 1
            sep = ' + ' if plus else (' ', ', ', '  ')[k % 3]
            sw = (' /Y' if k % 2 else ' /-y /y') if a is not None and False else ''
            if a is None: sw = ' /Y' if k % 2 else ' /-y /y'
            elif k % 2: sw = ' /y /-Y'
            cs.append(script('@echo off\n%s%s %s %s\necho [!errorlevel!]\n' % (verb.upper() if k % 3 == 0 else verb, sw, sep.join(map(q, srcs)), q(dst)), files=files(TREE), snap=True,
                             stdin=''.join(x + '\n' for x in a or ()).encode()))
        for (verb, srcs, plus, dst, a), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(srcs)
            alts = []
            for order in (0, 1) if len({'d/*', '?', 'b*'} & set(srcs)) else (0,):
                try: alts.append(model(TREE, verb, srcs, plus, dst, a is None, a or (), order))
                except Bad: pass
            got = snapshot(r); err = b'[0]' not in r.out; asked = r.err.count(b'(yes/No/all)')
            chk.state((verb, tuple(sorted(got.items()))))
            if not alts or dst in 'abe' and '?' in srcs or dst in ('r', 'l') and '?' in srcs or dst == 'b' and 'b*' in srcs: continue
            multi = any(x in ('d/*', '?', 'b*') for x in srcs)
            if multi and (verb == 'move' or plus or True):
                # the order in which a pattern gives its files is free: compare what does not depend on it
                def pieces(t): return {p: (k, ''.join(sorted(v))) for p, (k, v) in t.items()}
                ok = any(pieces(t) == pieces(got) and e == err for t, e, n in alts)
            else: ok = any(t == got and e == err and n in (asked, None) for t, e, n in alts)
            if not ok: chk.violation('%s%s %s %s answers %r' % (verb, ' /Y' if a is None else '', (' + ' if plus else ' ').join(map(q, srcs)), q(dst), a), c, ({k: v for k, v in alts[0][0].items() if got.get(k) != v}, alts[0][1:]), ({k: v for k, v in got.items() if alts[0][0].get(k) != v}, r.out, r.err[-300:], asked))
            else: chk.outcomes.add((verb, tuple(sorted(got.items())), err, asked))
        if chk.enough(): return
run_all()
# --- whole trees
def trees(n):
    def go(tree, left, last):
        if len(tree) > 6 or left != n: yield tree
        if not left: return
        dirs = [p for p in tree if tree[p][0] == D and (p == 's' or p.startswith('s/'))]
        for i, d in enumerate(dirs):
            for j in range(3):
                if (i, j) < last: continue
                k = len(tree); name = d + '/' + ('f%d' % k, 'g %d' % k, 'd%d' % k)[j]
                yield from go({**tree, name: ((F, 'c%d' % k, 0), (F, '', 0), (D, '', 0))[j]}, left - 1, (i, j))
    yield from go({'s': (D, '', 0), 'o': (D, '', 0), 'o/s': (D, '', 0), 'o/f5': (F, 'old', 0), 'o/s/f5': (F, 'old2', 0)}, n, (0, 0))
def under(t, d): return [p for p in t if p.startswith(d + '/')]
def tree_model(tree, verb, src, dst, ans):
    """(files, questions, entries that may be left of the source), None: the case is not specified"""
    t = {p: (k, c) for p, (k, c, m) in tree.items()}
    if src in ('s', './s'): strip, lst = 0, under(t, 's')
    elif src in ('s/', 's/*'): strip, lst = 2, under(t, 's')
    elif src == 's/f*': strip, lst = 2, [p for p in under(t, 's') if p.rsplit('/', 1)[1].startswith('f')]
    else:                       # one file
        strip = src.rfind('/') + 1; lst = [src]
    if not lst: return None
    dst = norm(dst); asked = 0
    def mkdirs(p):
        q = ''
        for x in p.split('/'):
            q = q + '/' + x if q else x
            t.setdefault(q, (D, ''))
    for p in lst:
        if t[p][0] == D: mkdirs(dst + '/' + p[strip:])
    every = ans is None; refuse = ans == 'n'
    for p in lst:
        if t[p][0] != F: continue
        d = dst + '/' + p[strip:]
        mkdirs(d.rpartition('/')[0])
        if d in t and not every:
            asked += 1
            if ans == 'a': every = True
            if refuse: continue
        t[d] = t[p]
        if verb == 'move' and d != p: del t[p]
    may = set()
    if verb == 'move':
        for p in sorted((p for p in lst if p in t and t[p][0] == D), key=lambda p: -p.count('/')):
            if not under(t, p): del t[p]
        may = {'s'}
        if src == 's/f*': may |= {p for p in tree if tree[p][0] == D}
    return t, asked, may
def rec():
    k = 0
    for tree in trees(5 if THOROUGH else 4):
        one = [p for p in under(tree, 's') if tree[p][0] == F][-1:]
        for verb in ('copy', 'move'):
            for src in ['s', 's/', './s', 's/*', 's/f*'] + one:
                for dst in ('new', 'o', 'n/m/', './o/', 's/in'):
                    if dst == 's/in' and verb == 'move': continue
                    k += 1
                    if len(tree) > 7 and not THOROUGH and k % 3: continue
                    for ans in (None, 'n', 'a') if dst[0] in 'o.' and k % 2 else (None,):
                        yield verb, tree, src, dst, ans
def run_rec():
    for ch in chunks(rec(), 6000):
        cs = [script('@echo off\n%s /R%s %s %s\necho [!errorlevel!]\n' % (verb, ' /y' if ans is None else '', q(src), dst), files=files(tree), snap=True, stdin=b'' if ans is None else (ans + '\n').encode() * 5)
              for verb, tree, src, dst, ans in ch]
        for (verb, tree, src, dst, ans), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(tree)
            m = tree_model(tree, verb, src, dst, ans); got = snapshot(r); err = b'[0]' not in r.out; asked = r.err.count(b'(yes/No/all)')
            chk.state((verb, tuple(sorted(got))))
            if m is None:
                if got != {p: (k, c_) for p, (k, c_, m_) in tree.items()} and not (verb == 'move' and 's' not in got): chk.violation('%s /R %s %s (nothing to do) in %s' % (verb, src, dst, sorted(tree)), c, 'nothing changes', sorted(got), r.err[-300:])
                continue
            t, n, may = m
            drop = lambda x: {p: v for p, v in x.items() if not (p in may and v[0] == D)}
            if drop(t) != drop(got) or err or n != asked: chk.violation('%s /R %s %s answer %r in %s' % (verb, src, dst, ans, ' '.join(sorted(under(tree, 's')))), c, (sorted(t), n), (sorted(got), r.out, r.err[-300:], asked))
            else: chk.outcomes.add((verb, dst, tuple(sorted(got))))
        if chk.enough(): return
run_rec()
# --- contents of any length: one by one, and concatenated
def lengths():
    ls = sorted(set(range(0, 4)) | {a + b for a in (512, 2048, 4096, 6144) for b in (-1, 0, 1)})
    for a in ls:
        for b_ in [None] + ls:
            yield a, b_
def run_len():
    mk = lambda n, k: bytes((i * 7 + i // 251 + k) % 256 for i in range(n))
    todo = list(lengths())
    cs = [script('@echo off\ncopy /y x z\n' if b_ is None else '@echo off\ncopy /y x + y z\n', files=[('x', mk(a, 0)), ('y', mk(b_ or 0, 5)), ('z', b'zz')], snap=True) for a, b_ in todo]
    for (a, b_), c, r in zip(todo, cs, run(cs)):
        chk.traces += 1; chk.transitions += 1
        e = mk(a, 0) + (mk(b_, 5) if b_ is not None else b'')
        if r.tree['z'][2] != e or r.tree['x'][2] != mk(a, 0): chk.violation('copy of %d bytes + %s' % (a, b_), c, len(e), len(r.tree['z'][2]), r.err[-200:])
run_len()
# --- any number of operands
def many():
    for n in list(range(1, 12)) + [62, 63, 64, 65, 66, 126, 127, 128, 129, 130] + ([255, 256, 257, 512, 513] if THOROUGH else []):
        names = ['f%d' % i if i % 7 else 'f %d' % i for i in range(n)]
        full = {x: (F, 'c%d;' % i, 0) for i, x in enumerate(names)}
        to = {**full, 'o': (D, '', 0)}; dirs = {}
        for i in range(n): dirs['d%d' % i] = (D, '', 0); dirs['d%d/g%d' % (i, i)] = (F, str(i), 0)
        w = ' '.join(map(q, names)); st = lambda t, *a: {**{p: (k, c) for p, (k, c, m) in t.items()}, **dict(a)}
        inside = [('o/' + x, (F, full[x][1])) for x in names]
        yield to, 'copy %s o' % w, st(to, *inside)
        yield to, 'copy /y %s o/' % w, st(to, *inside)
        yield to, 'move %s o' % w, {'o': (D, ''), **dict(inside)}
        yield to, 'copy %s new' % w if n > 1 else 'copy /y %s new' % w, st(to, ('new', (F, ''.join(full[x][1] for x in names))))
        yield to, 'copy %s new' % ' + '.join(map(q, names)), st(to, ('new', (F, ''.join(full[x][1] for x in names))))
        for v in ('copy', 'move'):
            e = {'o': (D, '')} if v == 'move' else st({**dirs, 'o': (D, '', 0)})
            for i in range(n): e['o/d%d' % i] = (D, ''); e['o/d%d/g%d' % (i, i)] = (F, str(i))
            yield {**dirs, 'o': (D, '', 0)}, '%s /r %s o' % (v, ' '.join('d%d' % i for i in range(n))), e
def run_many():
    todo = list(many())
    cs = [script('@echo off\n%s\necho [!errorlevel!]\n' % t, files=files(tree), snap=True) for tree, t, e in todo]
    for (tree, t, e), c, r in zip(todo, cs, run(cs)):
        chk.traces += 1; chk.transitions += len(tree); got = snapshot(r)
        if t.startswith('move /r'): got = {p: v for p, v in got.items() if not (v[0] == D and p[0] == 'd')}
        if got != e or b'[0]' not in r.out: chk.violation('%s (%d entries)' % (t[:60], len(tree)), c, sorted(set(e.items()) - set(got.items()))[:5], (sorted(set(got.items()) - set(e.items()))[:5], r.out, r.err[-300:]))
        else: chk.outcomes.add((t[:10], len(tree)))
run_many()
# --- only files with some attributes
def attrs():
    T = {'a': (F, 'A', 0), 'r': (F, 'R', 0o444), 'e': (F, '', 0), 'er': (F, '', 0o444), 'l': (L, 'r', 0), 'o': (D, '', 0)}
    S = {('s/' + p if p != 'o' else 's/d'): v for p, v in T.items()} | {('s/d/' + p): v for p, v in T.items() if v[0] == F}
    T = {**T, 's': (D, '', 0), **S}
    def tgt(p): return T['r'] if T[p][0] == L else T[p]
    def fits(p, spec):
        neg = False
        for ch in spec.upper():
            if ch == '-': neg = True; continue
            k, c, m = tgt(p)
            if {'R': m == 0o444, 'I': c == '', 'D': False}[ch] == neg: return False
            neg = False
        return True
    every = [''.join(x) for n in (1, 2, 3) for x in itertools.permutations(['R', '-R', 'I', '-I', '-D'], n) if len({y[-1] for y in x}) == n]
    for i, spec in enumerate(every):
        sw = ('/A:', '/a', '/a:', '/A')[i % 4] + (spec if i % 3 else spec.lower())
        for verb in ('copy', 'move'):
            for srcs in (['a', 'r', 'e', 'er'], ['r'], ['a'], ['er', 'l'], ['s/*'], ['s/?']):
                lst = [p for x in srcs for p in ([y for y in S if y.count('/') == 1 and T[y][0] != D and (x == 's/*' or len(y) == 3)] if '?' in x or '*' in x else [x])]
                yield T, '%s /y %s %s o' % (verb, sw, ' '.join(srcs)), verb, [(p, 'o/' + p.rpartition('/')[2]) for p in lst if fits(p, spec)]
                yield T, '%s %s %s o/' % (verb, ' '.join(srcs), sw), verb, [(p, 'o/' + p.rpartition('/')[2]) for p in lst if fits(p, spec)]
            for src, k in (('s', 0), ('s/', 2), ('s/*', 2), ('s/d', 2)):
                lst = [p for p in S if T[p][0] == F and p.startswith(src.rstrip('*/') + '/')]
                yield T, '%s /r %s %s o' % (verb, sw, src), verb, [(p, 'o/' + p[k:]) for p in lst if fits(p, spec)]
def run_attrs():
    todo = list(attrs())
    cs = [script('@echo off\n%s\necho [!errorlevel!]\n' % t, files=files(tree), snap=True) for tree, t, v, l in todo]
    for (tree, t, v, l), c, r in zip(todo, cs, run(cs)):
        chk.traces += 1; chk.transitions += len(tree); e = {}
        base = FS(tree).t
        for p, x in base.items():
            if x[0] != D: e[p] = x
        l = [(p, d) for p, d in l if not (v == 'move' and base[p][0] == L and '/r' in t)]
        for p, d in l:
            e[d] = base[p] if v == 'move' else (F, FS(tree).read(p))
            if v == 'move': del e[p]
        got = {p: x for p, x in snapshot(r).items() if x[0] != D}
        if '/r' in t: e, got = ({p: x for p, x in y.items() if not p.endswith('/l') and p != 'l'} for y in (e, got))    # links below a folder: see the trees above
        if got != e or b'[0]' not in r.out: chk.violation(t, c, sorted(set(e.items()) - set(got.items()))[:5], (sorted(set(got.items()) - set(e.items()))[:5], r.out, r.err[-300:]))
        else: chk.outcomes.add((t[:10], tuple(sorted(got))))
run_attrs()
# --- REN
def ren():
    N = ['a', 'b', 'c d', 'd', 'd/a', 'new', 'n.w x', 'l', 'r', 'd/x', 'nosuch', 'e']
    W = ['a', 'b', 'c d', 'd', 'new', 'n.w x', 'x', 'q/z', 'l', '.h', 'a&b', 'd2']
    for s, w in itertools.product(N, W): yield s, w
def run_ren():
    todo = list(ren())
    cs = [script('@echo off\n%s %s %s\necho [!errorlevel!]\n' % ('ren' if i % 2 else 'RENAME', q(s), q(w) if '&' not in w else '"%s"' % w), files=files(TREE), snap=True) for i, (s, w) in enumerate(todo)]
    for (s, w), c, r in zip(todo, cs, run(cs)):
        chk.traces += 1; chk.transitions += 1
        t = {p: (k, v) for p, (k, v, m) in TREE.items()}; got = snapshot(r); err = b'[0]' not in r.out
        d = (s.rpartition('/')[0] + '/' if '/' in s else '') + w
        if s not in t or '/' in w or d in t and d != s: e = True
        else:
            e = False
            for p in [s] + under(t, s): t[d + p[len(s):]] = t.pop(p)
        chk.state(('ren', tuple(sorted(got))))
        if got != t or e != err: chk.violation('ren %s %s' % (s, w), c, (sorted(t), e), (sorted(got), r.out, r.err[-200:]))
        else: chk.outcomes.add(('ren', tuple(sorted(got))))
run_ren()
chk.sample({'copy /Y a "c d" d2': {k: v for k, v in model(TREE, 'copy', ('a', 'c d'), False, 'd2', True, (), 0)[0].items() if k.startswith('d2')}})
chk.sample({'copy a + b new': model(TREE, 'copy', ('a', 'b'), True, 'new', False, (), 0)[0]['new']})
chk.finish()
