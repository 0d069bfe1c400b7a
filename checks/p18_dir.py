"""P18: DIR lists exactly the files and folders which the pattern, the attributes and /S name."""
import sys, itertools, posixpath, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P18', bounds='every pattern of up to 4 (thorough 5) characters over {a b . * ?} over a folder of every name of up to 3 characters over {a b .}; every pattern of up to 3 levels out of 15 tokens from '
            '9 starting points, with and without /S, over a tree with links and folders that cannot be read; every tree of up to 4 (thorough 5) nodes under 20 patterns; every set of attributes in every spelling; full listings')
# --- what a token matches: 0 it does not, 2 it does, 1 not specified (the search is documented not to backtrack)
def glob(pat, name):
    pat, name = pat.lower(), name.lower()
    p = re.sub(r'[*?]*\*[*?]*', '*', pat)
    if not re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p), name, re.S): return 0
    if re.search(r'\*\*?\?', pat): return 1
    p = re.sub(r'\*+', '*', pat)           # ?* is documented to be like *, and asks for a character in fact: both do
    i = j = 0
    while i < len(p):
        if p[i] == '*':
            if i + 1 == len(p): return 2
            while j < len(name) and name[j] != p[i + 1]: j += 1
        elif j < len(name) and p[i] in ('?', name[j]): j += 1
        else: return 1
        i += 1
    return 2 if j == len(name) else 1
class Tree:
    """Paths -> 'd' a folder, 'f' a file, 'l' a link to a file or to nothing, 'L' a link to a folder, 'x' a folder that cannot be read"""
    def __init__(self, nodes, links={}):
        self.n, self.links = nodes, links
        self.kids = {}
        for p in nodes: self.kids.setdefault(posixpath.dirname(p), []).append(posixpath.basename(p))
    def real(self, d):
        """Where a folder really is (links to folders anywhere in it are followed)"""
        cur = ''
        for c in [x for x in d.split('/') if x not in ('', '.')]:
            if c == '..': cur = posixpath.dirname(cur); continue
            cur = (cur + '/' + c).strip('/')
            if self.n.get(cur) == 'L': cur = self.links[cur]
            elif self.n.get(cur) not in ('d', 'x'): return None
        return cur
    def type(self, d, name):
        return self.n.get((self.real(d) + '/' + name).strip('/'))
    def list(self, d):
        r = self.real(d)
        return [] if r is None or self.n.get(r) == 'x' else self.kids.get(r, [])
    def all(self, d):
        """Everything below a folder, links not followed"""
        for k in self.list(d):
            p = (d + '/' + k).lstrip('/') if d else k
            yield p, k
            if self.type(d, k) in ('d', 'x'): yield from self.all(p)
    def find(self, tokens, rec):
        """-> {path as displayed: 1 or 2}; tokens without . and .. among them"""
        cur = {'': 2}
        last = tokens[-1]
        for t in tokens[:-1]:
            nxt = {}
            for d, m in cur.items():
                for k in self.list(d):
                    g = min(m, glob(t, k)) if '*' in t or '?' in t else m * (t == k)
                    if g and self.type(d, k) in ('d', 'L', 'x'): nxt[(d + '/' + k).lstrip('/')] = g
            cur = nxt
        out = {}
        for d, m in cur.items():
            if '*' not in last and '?' not in last:
                if last in self.list(d): out[(d + '/' + last).lstrip('/')] = 1 if self.type(d, last) == 'l' else m   # a link to nothing, by its name: not specified
                continue
            for p, k in (self.all(d) if rec else [((d + '/' + k).lstrip('/'), k) for k in self.list(d)]):
                g = min(m, glob(last, k))
                if g: out[p] = max(g, out.get(p, 0))
        return out
def inside(tree, tokens, rec):
    """A path without wildcards that is a folder: what it contains"""
    d = '/'.join(tokens)
    if all('*' not in t and '?' not in t for t in tokens) and tree.real(d) is not None: return tree.find(tokens + ['*'], rec)
    return tree.find(tokens, rec)
def verdict(want, norm=lambda s: s):
    def v(out):
        l = out.decode('utf-8', 'surrogateescape').split('\n')
        if l.pop() != '': return 'last line incomplete'
        got = [norm(x) for x in l]
        if len(set(got)) != len(got): return 'listed twice: %r' % sorted(x for x in got if got.count(x) > 1)[:3]
        miss = sorted(k for k, m in want.items() if m == 2 and k not in got)
        more = sorted(x for x in got if x not in want)
        if miss or more: return 'not listed: %r, listed and should not: %r' % (miss[:4], more[:4])
    return v
def files_of(tree):
    out = []
    for p, t in sorted(tree.n.items(), key=lambda x: x[0].count('/')):
        if t == 'd': out.append((p, None))
        elif t == 'f': out.append((p, b'x'))
        elif t in 'lL': out.append((p, posixpath.relpath(tree.links[p], posixpath.dirname(p) or '.').encode(), 2, 0))
    # last, so that something can be put in there before
    return out + [(p, None, 1, 0o1000) for p, t in sorted(tree.n.items(), reverse=True) if t == 'x']
# --- 1: every pattern over every name of one folder
N1 = [''.join(t) for n in (1, 2, 3) for t in itertools.product('ab.', repeat=n)]
N1 = [n for n in N1 if n not in ('.', '..')] + ['A.B', 'Ab', 'abab', 'a.b.a', 'aaaa', 'b.ab', 'ba.a']
T1 = Tree({**{n: 'f' for n in N1 if len(n) != 2}, **{n: 'd' for n in N1 if len(n) == 2}})
def one():
    k = 0
    for n in range(1, 6 if THOROUGH else 5):
        for p in itertools.product('ab.*?', repeat=n):
            p = ''.join(p); k += 1
            if p in ('.', '..'): continue
            if '*' not in p and '?' not in p and (len(p) == 2 and p in N1): want = {}
            else: want = {x: g for x in N1 for g in [glob(p, x) if '*' in p or '?' in p else 2 * (p == x)] if g}
            chk.state(('one', p)); chk.transitions += len(N1)
            if k % 3 == 0:
                t = 'dir /b w/%s\n' % p; w = {'w/' + x: g for x, g in want.items()}
            else: t = 'cd w\n%s %s\ncd ..\n' % (['DIR /B', 'dir /b'][k % 2], p); w = want
            yield Item(t, t, verdict(w))
batch(chk, one(), per=150, files=[('w', None)] + [('w/' + p, None if t == 'd' else b'') for p, t in T1.n.items()])
# --- 2: levels, starting points and /S over one tree
N2 = {'a': 'd', 'a/a': 'd', 'a/b': 'd', 'a/f.t': 'f', 'a/a/a': 'f', 'a/a/b.t': 'f', 'a/b/ab': 'd', 'a/b/ab/c': 'f', 'a/b/ab/f.t': 'f', 'b': 'd', 'b/a': 'f', 'b/.h': 'f', 'b/.d': 'd', 'b/.d/f.t': 'f', 'ab': 'd',
      'ab/c d': 'd', 'ab/c d/e f.t': 'f', 'f.t': 'f', 'g': 'f', 'é': 'd', 'é/ü.t': 'f', 'nix': 'd', 'lk': 'L', 'a/up': 'L', 'lf.t': 'l', 'lost': 'l', 'lock': 'x', 'b/lock': 'x', 'a/(1)': 'f', 'a/b/#x': 'f'}
T2 = Tree(N2, {'lk': 'a/b', 'a/up': 'a', 'lf.t': 'f.t', 'lost': 'nowhere'})
TOK = ['*', '?', 'a', 'b', 'a*', '*b', '*.t', '??', 'ab', 'f.t', 'zz', 'l*', '*k', 'b*', '*d']
HOME = 'home'
def two():
    k = 0
    for n in (1, 2, 3):
        for tok in itertools.product(TOK if n < 3 else TOK[:9] + ['l*'], repeat=n):
            for rec in (0, 1):
                k += 1
                tok = list(tok)
                # a link that leads to one of its own folders, followed by name only as far as the pattern goes
                if rec and all('*' not in t and '?' not in t for t in tok) and T2.real('/'.join(tok)) is None: want = T2.find(tok, 0)
                else: want = inside(T2, tok, rec)
                p = '/'.join(tok)
                sw = ['', ' /s'][rec]
                for where in range(9) if n < 3 else (k % 9,):
                    pre, pre_cmd, post = [('', 'cd h\n', 'cd ..\n'), ('./', 'cd h\n', 'cd ..\n'), ('../', 'cd h/nix\n', 'cd ../..\n'), ('h/', '', ''), ('../h/', 'cd h\n', 'cd ..\n'),
                                          ('%cd%/h/', '', ''), ('%cd%/h/nix/../', '', ''), ('h//', '', ''), ('./h/./', '', '')][where]
                    cmd = ['dir%s /b %s%s', 'dir /b%s %s%s', 'dir%s %s%s /b', 'dir%s /b "%s%s"'][(k + where) % 4]
                    args = (sw, pre, p)
                    t = pre_cmd + cmd % args + '\n' + post
                    def norm(s, where=where, pre=pre):
                        if s.startswith('/'):
                            if where not in (5, 6): return '!absolute ' + s
                            s = s.split('/h/', 1)[1] if '/h/' in s else '!' + s
                            if where == 6: s = s[len('nix/../'):] if s.startswith('nix/../') else s
                        elif where in (5, 6): return '!relative ' + s
                        elif where == 0: return s
                        else:
                            base = {1: 'h', 2: 'h/nix', 3: '', 4: 'h', 7: '', 8: ''}[where]
                            s = posixpath.normpath(posixpath.join(base, s))
                            if not s.startswith('h/'): return '!' + s
                            s = s[2:]
                        return s
                    chk.state((tuple(tok), rec, where)); chk.transitions += len(want)
                    yield Item(t, t, verdict(want, norm))
def home(files): return [('h', None)] + [('h/' + f[0],) + tuple(f[1:]) for f in files]
batch(chk, two(), per=150, files=home(files_of(T2)))
# --- 3: every small tree
def trees(n, names=('a', 'b'), depth=3):
    """Every tree of n nodes: nested tuples ((name, type, kids), ...)"""
    def forest(n, depth):
        # forests over the names in order
        def go(i, n):
            if n == 0: yield (); return
            if i == len(names): return
            yield from go(i + 1, n)
            for m in range(1, n + 1):
                for rest in go(i + 1, n - m):
                    if m == 1:
                        for t in 'fdl': yield ((names[i], t, ()),) + rest
                    elif depth > 1:
                        for kids in forest(m - 1, depth - 1): yield ((names[i], 'd', kids),) + rest
        yield from go(0, n)
    yield from forest(n, depth)
PAT = [('*', 0), ('*', 1), ('a', 0), ('a*', 1), ('?', 1), ('*b', 0), ('*b', 1), ('a/*', 0), ('a/*', 1), ('*/b', 0), ('*/*', 0), ('*/*', 1), ('a/b', 0), ('a/b*', 1), ('*/*/*', 0), ('?/a/*', 0), ('*/?/a', 0), ('a', 1), ('*/b/a', 0), ('b/*/*', 1)]
def three():
    cases = []
    for n in range(0, 6 if THOROUGH else 5):
        for f in trees(n):
            nodes = {}
            def put(f, base):
                for name, t, kids in f: nodes[base + name] = t; put(kids, base + name + '/')
            put(f, '')
            tr = Tree(nodes, {p: 'nowhere' for p, t in nodes.items() if t == 'l'})
            its = []
            for p, rec in PAT:
                tok = p.split('/')
                if rec and '*' not in p and '?' not in p and tr.real(p) is None: want = tr.find(tok, 0)
                else: want = inside(tr, tok, rec)
                its.append((p, rec, want))
            text = '@echo off\ncd h\n' + ''.join('echo \x01@%d\ndir /b%s %s\n' % (i, [' ', ' /s '][rec], p) for i, (p, rec, _) in enumerate(its)) + 'echo \x01@%d\n' % len(its)
            cases.append((its, script(text, files=home(files_of(tr)), key=repr(sorted(nodes.items())))))
            chk.state(tuple(sorted(nodes.items())))
    for part in chunks(cases, 2000):
        if chk.enough(): return
        for (its, c), r in zip(part, run([c for _, c in part])):
            outs = split_marks(r.out, len(its) + 1)
            for i, (p, rec, want) in enumerate(its):
                chk.traces += 1; chk.transitions += 1
                bad = verdict(want)(outs[i]) if outs[i] is not None and outs[-1] is not None and r.status == 0 else 'no output, status %d' % r.status
                if bad: chk.violation('%s %s%s' % (c.key, p, ' /s' * rec), c, want, outs[i], bad)
                else: chk.outcomes.add(hash(outs[i]))
three()
# --- 4: attributes
N4 = {}
for nm, (t, size, ro) in {'e': ('f', 0, 0), 'er': ('f', 0, 1), 'f': ('f', 5, 0), 'fr': ('f', 5, 1), 'd': ('d', 0, 0), 'dr': ('d', 0, 1)}.items(): N4[nm] = (t, size, ro)
def sel(a, nm):
    """a: {letter: wanted}; 2 selected, 0 not, 1 not specified"""
    t, size, ro = N4[nm.rsplit('/')[-1]]
    r = 2
    for c, w in a.items():
        if c == 'D' and (t == 'd') != w: return 0
        if c == 'R' and bool(ro) != w: return 0
        if c == 'I':
            if t == 'd': r = 1
            elif (size == 0) != w: return 0
    return r
PLACES = list(N4) + ['d/' + n for n in N4] + ['d/d/' + n for n in N4]
def attrs():
    k = 0
    for vals in itertools.product((None, True, False), repeat=3):
        a = {c: v for c, v in zip('DRI', vals) if v is not None}
        for order in itertools.permutations(a):
            for low in (0, 1):
                s = ''.join(['-', ''][a[c]] + c for c in order)
                if low: s = s.lower()
                for col in ('', ':'):
                    for pat, rec in (('*', 0), ('*', 1), ('d/*', 0), ('d/?r', 1), ('', 0), ('d', 0), ('d', 1), ('*/d/*', 0)):
                        k += 1
                        want = {}
                        for p in PLACES:
                            q = p.split('/')
                            if pat in ('*', ''): ok = len(q) == 1 or rec
                            elif pat == 'd/*': ok = len(q) == 2 and q[0] == 'd'
                            elif pat == 'd/?r': ok = len(q) >= 2 and q[0] == 'd' and q[-1] in ('er', 'fr', 'dr')
                            elif pat == 'd': ok = q[0] == 'd' and len(q) > 1 and (rec or len(q) == 2)
                            else: ok = len(q) == 3
                            if ok and sel(a, p): want[p] = sel(a, p)
                        pieces = ['/b', ['/a', '/A'][k % 2] + col + s] + ['/s'] * rec + [pat] * bool(pat)
                        for j in range(len(pieces)) if THOROUGH or pat in ('*', 'd') else (k % len(pieces),):
                            ps = pieces[j:] + pieces[:j]
                            t = 'cd h\ndir %s\ncd ..\n' % ' '.join(ps)
                            chk.state(t); chk.transitions += len(PLACES)
                            yield Item(t, t, verdict(want))
files = [('h', None)]
for base in ('', 'd/', 'd/d/'):
    for nm, (t, size, ro) in N4.items():
        if t == 'd': files.append(('h/' + base + nm, None, 1, 0o555 if ro else 0o755))
        else: files.append(('h/' + base + nm, b'x' * size, 0, 0o444 if ro else 0o644))
batch(chk, attrs(), per=150, files=files)
# --- 5: the full listing: every name on a line of its own, how many files and folders
def full():
    for tok in itertools.chain(([t] for t in TOK), itertools.product(TOK[:9], repeat=2)):
        tok = list(tok)
        want = inside(T2, tok, 0)
        if any(m == 1 for m in want.values()): continue
        def v(out, want=want):
            l = out.decode('utf-8', 'surrogateescape').split('\n')
            rows = [x.split('\t') for x in l[2:] if x.count('\t') >= 2 and not x.startswith('\t\t')]
            names = [x[-1] for x in rows]
            real = [n for n in names if posixpath.basename(n) not in ('.', '..')]
            if sorted(real) != sorted(want): return 'listed %r instead of %r' % (sorted(real), sorted(want))
            if not names: return None if 'No file' in out.decode('utf-8', 'replace') else 'nothing and no message'
            cnt = re.findall(r'^\t\t\t\t(\d+) ', out.decode('utf-8', 'replace'), re.M)
            isdir = lambda n: T2.real(n) is not None or posixpath.basename(n) in ('.', '..')
            nd = sum(map(isdir, names))
            if cnt != [str(len(names) - nd), str(nd)]: return 'counts %r for %d files and %d folders' % (cnt, len(names) - nd, nd)
            for r, n in zip(rows, names):
                if ('D' in r[-2]) != isdir(n): return 'wrong kind for %r' % n
        for pre in ('', './', '%cd%/', '../h/'):
            # the names are shown as the folder was given: relative ones as they were, absolute ones in full
            def w(out, pre=pre, v=v):
                o = out.decode('utf-8', 'surrogateescape').split('\n')
                if pre == '': return v(out)
                at = o[0]; res = []
                for l in o[1:]:
                    if l.count('\t') >= 2 and not l.startswith(('\t\t', 'Last change')):
                        h, _, n = l.rpartition('\t')
                        lead = {'./': './', '../h/': '../h/'}.get(pre, at + '/')
                        if not n.startswith(lead): return '%r does not begin with %r' % (n, lead)
                        l = h + '\t' + n[len(lead):]
                    res.append(l)
                return v('\n'.join(res).encode('utf-8', 'surrogateescape'))
            t = 'cd h\n%sdir %s\ncd ..\n' % ('echo %cd%\n' if pre else '', pre + '/'.join(tok))
            chk.state(t); chk.transitions += len(want)
            yield Item(t, t, w)
batch(chk, full(), per=60, files=home(files_of(T2)))
# --- 6: many files, long names, deep trees, one path only, patterns that are not found
def big():
    for n in (0, 1, 2, 100, 3000):
        names = ['n%d' % i for i in range(n)]
        c = script('@echo off\ndir /b w\necho -\ndir /b w/*9\necho -\ndir /s /b n*\necho -\nfor /f %%i in (\'dir /b w\') do echo %%i\n', files=[('w', None)] + [('w/' + x, b'') for x in names], key='%d files' % n)
        yield c, [{'w/' + x: 2 for x in names}, {'w/' + x: 2 for x in names if x.endswith('9')}, {'w/' + x: 2 for x in names}, {'w/' + x: 2 for x in names}]
    for n in (1, 64, 127, 128, 200, 254, 255):
        x = 'n' * n
        yield script('@echo off\ndir /b n*\necho -\ndir /b /s *n\necho -\ndir /b %s\necho -\ndir /b w/%s\n' % (x, x + '?'), files=[(x, b''), ('w', None), ('w/' + x, b'')], key='name of %d' % n), \
            [{x: 2}, {x: 1, 'w/' + x: 1}, {x: 2}, {}]
    for n in (1, 2, 10, 50, 100, 300):
        d = '/'.join(['d'] * n)
        fl = [('/'.join(['d'] * k), None) for k in range(1, n + 1)] + [(d + '/leaf', b'')]
        yield script('@echo off\ndir /b /s l*\necho -\ndir /b %s\necho -\ndir /b %s/l*\necho -\ndir /b %s\n' % (d, d, '/'.join(['?'] * n + ['leaf'])), files=fl, key='%d levels' % n), [{d + '/leaf': 2}] * 4
for c, wants in big():
    r = run([c])[0]
    chk.traces += 1; chk.state(c.key); chk.transitions += 4
    parts = r.out.split(b'-\n')
    for i, w in enumerate(wants):
        bad = verdict(w)(parts[i]) if r.status == 0 and len(parts) == len(wants) else 'status %d, %d parts' % (r.status, len(parts))
        if bad: chk.violation('%s, listing %d' % (c.key, i), c, list(w)[:3], parts[i] if i < len(parts) else b'', bad)
def errs():
    for t in ('dir /b a b', 'dir a b', 'dir /s a /b b'): yield Item(t, t + ' >o 2>&1\nif errorlevel 1 echo bad\n', 'bad\n')
    for t in ('dir /b zz', 'dir /b zz/*', 'dir /b *.zz', 'dir /b g/*', 'dir /b /s g/*', 'dir /b zz/zz', 'dir /b /s *.zz', 'dir /b nix', 'dir /b nix/*', 'dir /s /b nix'):
        yield Item(t, 'cd h\n' + t + ' 2>&1\ncd ..\n', lambda out: None if not any(x in ('g', 'nix') or '/' in x and '*' not in x and 'z' not in x for x in out.decode().split('\n')) else 'something listed')
batch(chk, errs(), per=20, files=home(files_of(T2)))
chk.sample(T2.find(['*', '*'], 0)); chk.sample({p: g for p, g in T2.find(['*.t'], 1).items()})
chk.assumptions += ['Names match without regard to case, and * matches names that begin with a dot', 'Matches that need the search to backtrack may be listed or not (documented)', '/I of folders is not specified']
chk.finish()
