"""P17: DEL and RD delete exactly what they were told to."""
import sys, itertools, fnmatch, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P17', bounds='a tree of 20 entries (read-only files, empty files, hidden names, blanks, links inside, to folders outside, broken) with every combination of the switches of DEL and of RD and every pair of 24 names; '
            'every answer sequence to the questions; lists of 1 to 11, 62 to 66 and 126 to 130 names (thorough: up to 513); every tree of up to 4 (thorough 5) entries with RD /S and DEL /S of each')
# path: kind, content/target, mode
F, D, L = 0, 1, 2
TREE = {'t': (D, '', 0), 't/a.txt': (F, 'aa', 0), 't/b c.txt': (F, 'b', 0), 't/.h': (F, 'h', 0), 't/r.txt': (F, 'r', 0o444), 't/0': (F, '', 0), 't/a&b': (F, 'q', 0), 't/d': (D, '', 0), 't/d/a.txt': (F, 'da', 0), 't/d/r.dat': (F, 'z', 0o444),
        't/d/e': (D, '', 0), 't/d/e/c.txt': (F, 'c', 0), 't/d/e/lk': (L, '../../../o', 0), 't/g': (D, '', 0), 't/g h': (D, '', 0), 't/lf': (L, 'a.txt', 0), 't/ld': (L, 'd', 0), 't/lo': (L, '../o', 0), 't/lb': (L, 'none', 0),
        'o': (D, '', 0), 'o/x.txt': (F, 'x', 0), 'o/s': (D, '', 0), 'o/s/y.txt': (F, 'y', 0)}
def files(tree): return [(p, c if k != D else None, k, m) for p, (k, c, m) in tree.items()]
def resolve(tree, p):
    """The entry a path leads to, or None."""
    for _ in range(5):
        parts = p.split('/'); q = ''
        again = False
        for i, x in enumerate(parts):
            if x in ('', '.'): continue
            if x == '..': q = q.rpartition('/')[0]; continue
            q = q + '/' + x if q else x
            e = tree.get(q)
            if e is None: return None
            if e[0] == L:
                base = q.rpartition('/')[0]
                p = base + '/' + e[1] + '/' + '/'.join(parts[i + 1:]); again = True; break
            if e[0] == F and i < len(parts) - 1: return None
        if not again: return q if q else '.'
    return None
def kids(tree, d):
    d = '' if d == '.' else d + '/'
    return [p for p in tree if p.startswith(d) and '/' not in p[len(d):] and p]
def isdir(tree, p):
    r = resolve(tree, p); return r is not None and (r == '.' or tree[r][0] == D)
def target(tree, p):
    r = resolve(tree, p); return tree[r] if r and r != '.' else tree.get(p, (F, '', 0))
def norm(p):
    out = []
    for x in p.split('/'):
        if x in ('', '.'): continue
        if x == '..' and out: out.pop()
        else: out.append(x)
    return '/'.join(out)
def real(tree, p):
    """Where an entry itself is: the folder resolved, the last name not."""
    d, _, n = norm(p).rpartition('/')
    r = resolve(tree, d) if d else '.'
    return n if r == '.' else (r or 'none') + '/' + n
def match(pat, n):
    return re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in pat), n, re.S | re.I) is not None
def glob(tree, cwd, pat):
    """Entries (own places) that the pattern names."""
    cur = [cwd]
    parts = [x for x in pat.split('/')]
    if parts[-1] == '': parts.pop()
    for i, x in enumerate(parts):
        nxt = []
        for c in cur:
            if not isdir(tree, c): continue
            if '*' in x or '?' in x:
                d = resolve(tree, c)
                nxt += [k for k in kids(tree, d) if match(x, k.rsplit('/', 1)[-1])]
            elif x in ('.', '..'): nxt.append(norm(c + '/' + x))
            else:
                p = real(tree, c + '/' + x)
                if p in tree: nxt.append(p)
        cur = nxt
    return cur
def below(tree, d):
    """Everything under a folder, without following links."""
    return [p for p in tree if p.startswith(d + '/')]
def attr(tree, p, spec):
    k, c, m = target(tree, p); neg = False
    for ch in spec.upper():
        if ch == '-': neg = True; continue
        v = {'D': isdir(tree, p), 'R': m == 0o444, 'I': k != D and len(c) == 0}[ch]
        if v == neg: return False
        neg = False
    return True
def delete(tree, cwd, name, sw):
    """What DEL is to delete for one name: (for sure, perhaps), or None: there is no such thing."""
    jok = '*' in name or '?' in name; rec = 'S' in sw
    p = real(tree, cwd + '/' + name) if name != '.' else cwd
    if not jok and isdir(tree, cwd + '/' + name):
        d = resolve(tree, cwd + '/' + name)
        l = below(tree, d) if rec else kids(tree, d)
        if not l: return None
        return set(l), set()
    m = glob(tree, cwd, name); may = set()
    if rec:
        h, _, last = name.rpartition('/')
        for d in glob(tree, cwd, h) if h else [cwd]:
            r = resolve(tree, d)
            if r: may |= {q for q in below(tree, r) if match(last, q.rsplit('/', 1)[-1])}
        if jok: m = may | set(m)
    if not m: return None
    return set(m), may
def keep(tree, s, sw, at):
    r = set()
    for p in s:
        if isdir(tree, p): continue
        if 'F' not in sw and target(tree, p)[2] == 0o444: continue
        if at and not attr(tree, p, at): continue
        r.add(p)
    return r
def snapshot(r): return {k: (v[0], v[2].decode('latin1') if v[0] != D else '') for k, v in r.tree.items() if k != 't.bat'}
def snap_of(tree, gone=()): return {p: (k, c) for p, (k, c, m) in tree.items() if p not in gone}
NAMES = ['a.txt', '"b c.txt"', '.h', 'r.txt', '*', '*.txt', '?.txt', '"b *"', 'a*', '"a&b"', 'd', 'd/', 'd/*', 'd*/*.txt', 'd/?', 'd/e', 'd/e/c.txt', 'g', 'lf', 'ld', 'lo', 'lb', 'nosuch', 'no*such', '.', '../t/0', './a.txt', 'd/../0', '*/*', 'lo/x.txt', 'd/e/*']
ASK = re.compile(r'"?((?:[^\n"?])*)"? ?\?')
def cases_del():
    for sw in ['Q', 'FQ', 'QS', 'FQS', 'Qa', 'Qb', 'FQc', 'FQd', 'QSa', 'QSb', 'FQSa', 'FQSc', 'FQSd']:
        at = {'a': 'R', 'b': '-R', 'c': 'I', 'd': '-i-r'}.get(sw[-1], '')
        ops = ' '.join('/' + (c if c not in 'abcd' else 'A:' + at if c in 'ac' else 'a' + at) for c in sw)
        for n in (1, 2):
            for ns in itertools.product(NAMES, repeat=n):
                if n == 2 and (sw not in ('Q', 'FQS') and not THOROUGH): continue
                yield ops, sw, at, ns
def run_del():
    for ch in chunks(cases_del(), 4000):
        cs = []
        for ops, sw, at, ns in ch:
            t = '@echo off\ncd t\n%s %s\necho [!errorlevel!]\n' % ('DEL ' + ops if len(ns) < 2 else 'erase ' + ops, ' '.join(ns))
            cs.append(script(t, files=files(TREE), snap=True))
        for (ops, sw, at, ns), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += 1
            must, may, miss, free = set(), set(), False, 'lb' in ns
            for n in ns:
                if n == 'lb': may |= keep(TREE, {'t/lb'}, sw, at); continue
                d = delete(TREE, 't', n.strip('"').rstrip('/') if n != 'd/' else 'd', sw)
                if d is None: miss = True; continue
                k = keep(TREE, d[0], sw, at); free = free or bool(k & (must | may)) ; must |= k; may |= keep(TREE, d[1], sw, at)
            got = snapshot(r); gone = {p for p in TREE if p not in got}; chk.state((tuple(sorted(gone)),))
            free = free or '*/*' in ns
            err = b'[0]' not in r.out
            bad = None
            if any(got[p] != snap_of(TREE)[p] for p in got if p in TREE) or set(got) - set(TREE): bad = 'other entries changed'
            elif gone - must - may: bad = 'deleted too much'
            elif must - gone and not miss and 'lb' not in ns: bad = 'not deleted'
            elif miss and not err: bad = 'a missing name is not reported'
            elif not miss and err and not free: bad = 'a status other than 0 though everything went well: ' + repr(r.out)
            if bad: chk.violation('cd t & del %s %s' % (ops, ' '.join(ns)), c, ('deleted', sorted(must)), ('deleted', sorted(gone), r.err[-300:]), bad)
            else: chk.outcomes.add(tuple(sorted(gone)))
run_del()
# --- questions
Q = re.compile(r'(delete file|remove) "[^"\n]*/run/w\d\d/([^"\n]*)"( directory)? \? ')
ANS = ['y', 'n', 'a', '', 'x', 'Yes', 'NO', 'aLL']
def play(qs, text):
    """What the answers say: entries to remove, whether all that follows is to go, number of complaints."""
    yes, every, bad, i = [], False, 0, 0
    for q in qs:
        while True:
            a = text[i].lower() if i < len(text) else 'n'; i += 1
            if a in ('', 'n', 'no'): break
            if a in ('y', 'yes'): yes.append(q); break
            if a in ('a', 'all'): yes.append(q); every = True; break
            bad += 1
    return yes, every, bad
def questions():
    depth = 4 if THOROUGH else 3
    answers = [h for n in range(depth + 1) for h in itertools.product(ANS if n < 3 else ANS[:5], repeat=n)]
    T1 = {k: TREE[k] for k in ('t', 't/a.txt', 't/b c.txt', 't/r.txt', 't/d', 't/d/a.txt', 'o', 'o/x.txt', 't/lo')}
    for cmd, must in (('del /p a.txt "b c.txt" d', ['t/a.txt', 't/b c.txt', 't/d/a.txt']), ('del *', ['t/a.txt', 't/b c.txt']), ('del ?.txt', ['t/a.txt']), ('del "? c.txt" ?.t?t', ['t/a.txt', 't/b c.txt']), ('del /f *.txt', ['t/a.txt', 't/b c.txt', 't/r.txt']), ('del /p /f /q *.t?t', ['t/a.txt', 't/b c.txt', 't/r.txt']),
                      ('del /p /q d', ['t/d/a.txt']), ('del /f d/*', ['t/d/a.txt']), ('del a.txt', []), ('del /p /s d', ['t/d/a.txt'])):
        for h in answers: yield 'del', cmd, T1, must, h
    T2 = {k: TREE[k] for k in ('t', 't/d', 't/d/a.txt', 't/d/e', 't/d/e/lk', 't/g', 't/a.txt', 'o', 'o/x.txt')}
    for cmd, must in (('rd /s d', ['t/d', 't/d/a.txt', 't/d/e', 't/d/e/lk']), ('rmdir g d', ['t/g', 't/d']), ('rd /s g d', ['t/g', 't/d', 't/d/a.txt', 't/d/e', 't/d/e/lk']), ('rd /s d/e', ['t/d/e', 't/d/e/lk'])):
        for h in answers: yield 'rd', cmd, T2, must, h
def run_q():
    for ch in chunks(questions(), 4000):
        cs = []
        for kind, cmd, tree, must, h in ch:
            # the answers come from the standard input, which the script does not share
            cs.append(script('@echo off\ncd t\n%s\necho [!errorlevel!]\n' % cmd, files=files(tree), snap=True, stdin=''.join(a + '\n' for a in h).encode(), pipe=len(h) % 2 == 1))
        for (kind, cmd, tree, must, h), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(h)
            qs = [m.group(2) for m in Q.finditer(r.err.decode('utf8', 'replace'))]
            got = snapshot(r); gone = {p for p in tree if p not in got}; yes, every, bad_n = play(qs, h); bad = None
            if every: qa, want = set(must), set(yes) | (set(must) - set(qs))
            else: qa, want = set(qs), set(yes)
            if cmd == 'del a.txt': want = {'t/a.txt'}
            elif not every and sorted(qs) != sorted(must): bad = 'asked about ' + repr(qs)
            elif len(set(qs)) != len(qs) or set(qs) - set(must): bad = 'asked about ' + repr(qs)
            # a folder goes only if all that is in it went before
            ok = set(); fail = False
            for p in sorted(want, key=lambda p: -p.count('/')):
                if any(k not in ok for k in kids(tree, p)) and tree[p][0] == D: fail = True
                else: ok.add(p)
            for i, q in enumerate(qs):
                if tree[q][0] == D and any(k in qs[i:] for k in kids(tree, q)): bad = 'a folder before what is in it'
            err = b'[0]' not in r.out
            if gone != ok: bad = 'what is gone'
            elif any(got[p] != snap_of(tree)[p] for p in got if p in tree) or set(got) - set(tree): bad = 'other entries changed'
            elif r.err.count(b'correct choice') != bad_n: bad = 'complaints about wrong answers'
            elif err != fail: bad = 'status'
            chk.state((cmd, tuple(sorted(gone))))
            if bad: chk.violation('cd t & %s, answers %r' % (cmd, h), c, (sorted(ok), 'error' if fail else 'no error'), (sorted(gone), r.out, r.err[-400:]), bad)
            else: chk.outcomes.add((cmd, tuple(sorted(gone))))
run_q()
# --- every small tree
KINDS = [('f', (F, 'x', 0)), ('r', (F, 'x', 0o444)), ('d', (D, '', 0)), ('o', (L, '%so', 0)), ('i', (L, '%st', 0))]
def trees(n):
    def go(tree, left, last):
        yield tree
        if not left: return
        dirs = [p for p in tree if tree[p][0] == D and p != 'o']
        for i, d in enumerate(dirs):
            for j, (k, e) in enumerate(KINDS):
                key = (i, j)
                if key < last[:2] : continue
                name = '%s/%s%d' % (d, k, len(tree))
                t = dict(tree); t[name] = (e[0], e[1] % ('../' * (name.count('/'))) if e[0] == L else e[1], e[2])
                yield from go(t, left - 1, key)
    base = {'o': (D, '', 0), 'o/x': (F, 'x', 0), 'o/s': (D, '', 0), 't': (D, '', 0)}
    yield from go(base, n, (0, 0))
def small():
    for tree in trees(5 if THOROUGH else 4):
        own = [p for p in tree if p != 'o' and not p.startswith('o/')]
        lst = [('rd /s /q', p) for p in own] + [('rd', p) for p in own] + [('del /s /q', p) for p in own] + [('del /s /q /f', 't'), ('del /q', 't')]
        for i, (cmd, p) in enumerate(lst):
            # one command per name, all names of the bigger trees in turns
            if len(own) > 4 and (i + len(own) * 7 + hash(tuple(map(ord, ''.join(own)))) ) % 3 and p != 't' and not THOROUGH: continue
            yield tree, cmd, p
def expect(tree, cmd, p):
    """(deleted, error)"""
    k = tree[p][0]
    if cmd.startswith('rd'):
        if '/s' in cmd:
            if k == F: return set(), True
            if k == L: return {p}, False
            return {p} | set(below(tree, p)), False
        if k == F or k == D and kids(tree, p): return set(), True
        if k == L: return {p}, False
        return {p}, False
    sw = ('S' if '/s' in cmd else '') + ('F' if '/f' in cmd else '')
    d = delete(tree, '.', p, sw)
    if d is None: return set(), True
    return keep(tree, d[0], sw, ''), False
def run_small():
    for ch in chunks(small(), 6000):
        cs = [script('@echo off\n%s %s\necho [!errorlevel!]\n' % (cmd, p), files=files(tree), snap=True) for tree, cmd, p in ch]
        for (tree, cmd, p), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += 1
            e, err = expect(tree, cmd, p); got = snapshot(r); gone = {q for q in tree if q not in got}
            bad = None; chk.state((cmd, tuple(sorted(gone))))
            if gone != e: bad = 'what is gone'
            elif any(got[q] != snap_of(tree)[q] for q in got if q in tree) or set(got) - set(tree): bad = 'other entries changed'
            elif (b'[0]' not in r.out) != err: bad = 'status'
            if bad: chk.violation('%s %s in %s' % (cmd, p, ' '.join(q + ('>' + tree[q][1] if tree[q][0] == L else '') for q in tree)), c, (sorted(e), err), (sorted(gone), r.out, r.err[-300:]), bad)
            else: chk.outcomes.add((cmd, tuple(sorted(gone))))
        if chk.enough(): return
run_small()
# --- RD of several names
def rdpairs():
    N = ['d', 'g', '"g h"', 'a.txt', 'lo', 'ld', 'd/e', 'nosuch', '../o', 'r.txt']
    for sw in ('/q', '/s /q', '/Q /S'):
        for n in (2, 3):
            for ns in itertools.product(N if n == 2 or THOROUGH else ('d', 'g', '"g h"', 'a.txt', 'lo'), repeat=n): yield sw, ns
def run_rdpairs():
    for ch in chunks(rdpairs(), 4000):
        cs = [script('@echo off\ncd t\nrd %s %s\necho [!errorlevel!]\n' % (sw, ' '.join(ns)), files=files(TREE), snap=True) for sw, ns in ch]
        for (sw, ns), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(ns); want = set(); fail = miss = False; bad = None; free = False
            for n in ns:
                p = norm('t/' + n.strip('"')); k = TREE.get(p, (None,))[0]
                if k is None: miss = True; continue
                e, f = expect(TREE, 'rd /s' if 's' in sw.lower() else 'rd', p)
                free = free or bool(e & want); want |= e; fail = fail or f
            got = snapshot(r); gone = {q for q in TREE if q not in got}; err = b'[0]' not in r.out
            if any(got[q] != snap_of(TREE)[q] for q in got if q in TREE) or set(got) - set(TREE): bad = 'other entries changed'
            elif gone - want: bad = 'deleted too much'
            elif want - gone and not miss and not free and len(set(ns)) == len(ns): bad = 'not deleted'
            elif (miss or fail) and not err and not free: bad = 'a failure is not reported'
            elif not miss and not fail and not free and err and len(set(ns)) == len(ns): bad = 'a status other than 0 though everything went well'
            chk.state((sw, tuple(sorted(gone))))
            if bad: chk.violation('cd t & rd %s %s' % (sw, ' '.join(ns)), c, (sorted(want), miss, fail), (sorted(gone), r.out, r.err[-300:]), bad)
            else: chk.outcomes.add((sw, tuple(sorted(gone))))
run_rdpairs()
# --- any number of operands
def many():
    for n in list(range(1, 12)) + [62, 63, 64, 65, 66, 126, 127, 128, 129, 130] + ([255, 256, 257, 512, 513] if THOROUGH else []):
        names = ['f%d' % i if i % 7 else 'f %d' % i for i in range(n + 1)]
        tf = {x: (F, 'c', 0) for x in names}; td = {x: (D, '', 0) for x in names}; tn = {**td, **{x + '/in': (F, '', 0) for x in names}}
        w = ' '.join('"%s"' % x if ' ' in x or len(x) == n % 3 else x for x in names[:n])
        yield tf, 'del ' + w, snap_of(tf, names[:n])
        yield tf, 'del %s nosuch' % w, None
        yield td, 'rd /q ' + w, snap_of(td, names[:n])
        yield tn, 'rd /s /q ' + w, snap_of(tn, names[:n] + [x + '/in' for x in names[:n]])
        yield tn, 'del /q ' + w, snap_of(tn, [x + '/in' for x in names[:n]])
        yield {}, 'md ' + w, {x: (D, '') for x in names[:n]}
def run_many():
    todo = list(many())
    cs = [script('@echo off\n%s\necho [!errorlevel!]\n' % t, files=files(tree), snap=True) for tree, t, e in todo]
    for (tree, t, e), c, r in zip(todo, cs, run(cs)):
        chk.traces += 1; chk.transitions += len(tree); got = snapshot(r)
        if e is None:
            if b'[0]' in r.out or b'nosuch' not in r.err or r.status: chk.violation('%s (%d entries)' % (t[:60], len(tree)), c, 'an error', (r.out, r.err[-300:]))
        elif got != e or b'[0]' not in r.out: chk.violation('%s (%d entries)' % (t[:60], len(tree)), c, sorted(set(e) - set(got))[:5], (sorted(set(got) - set(e))[:5], r.out, r.err[-300:]))
        else: chk.outcomes.add((t[:10], len(tree)))
run_many()
chk.sample({'cd t & del /Q *': sorted(keep(TREE, delete(TREE, 't', '*', 'Q')[0], 'Q', ''))})
chk.sample({'cd t & del /S /Q d': sorted(keep(TREE, delete(TREE, 't', 'd', 'QS')[0], 'QS', ''))})
chk.finish()
