"""Commands which copy, move, rename and delete files, with the tree they start from and what they come to.  Used by P15 and P16."""
from mc import *
def data(n, seed):
    return bytes((i * 7 + seed * 31 + i // 251) & 255 for i in range(n))
A, B, C3, BIG = b'first file\n', b'the second one\n', b'3', data(5000, 1)
BASE = [('a', A), ('b', B), ('c', C3), ('z', b''), ('g', BIG), ('x.t', b'xt'), ('y.t', data(2100, 2)), ('d', None), ('d/a', b'old in d'), ('e', None),
        ('s', None), ('s/p', b'sp'), ('s/q', data(2049, 3)), ('s/u', None), ('s/u/r', b'sur'), ('s/v', None), ('other', b'untouched'), ('d/keep', b'kept')]
# (command, files the command may change or create; everything else must stay)
COPY = [('copy a n', 'n'), ('copy g n', 'n'), ('copy z n', 'n'), ('copy /y a b', 'b'), ('copy /y g a', 'a'), ('copy a e', 'e/a'), ('copy /y a d', 'd/a'), ('copy a e/n', 'e/n'),
        ('copy a + b n', 'n'), ('copy a + g + b n', 'n'), ('copy /y a + b c', 'c'), ('copy z + a n', 'n'), ('copy a b e', 'e/a e/b'), ('copy *.t e', 'e/x.t e/y.t'),
        ('copy s/* e', 'e/p e/q'), ('copy /r s e', 'e/s e/s/p e/s/q e/s/u e/s/u/r e/s/v'), ('copy /r s/ e', 'e/p e/q e/u e/u/r e/v'), ('copy /y *.t other', 'other')]
MOVE = [('move a n', 'a n'), ('move /y a b', 'a b'), ('move a e', 'a e/a'), ('move /y a d', 'a d/a'), ('move a b e', 'a b e/a e/b'), ('move *.t e', 'x.t y.t e/x.t e/y.t'), ('move s/* e', 's/p s/q e/p e/q'),
        ('move g n', 'g n'), ('move /r s e', 's s/p s/q s/u s/u/r s/v e/s e/s/p e/s/q e/s/u e/s/u/r e/s/v'),
        ('ren a n', 'a n'), ('ren g n', 'g n'), ('ren s/u/r k', 's/u/r s/u/k'), ('ren a b', '')]
DEL = [('del a', 'a'), ('del a b', 'a b'), ('del /q *.t', 'x.t y.t'), ('del /q s', 's/p s/q'), ('del /q /s s', 's/p s/q s/u/r'), ('rd /s /q s', 's s/p s/q s/u s/u/r s/v'), ('rd /q e', 'e'), ('rd /q s/v e', 's/v e'), ('md n/m/o', 'n n/m n/m/o')]
def case(cmd, spec):
    t = '@echo off\n%s\necho [!errorlevel!]\n' % cmd
    c = script(t, files=BASE, snap=True, key='%s, %s' % (cmd, spec))
    c.argv = [cbuild('lib/fault.c'), '.log', spec] + c.argv
    return c
def result(r):
    """(status of the command, tree, log)"""
    tree = {k: v[2] if v[0] == 0 else None for k, v in r.tree.items() if k not in ('t.bat', '.log')}
    log = r.tree.get('.log', (0, 0, b''))[2].decode('utf8', 'replace').split('\n')[:-1]
    i = r.out.rfind(b'[')
    st = r.out[i + 1:r.out.find(b']', i)] if i >= 0 else None
    return st, tree, log
START = {f[0]: f[1] for f in BASE}
def stray(tree, may):
    """What changed though it must not."""
    may = set(may.split())
    for k in sorted(set(tree) | set(START)):
        if k not in may and tree.get(k, 0) != START.get(k, 0): return '%s changed from %r to %r' % (k, show(START.get(k, 'nothing')), show(tree.get(k, 'nothing')))
    return None
