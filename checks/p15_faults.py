"""P15: failing and short system calls in the commands which copy, move, rename and delete files."""
import sys, errno
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
from scenarios import *
chk = Check('P15', level='fault_enumeration', bounds='every system call on a file of each of %d commands failing with each error it can have, every single read or write and all of them transferring one byte or half; '
            'thorough: also every pair of failing calls, and every pair of a short and a failing one' % len(COPY + MOVE + DEL))
ERR = {'open': ('EACCES', 'EMFILE'), 'read': ('EIO',), 'write': ('ENOSPC', 'EIO'), 'fsync': ('EIO', 'ENOSPC'), 'rename': ('EACCES', 'EXDEV'), 'unlink': ('EACCES', 'EBUSY'), 'rmdir': ('EBUSY',), 'mkdir': ('ENOSPC', 'EACCES'),
       'truncate': ('EIO',), 'link': ('EPERM',), 'symlink': ('EPERM',), 'chmod': ('EPERM',)}
plain = run([case(c, '-') for c, m in COPY + MOVE + DEL])
jobs = []
for (cmd, may), r in zip(COPY + MOVE + DEL, plain):
    st, tree, log = result(r); chk.traces += 1
    if st is None or not log and cmd != 'ren a b': print('check error: no trace of ' + cmd); sys.exit(3)
    bad = stray(tree, may)
    if bad: chk.violation('%s, -' % cmd, case(cmd, '-'), 'nothing but its files', bad)
    single = []
    for i, l in enumerate(log, 1):
        k, path = l.split()[:2]
        if k == 'open' and START.get(path[1:], 0) is None: continue     # a folder: see below
        if k in ('read', 'write'): single += ['%d:s' % i, '%d:h' % i]
        single += ['%d:e%d' % (i, getattr(errno, e)) for e in ERR.get(k, ())]
    specs = single + ['*:s', '*:h'] if log else []
    if THOROUGH:
        specs += ['%s,%s' % (a, b_) for i, a in enumerate(single) for b_ in single[i + 1:] if a.split(':')[0] != b_.split(':')[0]][:3000]
        specs += ['*:h,' + a for a in single if ':e' in a]
    chk.extra.setdefault('calls', {})[cmd] = len(log)
    chk.transitions += len(log)
    for s in specs: jobs.append((cmd, may, s, st, tree, log)); chk.state((cmd, s))
def whole(tree, content): return any(v == content for v in tree.values())
for js in chunks(jobs, 3000):
    for (cmd, may, s, st0, tree0, log0), r in zip(js, run([case(j[0], j[2]) for j in js])):
        chk.traces += 1; st, tree, log = result(r)
        bad = None; fail = ':e' in s
        if r.status != 0 or st is None: bad = 'the interpreter ended with %d' % r.status
        elif not fail and (tree != tree0 or st != st0): bad = 'short transfers change the result: status %r, %s' % (st, [k for k in set(tree) | set(tree0) if tree.get(k, 0) != tree0.get(k, 0)])
        elif fail and st == b'0' and tree != tree0: bad = 'status 0, but %s' % ', '.join('%s is %s' % (k, show(tree.get(k, 'missing'))) for k in sorted(set(tree) | set(tree0)) if tree.get(k, 0) != tree0.get(k, 0))[:300]
        elif stray(tree, may): bad = stray(tree, may)
        elif (cmd, may) in MOVE:
            # what was to be moved is somewhere, whole, unless the file it replaced was the one to go
            for k in may.split():
                if START.get(k) is not None and not whole(tree, START[k]) and not (cmd in ('move /y a b', 'move /y a d') and k != 'a'): bad = 'the contents of %s are lost' % k; break
            for k in may.split():
                if k in tree and tree[k] is not None and tree[k] not in [v for v in START.values()]: bad = '%s is incomplete' % k
        elif (cmd, may) in COPY and fail and '+' not in cmd and cmd != 'copy /y *.t other':
            # what there is at a destination is the beginning of what should be there, or what was there
            for k in may.split():
                v = tree.get(k)
                if v is not None and v != START.get(k) and not (tree0.get(k) or b'').startswith(v): bad = '%s holds something else' % k
        if bad: chk.violation('%s, %s: %s' % (cmd, s, '; '.join('%s' % log0[int(x.split(':')[0]) - 1] for x in s.split(',') if x[0] != '*' and int(x.split(':')[0]) <= len(log0))), case(cmd, s), 'reported, and nothing lost', bad)
        else: chk.outcomes.add(hash((cmd, st, tuple(sorted((k, v) for k, v in tree.items() if v is not None)))))
    if chk.enough(): break
# folders that cannot be read: what they hold cannot be copied, moved or deleted, and this is reported
for cmd in ('copy /r s e', 'copy /r s/ e', 'move /r s e', 'rd /s /q s', 'copy /r s/u e', 'copy s/u/* e', 'move s/u/* e', 'copy s/u/r e'):
    for mode in (0o1000, 0o111, 0o444):
        for closed in ('s/u', 's/v', 's'):
            c = case(cmd, '-'); c.files = [f if f[0] != closed else (closed, None, 1, mode) for f in c.files]
            c.key = '%s, with %s of mode %o' % (cmd, closed, mode)
            r = run([c])[0]; st, tree, log = result(r); chk.traces += 1; chk.state(c.key)
            t0 = next((result(x)[1] for (q, m), x in zip(COPY + MOVE + DEL, plain) if q == cmd), None)
            bad = None
            if st is None: bad = 'the interpreter ended with %d' % r.status
            elif t0 is not None and st == b'0' and {k: v for k, v in tree.items()} != t0: bad = 'status 0, but %s' % [k for k in sorted(set(tree) | set(t0)) if tree.get(k, 0) != t0.get(k, 0)]
            elif t0 is None and st == b'0' and 'r' not in ''.join(k for k in tree if k.startswith('e/')): bad = 'status 0, but nothing done'
            else:
                for k, v in START.items():
                    if v is not None and not whole(tree, v) and not cmd.startswith('rd'): bad = k + ' is lost'
            if bad: chk.violation(c.key, c, 'reported', bad)
            else: chk.outcomes.add(hash((c.key, st)))
chk.assumptions.append('calls are made to fail or shortened by a tracer (lib/fault.c); the calls of the command interpreter on the script itself are left alone')
chk.sample({'command': 'copy a+g+b n', 'fault': 'the third write fails with ENOSPC'})
chk.finish()
