"""P16: the interpreter is killed at any moment of a command which copies, moves, renames or deletes files."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
from scenarios import *
chk = Check('P16', level='fault_enumeration', bounds='every point between two system calls on files, and every torn write, of each of %d commands; then the same command again on what is left; thorough: killed again at every point of that second run' % len(COPY + MOVE + DEL))
CMDS = COPY + MOVE + DEL
plain = run([case(c, '-') for c, m in CMDS])
PL = {}
jobs = []
for (cmd, may), r in zip(CMDS, plain):
    st, tree, log = result(r); chk.traces += 1
    if st is None or not log and cmd != 'ren a b': print('check error: no trace of ' + cmd); sys.exit(3)
    PL[cmd] = (st, tree, log); chk.transitions += len(log)
    for i in range(1, len(log) + 1):
        jobs.append((cmd, may, '%d:k' % i))
        if log[i - 1].startswith('write') and i < len(log): jobs += [(cmd, may, '%d:s,%d:k' % (i, i + 1)), (cmd, may, '%d:h,%d:k' % (i, i + 1))]
def whole(tree, content): return any(v == content for v in tree.values())
def judge(cmd, may, tree):
    st, full, log = PL[cmd]
    bad = stray(tree, may)
    if bad: return bad
    ends = set(full)
    for k in may.split():
        v = tree.get(k)
        if (cmd, may) in MOVE:
            # each content that was to be moved, or was in the way, exists whole, where it was or where it goes; no file holds anything else
            o = START.get(k)
            if k in tree and v is not None and v != o and v != full.get(k): return '%s holds neither what it had nor what it is to have' % k
            if o is not None and not whole(tree, o) and whole(full, o): return 'the contents of %s are lost' % k
        elif (cmd, may) in DEL:
            if k in tree and k in START and v != START[k]: return '%s changed' % k
        else:
            if v is not None and v != START.get(k) and full.get(k) is not None and not full[k].startswith(v): return '%s does not hold the beginning of what it is to have' % k
    return None
again = []
for js in chunks(jobs, 3000):
    for (cmd, may, s), r in zip(js, run([case(j[0], j[2]) for j in js])):
        chk.traces += 1; st, tree, log = result(r); chk.state((cmd, s))
        if r.status != 99:
            bad = 'not killed (%d)' % r.status
        else: bad = judge(cmd, may, tree)
        if bad: chk.violation('%s, %s: killed before %s' % (cmd, s, PL[cmd][2][int(s.split(',')[-1].split(':')[0]) - 1]), case(cmd, s), 'nothing lost', bad)
        else:
            chk.outcomes.add(hash((cmd, tuple(sorted((k, v) for k, v in tree.items() if v is not None)))))
            again.append((cmd, may, s, tree))
# the same command on what is left: everything gets to where it is to be (if the sources of the first run are gone it cannot succeed, but it loses nothing either)
def rerun(cmd, tree, spec):
    c = case(cmd if cmd.startswith(('md', 'rd', 'ren', 'del')) or '/y' in cmd else cmd.replace(' ', ' /y ', 1), spec)
    c.files = [c_ for c_ in c.files if c_[0] == 't.bat'] + [(k, v) for k, v in sorted(tree.items())]
    return c
for js in chunks(again, 3000):
    for (cmd, may, s, tree), r in zip(js, run([rerun(j[0], j[3], '-') for j in js])):
        chk.traces += 1; st, t2, log = result(r); full = PL[cmd][1]; bad = None
        chk.state((cmd, s, 'again'))
        for k, v in START.items():
            if v is not None and whole(full, v) and not whole(t2, v): bad = 'the contents of %s are lost' % k
        if st is None: bad = 'the interpreter ended with %d' % r.status
        elif not bad and cmd.startswith('copy') and (st != b'0' or t2 != full) and cmd != 'copy /r s/ e': bad = 'the second run does not complete the copy: status %r, %s' % (st, [k for k in set(t2) | set(full) if t2.get(k, 0) != full.get(k, 0)])
        elif not bad and cmd.startswith(('move', 'ren', 'del', 'rd', 'md')) and st == b'0' and any(k in full and full[k] is not None and t2.get(k, 0) != full[k] for k in may.split()): bad = 'status 0, but not done'
        if bad: chk.violation('%s, %s, again' % (cmd, s), rerun(cmd, tree, '-'), 'completed', bad)
        if THOROUGH:
            cs = [rerun(cmd, tree, '%d:k' % i) for i in range(1, len(log) + 1)]
            for i, x in enumerate(run(cs)):
                chk.traces += 1; a, t3, l3 = result(x); chk.state((cmd, s, 'again', i)); bad = None
                for k, v in START.items():
                    if v is not None and whole(full, v) and not whole(t3, v): bad = 'the contents of %s are lost' % k
                bad = bad or stray(t3, may)
                if bad: chk.violation('%s, %s, again killed at %d' % (cmd, s, i + 1), cs[i], 'nothing lost', bad)
chk.assumptions.append('a crash is the end of the process: what was written before is kept (the page cache survives)')
chk.sample({'command': 'move /r s e', 'killed before': PL['move /r s e'][2][3] if len(PL['move /r s e'][2]) > 3 else ''})
chk.finish()
