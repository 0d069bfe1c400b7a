"""P31: every command tells whether it succeeded, wherever it stands."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P31')
# --- the files every case starts from; operands of their own for the commands that change something
FILES = [('f1', b'line one\nline two\n'), ('d1', None), ('d1/in', b'in\n'), ('full', None), ('full/x', b'x\n'), ('secret', b's\n', 0, 0o200), ('locked', b'', 1, 0o555), ('locked/y', b'y\n', 0, 0o644), ('closed', b'', 1, 0o600),
         ('nox', b'#!/bin/sh\nexit 0\n', 0, 0o644), ('ext0', b'#!/bin/sh\nexit 0\n', 0, 0o755), ('ext5', b'#!/bin/sh\nexit 5\n', 0, 0o755), ('dead', b'#!/bin/sh\nkill -9 $$\n', 0, 0o755),
         ('s0.bat', b'@echo off\nexit /b 0\n'), ('s6.bat', b'@echo off\ntype nof 2>nul\nexit /b 6\n'), ('sbad.bat', b'@echo off\ntype nof\n'), ('sok.bat', b'@echo off\ntype nof 2>nul\necho x\n')]
OWN = ['c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'c7', 'c8', 'c9']
FILES += [(n, b'own\n') for n in OWN] + [('e%d' % i, None) for i in range(1, 5)]
# (text, says): commands that fail; `says` tells that a message is given
BAD = [(t, True) for t in [
  'cd nodir', 'cd f1', 'chdir nodir/sub', 'copy', 'copy f1', 'copy nof x', 'copy f1 nodir/x', 'copy secret x', 'copy f1 locked', 'copy f1 locked/z', 'copy zz* x',
  'del', 'erase', 'del nof', 'del zz*', 'del locked/y', 'find', 'find "one" nof', 'find "one" secret', 'for', 'for %%z', 'for %%z in', 'for %%z in (a)', 'if', 'if 1 foo 2 echo x', 'if exist',
  'md f1/x', 'mkdir locked/new', 'md f1', 'move', 'move f1', 'move nof x', 'move f1 nodir/x', 'move locked/y x', 'more nof', 'more secret',
  'pushd nodir', 'pushd f1', 'rd', 'rd /q nodir', 'rmdir /q f1', 'rd /q full', 'rd /q locked/y', 'ren', 'ren f1', 'ren nof x', 'rename f1 d1', 'ren locked/y z',
  'set nosuch', 'set /l', 'set /p', 'set /a 1+', 'setlocal foo', 'shift /x', 'shift foo', 'type nof', 'type secret', 'type d1', 'wc nof', 'wc /z f1', 'wc /l secret', 'xargs',
  'color zz', 'locale a b', 'timeout abc', 'call', 'call nof', 'call :nolabel', 'nocmd', 'nocmd arg', './nox', 'nodir/nocmd', 'mod z', 'def', 'def x', 'start', 'goto nolabel', 'goto',
  'type nof f1', 'type f1 nof', 'type f1 secret d1/in', 'find "one" f1 nof', 'find "one" nof f1', 'find "one" f1 secret f1', 'wc nof f1', 'wc f1 nof', 'wc /l f1 secret f1', 'del locked/y c9', 'del c9 locked/y', 'rd /q full e3', 'rd /q e3 full', 'rd /s /q f1 e3',
  'md f1/x new9', 'md new9 f1/x', 'pushd nodir d1', 'copy secret f1 d1', 'copy f1 secret d1', 'copy /y f1 + secret n9', 'copy /y secret + f1 n9', 'move locked/y c9 d1', 'move c9 locked/y d1', 'more nof f1']]
BAD += [(t, False) for t in ['find "zzz" f1', 'popd', './ext5', 'ext5 a b', './dead', 'call s6.bat', 's6.bat', 'call s6.bat a', 'call :r 4', '/bin/false']]
BAD += [(t, True) for t in ['call sbad.bat', 'sbad.bat']]
OK = ['cd .', 'cd', 'cd d1/..', 'copy f1 n1', 'copy /y f1 c1', 'copy f1 + c2 n2', 'del c3', 'erase /q c4', 'dir', 'dir d1', 'dir /b *', 'echo x', 'echo', 'echo.', 'find "one" f1', 'find /v "zzz" f1', 'find /i "ONE" f1',
      'for %%z in (a b) do rem %%z', 'for /l %%z in (1,1,3) do rem', 'for /f %%z in (f1) do echo %%z', 'if 1==1 rem', 'if exist f1 (echo y) else nocmd', 'md new1', 'md new2/sub', 'mkdir d1', 'move c5 n3', 'move c6 d1', 'more f1',
      'pushd .', 'rd /q e1', 'rmdir /q e2', 'rd /s /q full', 'ren c7 n4', 'rename c8 n5', 'rem', 'rem x', 'set v=1', 'set', 'set path', 'set nosuch=', 'set /a r=1+2', 'shift', 'shift /2', 'type f1', 'type f1 c2', 'type d1/in', 'wc f1', 'wc /l f1',
      'xargs echo <f1', 'title x', 'ver', 'timeout 0', 'call :ok', 'call s0.bat', 'call s0.bat a b', 's0.bat', 'call sok.bat', './ext0', 'ext0 a', '/bin/true', 'pecho x', 'cls', 'break', 'def pq=echo hi', 'color 07', 'call echo x', 'prompt $g', 'echo off', '@echo x', '(echo x)', 'nocmd 2>nul & rem']
PART = ('del c9', 'del locked/y c9', 'md new9', 'md f1/x new9', 'rd /q e3', 'rd /q full e3', 'rd /s /q f1', 'copy secret f1', 'copy f1 secret', 'copy /y', 'move ')   # one of several operands fails: the others are treated
KEEP = ['setlocal', 'endlocal', 'setlocal enableextensions', ':: text', ':lab', '']
TAIL = '\ngoto done\n:ok\ntype f1\nexit /b 0\n:r\nexit /b %1\n:sub\n{S}\ngoto :eof\n:done\nrem\necho @Z\nexit 0\n'
ONCE = {'del c3', 'erase /q c4', 'move c5 n3', 'move c6 d1', 'rd /q e1', 'rmdir /q e2', 'rd /s /q full', 'ren c7 n4', 'rename c8 n5', 'def pq=echo hi', 'copy f1 n1', 'copy f1 + c2 n2'}
EATS = ('def', 'rem', ':', 'for', 'if', 'echo off')   # these take the rest of the line for themselves
L0, L7 = 'call :r 0\n', 'call :r 7\n'
# contexts: (name, text with {C}, marks when it succeeds, marks when it fails)
CTX = [('line', '{C}\necho @[%errorlevel%]\n', ['E0'], ['E1']),
       ('block', '(\n{C}\necho @[!errorlevel!]\n)\n', ['E0'], ['E1']),
       ('if errorlevel', '{C}\nif !errorlevel! neq 0 (echo @B) else echo @A\n', ['A'], ['B']),
       ('(c)&&', '({C}) && echo @A\n', ['A'], []), ('(c)||', '({C}) || echo @B\n', [], ['B']), ('(c)&&||', '({C}) && echo @A || echo @B\n', ['A'], ['B']), ('(c)||&&', '({C}) || echo @B && echo @A\n', ['A'], ['B', 'A']),
       ('(nl)&&', '(\n{C}\n) && echo @A\n', ['A'], []), ('if (c)', 'if 1==1 ({C})\necho @[%errorlevel%]\n', ['E0'], ['E1']), ('else (c)', 'if 1==2 (echo no) else ({C})\necho @[%errorlevel%]\n', ['E0'], ['E1']),
       ('for (c)', 'for %%q in (x y) do (\n{C}\n)\necho @[%errorlevel%]\n', ['E0'], ['E1']), ('call :sub', 'call :sub && echo @A || echo @B\n', ['A'], ['B']),
       ('call file', 'call cf.bat && echo @A || echo @B\n', ['A'], ['B']), ('redirected', '({C}) > out.txt\necho @[%errorlevel%]\n', ['E0'], ['E1']), ('errors redirected', '({C}) 2> nul || echo @B\n', [], ['B']),
       ('last of a pipe', 'echo x | ({C})\necho @[%errorlevel%]\n', ['E0'], ['E1'])]
SAME = [('&&', '{C} && echo @A\n', ['A'], []), ('||', '{C} || echo @B\n', [], ['B']), ('&&||', '{C} && echo @A || echo @B\n', ['A'], ['B']), ('&', '{C} & echo @[!errorlevel!]\n', ['E0'], ['E1']),
        ('if c', 'if 1==1 {C}\necho @[%errorlevel%]\n', ['E0'], ['E1']), ('for c', 'for %%q in (x) do {C}\necho @[%errorlevel%]\n', ['E0'], ['E1']), ('>', '{C} > out.txt\necho @[%errorlevel%]\n', ['E0'], ['E1']), ('2>', '{C} 2> nul\necho @[%errorlevel%]\n', ['E0'], ['E1'])]
def marks(out):
    return [('E0' if m[1:-1] == b'0' else 'E1') if m[:1] == b'[' else m.decode() for m in re.findall(rb'@(\[-?\d+\]|[A-Z])', out)]
def once(c): return c in ONCE
def singles():
    for c, good, says in [(t, False, s) for t, s in BAD] + [(t, True, None) for t in OK]:
        for nm, tx, yes, no in CTX + (SAME if not c.startswith(EATS) else []):
            if once(c) and nm in ('for (c)',): continue
            if c.startswith(('goto', 'shift', 'call :')) and nm in ('call file',): continue
            if c.startswith('goto') and nm in ('call :sub',): pass
            if '<' in c and nm == 'last of a pipe': continue
            if c.startswith(('rem', 'def', 'for %%z in (a)')) and '({C})' in tx: tx = tx.replace('({C})', '(\n{C}\n)')
            if c == 'for %%z in (a)' and '(nl' not in nm and nm not in ('line', 'block', 'call :sub', 'call file'): continue
            for lv in (L0, L7):
                text = '@echo off\n' + lv + tx.replace('{C}', c) + TAIL.replace('{S}', c)
                yield (c, nm, lv), text, c, (yes if good else no) + ['Z'], (says if not good else 'quiet') if nm in ('line', 'block', 'if errorlevel', '(c)&&', '(c)&&||', 'if (c)', 'call file') else None
    for c in KEEP:
        for lv, m in ((L0, 'E0'), (L7, 'E1')):
            yield (c, 'keep', lv), '@echo off\n' + lv + c + '\necho @[%errorlevel%]\n' + TAIL.replace('{S}', c), c, [m, 'Z'], None
def pairs():
    A = [(t, False) for t, _ in BAD] + [(t, True) for t in OK] + [(t, None) for t in KEEP]
    n = 3 if THOROUGH else 2
    for i, (c, g) in enumerate(A):
        for j, (d, h) in enumerate(A):
            if c == d and once(c): continue
            if g is None and h is None: continue
            if (c, d) in (('pushd .', 'popd'),): continue
            l = [c, d]; k = [g, h]
            yield l, k
def seqtext(l, k):
    t, m, s = '@echo off\n' + L0, [], True
    for c, g in zip(l, k):
        t += c + '\necho @[%errorlevel%]\n'
        if g is not None: s = g
        m.append('E0' if s else 'E1')
        s = True     # ECHO succeeds
    return t + TAIL.replace('{S}', 'rem'), m + ['Z']
def gen():
    for key, text, c, exp, says in singles():
        chk.state(key); chk.transitions += 1
        yield script(text, key='%s %s after %s' % (key[0], key[1], key[2].strip()), files=FILES + [('cf.bat', b('@echo off\n' + c + '\n')), ('ext.bat', b'')], stdin=b'', data=(exp, says), timeout=10000, snap=(key[1] in ('line', 'block', 'call file') and exp != ['E0', 'Z'] and exp != ['A', 'Z']))
    for l, k in pairs():
        text, m = seqtext(l, k)
        chk.state(tuple(l)); chk.transitions += 2
        yield script(text, key=' ; '.join(l), files=FILES, stdin=b'', data=(m, None), timeout=10000)
def main():
    for block in chunks(gen(), 3000):
        if chk.enough(): break
        for c, r in zip(block, run(block)):
            chk.traces += 1
            exp, says = c.data
            got = marks(r.out)
            if r.status != 0 or got != exp: chk.violation(c.key, c, exp, (got, r))
            elif says == 'quiet' and r.err and not c.key.startswith(('type f1 c2', 'timeout')): chk.violation(c.key, c, 'no message on the error stream', r)
            elif c.snap and not c.key.startswith(PART) and set(r.tree) != set(f[0] for f in c.files): chk.violation(c.key, c, 'no file added or removed', sorted(set(r.tree) ^ set(f[0] for f in c.files)))
            elif says and says != 'quiet' and not r.err: chk.violation(c.key, c, 'a message on the error stream', r)
            else: chk.outcomes.add((tuple(got), bool(r.err)))
    chk.bounds = ('%d commands that must fail, %d that must succeed and %d that leave the error level, each in %d surroundings after an error level of 0 and of 7, and every pair of them in one script' % (len(BAD), len(OK), len(KEEP), len(CTX) + len(SAME)))
    chk.finish()
main()
