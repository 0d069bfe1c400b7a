"""P32: /? shows the help of a command and does nothing else."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P32')
CMDS = 'echo exit pause set setlocal endlocal cls color title type more goto start cd chdir dir if del erase ren rename move md mkdir rd rmdir copy for call def shift find break pushd popd wc xargs prompt pecho timeout mod locale ver'.split()
# words that may follow /?, by command: they must not do their work
AFTER = {'exit': ['5', '/b 5'], 'set': ['v=2', '/a v=2'], 'type': ['f1'], 'more': ['f1'], 'goto': ['end'], 'cd': ['..'], 'chdir': ['..'], 'dir': ['f1'], 'del': ['f1', '/q f1'], 'erase': ['f1'], 'ren': ['f1 f9'], 'rename': ['f1 f9'],
         'move': ['f1 f9'], 'md': ['nn'], 'mkdir': ['nn/x'], 'rd': ['/q e1'], 'rmdir': ['e1 /q'], 'copy': ['f1 f9'], 'call': [':end', '../s.bat'], 'def': ['zz=echo hi'], 'shift': ['/1', '1'], 'pushd': ['..'], 'popd': ['x'],
         'wc': ['f1'], 'mod': ['x'], 'find': ['"o" f1'], 'start': ['../s.bat'], 'timeout': ['0'], 'pause': ['x'], 'cls': ['x'], 'break': ['on'], 'ver': ['x']}
# ... and words that may stand before it
BEFORE = {'del': ['f1', '/q f1'], 'erase': ['/q f1'], 'copy': ['f1', 'f1 f9', '/y f1 f9'], 'move': ['f1 f9'], 'type': ['f1'], 'wc': ['f1', '/l'], 'rd': ['/q e1'], 'rmdir': ['e1'], 'dir': ['f1', '/b'], 'more': ['f1', '/s'], 'timeout': ['0'], 'call': ['../s.bat']}
ALIASES = {'chdir': 'CHDIR', 'erase': 'ERASE', 'mkdir': 'MKDIR', 'rename': 'RENAME', 'rd': 'RD'}
FILES = [('d1', None), ('d1/f1', b'one\n'), ('d1/e1', None), ('s.bat', b'echo ran\n'), ('f1', b'up\n')]
HEAD = '@echo off\nset v=out\npushd d1\nsetlocal\nset v=in\n'
TAIL = '\necho @[%errorlevel%] %1 %v% %cd:~-3%\nendlocal\necho @%v%\npopd\nset l=none\nset /p l=\necho @%l% %1\nif exist d1/f1 echo @f1\nif exist d1/e1 echo @e1\nzz 2>nul || echo @undefined\nexit 0\n:end\necho jumped\n:r\nexit /b %1\n'
WANT = b'@[0] one in /d1\n@out\n@first one\n@f1\n@e1\n@undefined\n'
SURR = [('line', '{C}'), ('block', '(\n{C}\n)'), ('one line block', '({C})'), ('if', 'if 1==1 {C}'), ('else', 'if 1==2 (echo no) else {C}'), ('for', 'for %%q in (x) do {C}'), ('after &', 'rem & {C}'), ('after &&', 'call :r 0 && {C}'), ('after ||', 'call :r 3 || {C}'), ('at', '@{C}'), ('spaced', '   {C}')]
def forms(c):
    yield c, []; yield c.upper(), []; yield c.capitalize(), []; yield c[0] + c[1:].upper(), []
def cases():
    for c in CMDS:
        words = ['%s /?' % n for n, _ in forms(c)] + [c + x for x in ('  /?', ' /? ', '\t/?') if c not in ('pause', 'pecho', 'prompt', 'xargs')]    # those take their text as it is written
        words += ['%s /? %s' % (c, a) for a in AFTER.get(c, [])] + ['%s %s /?' % (c, a) for a in BEFORE.get(c, [])]
        words += ['help ' + c, 'HELP ' + c.upper(), 'help  %s ' % c]
        for w in words:
            for nm, t in SURR:
                if nm in ('after &', 'after &&', 'after ||') and c in ('if', 'for') and False: continue
                yield c, w, nm, t
def main():
    base = {}
    def mk(text, key, data): return script(HEAD + text + TAIL, 'one', 'two', key=key, files=FILES, stdin=b'first\nsecond\n', data=data, snap=True)
    # the help of each command names it as its manual does
    bl = [mk(c + ' /?', c + ' /?', c) for c in CMDS]
    for cs, r in zip(bl, run(bl)):
        chk.state(cs.key); chk.traces += 1; c = cs.data
        n = ALIASES.get(c, c.upper()).encode()
        if r.status != 0 or not re.search(rb'(^|\n)(Usage: | +)' + n + rb'( |\n|$|\[|\.)', r.err) or r.err.count(b'Usage: ') != 1: chk.violation(cs.key, cs, 'Usage: ' + c.upper() + '...', r)
        base[c] = r.err
    same = {}
    for c in CMDS: same.setdefault(base[c], []).append(c)
    for l in same.values():
        if sorted(l) not in ([l[0]], ['cd', 'chdir'], ['del', 'erase'], ['ren', 'rename'], ['md', 'mkdir'], ['rd', 'rmdir']): chk.violation('the help of ' + ' '.join(l), None, 'each command has its own help', l)
    def gen():
        for c, w, nm, t in cases():
            chk.state((w, nm)); chk.transitions += 1
            yield mk(t.replace('{C}', w), '%s (%s)' % (w, nm), (WANT, base[c]))
        # more than one help in a script
        for c, d in itertools.product(CMDS, CMDS):
            chk.state((c, d)); chk.transitions += 2
            yield mk('%s /?\nhelp %s' % (c, d), '%s /? ; help %s' % (c, d), (WANT, base[c] + base[d]))
    for block in chunks(gen(), 2000):
        if chk.enough(): break
        for cs, r in zip(block, run(block)):
            chk.traces += 1
            want, err = cs.data
            tree = set(r.tree) - set(f[0] for f in cs.files)
            out = re.sub(rb'^@\[\d\]', b'@[0]', r.out) if '(after ||)' in cs.key else r.out    # a few leave the error level
            if r.status != 0 or out != want or r.err != err or tree: chk.violation(cs.key, cs, (want, err), (r, sorted(tree)))
            else: chk.outcomes.add(err)
    # HELP alone lists every command once, one a line; /? inside of words and texts is no question
    l = [script('@echo off\nhelp\n', key='help'), script('@echo off\nhelp a b\necho @%errorlevel%\n', key='help a b')]
    r, r2 = run(l); chk.traces += 2
    names = [x for x in (r.out + r.err).decode().split('\n') if x]
    if any(names.count(c.upper()) != 1 for c in CMDS + ['rem', 'help']): chk.violation('help', l[0], 'every command once', r)
    if b'@0' in r2.out or not r2.err: chk.violation('help a b', l[1], 'an error', r2)
    it = [Item(t, t, w) for t, w in [('echo x /?', b'x /?\n'), ('echo a/?', b'a/?\n'), ('echo "/?"x', b'"/?"x\n'), ('rem /?\necho a', b'a\n'), ('set w=/?\necho [%w%]', b'[/?]\n'), ('if /?==/? echo y', b'y\n'), ('set "w=echo /? x"\necho [!w!]', b'[echo /? x]\n'), ('call :pp /?x\necho z\ngoto l1\n:pp\nexit /b 0\n:l1', b'z\n')]]
    batch(chk, it, per=1)
    chk.bounds = '%d commands, each written in every way and with every operand of the tables before and after /?, in each of %d surroundings, through /? and HELP, and all pairs of them' % (len(CMDS), len(SURR))
    chk.finish()
main()
