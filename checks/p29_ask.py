"""P29: commands that read the input share it exactly: each takes its own lines, whole, and leaves the rest."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
DEPTH = 4 if THOROUGH else 3
chk = Check('P29', bounds='every sequence of up to %d of 15 consumers of input (SET /P in its forms, blocks, loops, calls, scripts, redirections, pipes, PAUSE, a confirmation, programs, FIND, MORE, XARGS, WC), '
            'lines from a list of 24 with LF, CRLF and missing ends, input from a file and from a pipe; lines of every length up to 700 and around the powers of two up to 65536; answers among the lines of a script read from standard input' % DEPTH)
LINES = ['one', 'two words', '  lead', 'trail  ', '%a% %1', '!b! !', 'c^d ^^', 'e & f', 'g | h > i < j', '"q r"', '"s', "'t'", 'u=v', '=w', '(x', ')y', ':z', 'rem k', '/?', '\tm\tn', 'é€😀', '1', 'Y', ';,;']
def ends(k, last): return ['\n', '\r\n'][k % 2] if not last else ['\n', '\r\n', ''][k % 3]
class Env:
    """the reference: the input as one string and a position"""
    def __init__(self, text): self.t = text; self.p = 0; self.out = ''; self.n = 0; self.dead = False
    def line(self):
        if self.p >= len(self.t): self.dead = True; return ''
        e = self.t.find('\n', self.p)
        l = self.t[self.p:] if e < 0 else self.t[self.p:e]
        self.p = len(self.t) if e < 0 else e + 1
        return l[:-1] if l.endswith('\r') else l
    def rest(self):
        r = self.t[self.p:]; self.p = len(self.t); return r
F = 'f1 %x%\nf2 !y!\r\nf3'
def v(e, k, l):
    e.out += '[%s]\n' % l
def c_set(e, k): e.out += 'Q%d:' % k; l = e.line(); v(e, k, l)
def c_quote(e, k): e.out += 'a=b '; v(e, k, e.line())
def c_block(e, k): e.out += 'PR'; a = e.line(); b_ = e.line(); e.out += '[%s]\n[%s]\n' % (a, b_)
def c_for(e, k):
    for i in '12': e.out += i + ':'; v(e, k, e.line())
def c_call(e, k): e.out += 'S'; v(e, k, e.line())
def c_script(e, k): e.out += 'T'; v(e, k, e.line())
def c_redir(e, k): e.out += 'F'; e.out += '[f1 %x%]\n'
def c_redirb(e, k): e.out += '[f1 %x%f2 !y!f3]\n'
def c_pipe(e, k): e.out += '[p q]\n'
def c_if(e, k):
    e.out += 'I'; l = e.line(); e.out += 'same\n' if l == 'one' else 'other\n'
def c_keep(e, k):
    a = e.line(); b_ = e.line(); e.out += '[%s][%s]\n' % (a, b_)
def c_pause(e, k):
    e.out += 'Press any key to continue...\n'
    if e.p >= len(e.t): e.dead = True
    e.p += 1
    if ord(e.t[e.p - 1:e.p] or 'a') > 127: e.dead = True   # one byte of a longer character
    if e.t[e.p - 1:e.p] in '\r\n': e.dead = True
def c_head(e, k):
    l = e.t[e.p:]; i = l.find('\n'); l = l if i < 0 else l[:i + 1]
    e.p += len(l); e.out += l + '#\n'
def c_find(e, k): r = e.rest(); ls = r.split('\n'); ls = ls[:-1] if ls[-1] == '' else ls; e.out += '%d\n' % sum('e' in x for x in ls)
def c_wc(e, k): r = e.rest(); e.out += '%d\n' % r.count('\n'); e.dead = e.dead or not r.endswith('\n')
def c_cat(e, k): e.out += e.rest() + '#\n'
KINDS = {
    'set': ('set /p v%d=Q%d:\necho [!v%d!]', c_set), 'quote': ('set /p "v%d=a=b "\necho [!v%d!]', c_quote),
    'block': ('(set /p v%d=P& set /p w=R)\necho [!v%d!]\necho [!w!]', c_block),
    'for': ('for %%%%i in (1 2) do (set /p v%d=%%%%i:\necho [!v%d!])', c_for), 'call': ('call :s', c_call), 'script': ('call s.bat', c_script),
    'redir': ('set /p v%d=F<f\necho [!v%d!]', c_redir), 'redirb': ('(set /p a=& set /p b=& set /p c=)<f\necho [!a!!b!!c!]', c_redirb),
    'pipe': ('echo p q|set /p v%d=\necho [!v%d!]', c_pipe), 'if': ('set /p v%d=I\nif "!v%d!"=="one" (echo same) else echo other', c_if),
    'keep': ('set /p v%d=\nset /p w%d=\necho [!v%d!][!w%d!]', c_keep),
    'pause': ('pause', c_pause), 'head': ('head -n 1\necho #', c_head), 'find': ('find /c "e"', c_find), 'wc': ('wc -l', c_wc), 'cat': ('cat\necho #', c_cat),
}
KINDS.pop('wc')
def sub(t, k): return t.replace('%%%%', '%%') .replace('%d', str(k))
TAIL = 'goto :eof\n:s\nset /p v=S\necho [!v!]\ngoto :eof\n'
def seqs():
    n = 0
    for d in range(1, DEPTH + 1):
        for s in itertools.product(KINDS, repeat=d):
            if any(x in ('find', 'cat', 'wc') for x in s[:-1]): continue
            n += 1
            for pipe in (False, True):
                if pipe and ('head' in s or 'cat' in s and len(s) > 1): continue
                need = 3 * d
                for j in range(1 if d > 2 else len(LINES) if d == 1 else 3):
                    ls = [LINES[(n * 5 + i * 7 + j) % len(LINES)] for i in range(need)]
                    t = ''.join(l + ends(n + i + j, i == need - 1) for i, l in enumerate(ls))
                    e = Env(t)
                    body = []
                    for k, x in enumerate(s):
                        body.append(sub(KINDS[x][0], k)); KINDS[x][1](e, k)
                    if e.dead: continue
                    chk.state((s, pipe, j)); chk.transitions += d
                    yield s, pipe, t, '@echo off\n' + '\n'.join(body) + '\n' + TAIL, e.out
def go(gen):
    for block in chunks(gen, 6000):
        cs = []
        for s, pipe, t, text, want in block:
            cs.append(Case('%s%r input %r' % ('pipe ' if pipe else '', s, t if len(t) < 400 else (len(t), t[:50])), [program('pbat'), 't.bat'],
                           [('t.bat', b(text)), ('s.bat', b'@echo off\nset /p v=T\necho [!v!]\n'), ('f', b(F))], stdin=b(t), pipe=pipe))
        for (s, pipe, t, text, want), c, r in zip(block, cs, run(cs)):
            chk.traces += 1
            got = r.out.decode('utf-8', 'surrogateescape')
            if got != want or r.err or r.status: chk.violation(c.key, c, want, (got, r.err, r.status))
            chk.outcomes.add(hash(got))
        if chk.enough(): return
go(seqs())
def lengths():
    L = sorted(set(range(0, 700)) | {p + d for p in (1024, 2048, 4096, 8192, 16384, 32768, 65536) for d in range(-3, 4)})
    for n in L:
        x = ('0123456789' * (n // 10 + 1))[:n]
        for pipe in (False, True):
            for nl in ('\n', '\r\n'):
                if n > 300 and (n + pipe + len(nl)) % 2: continue
                t = x + nl + 'z' + nl + x + nl + x
                chk.state((n, pipe, nl)); chk.transitions += 4
                yield ('long', n), pipe, t, '@echo off\nset /p a=\nset /p b=\n(set /p c=& set /p d=)\nif "!a!"=="!c!" if "!a!"=="!d!" echo same!b!\necho [!a!]', 'samez\n[%s]\n' % x
go(lengths())
# --- the script and the answers come from the same input
def selfs():
    for d in range(1, 4 if THOROUGH else 3):
        for ls in itertools.product(LINES, repeat=d):
            for nl in ('\n', '\r\n'):
                for end in (nl, ''):
                    t = 'echo off' + nl
                    w = ''
                    for i, l in enumerate(ls):
                        t += ('set /p v%d=' % i + nl + l + nl, '(set /p v%d=' % i + nl + ')' + nl + l + nl, 'if 1==1 set /p v%d=' % i + nl + l + nl)[(i + len(l)) % 3]
                    for i, l in enumerate(ls): w += '[%s]\n' % l
                    t += nl.join('echo [!v%d!]' % i for i in range(d)) + end
                    yield t, w
for block in chunks(selfs(), 6000):
    cs = [Case('self %s%r' % ('pipe ' if i % 2 else '', t), [program('pbat')], stdin=b(t), pipe=i % 2 == 1) for i, (t, w) in enumerate(block)]
    for (t, w), c, r in zip(block, cs, run(cs)):
        chk.traces += 1; chk.state(t); chk.transitions += 1
        got = r.out.decode('utf-8', 'surrogateescape'); got = got[got.find('['):] if '[' in got else got
        if got != w or r.err: chk.violation(c.key, c, w, (got, r.err))
    if chk.enough(): break
# --- questions take one line per answer, a wrong one is asked for again, the end of the input is a no
def asked():
    A = ['y', 'n', 'a', '', 'Yes', 'NO', 'aLL', 'x', 'yess', 'nope', 'maybe yes']
    L = [c + 'x' * k for c in 'yn' for k in list(range(1, 40)) + [58, 59, 60, 61, 118, 119, 120]] + ['n' * 30 + 'y', 'x' * 30 + 'y', 'x' * 30 + 'n', 'x' * 30, 'y' * 29, 'y' * 30, 'y' * 31]
    hs = [h for n in range(4 if THOROUGH else 3) for h in itertools.product(A, repeat=n)] + [(x, y, z) for x in L for y in ('y', 'n') for z in ('n', 'a')]
    for i, h in enumerate(hs):
        for nl in ('\n', '\r\n'):
            for tail in ('', 'rest', 'rest\n'):
                if tail == '' and i % 2: continue
                t = ''.join(a + nl for a in h) + tail
                e = Env(t); gone = []; every = False; bad = 0; qs = 0
                for f in ('f0', 'f1'):
                    while True:
                        if every: gone.append(f); break
                        qs += 1
                        if e.p >= len(e.t): break
                        a = e.line().lower()
                        if a in ('', 'n', 'no'): break
                        if a in ('y', 'yes'): gone.append(f); break
                        if a in ('a', 'all'): every = True; continue
                        bad += 1
                e.dead = False; r = e.line()
                yield h, nl, t, gone, None if e.dead else r, qs
def ask_all():
    for block in chunks(asked(), 6000):
        cs = [Case('del /p f0 f1, input %r' % t, [program('pbat'), 't.bat'], [('t.bat', b'@echo off\ndel /p f0 f1\nset r=\nset /p r=\necho [!r!]\n'), ('f0', b'0'), ('f1', b'1')], stdin=t.encode(), pipe=i % 2 == 1, snap=True) for i, (h, nl, t, gone, rest, qs) in enumerate(block)]
        for (h, nl, t, gone, rest, qs), c, r in zip(block, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(h) + 1; chk.state(('ask', tuple(h[:1]), tuple(gone), qs))
            got = [f for f in ('f0', 'f1') if f not in r.tree]; out = r.out.decode('utf-8', 'replace')
            if got != gone or rest is not None and out != '[%s]\n' % rest or r.status or r.err.count(b'(yes/No/all)') not in (qs, 0) : chk.violation(c.key, c, (gone, rest, qs), (got, out, r.err[-300:], r.status))
            else: chk.outcomes.add((tuple(got), out[:9]))
        if chk.enough(): return
ask_all()
chk.sample({'sequence': ['set', 'block', 'redir', 'head', 'for'], 'note': 'every consumer must find the input where the last one left it'})
chk.finish()
