"""P37: the line editor: what is typed at a terminal is the line that is run, the one on the screen, and the one that history gives back."""
import sys, itertools, os, pty, select, subprocess, tempfile, shutil, fcntl, termios, struct, time, signal, multiprocessing
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P37', bounds='every sequence of up to %d of 16 keys typed on 3 lines, of up to %d on 8 more (blanks, two-byte, wide and combining characters); every other code of the keys; lines of 0 to 85 characters edited at both ends, in the middle and around every place where the terminal wraps, on terminals of 12, 20 and 80 columns and prompts of 4 lengths; '
            'every walk of up to %d steps through a history of up to 4 lines; every prefix of 14 names completed by TAB in 12 surroundings' % ((5, 4, 6) if THOROUGH else (4, 3, 5)))
COMB = '\u0301'
WIDE = '漢'
# --- the model: a list of characters (with what combines with them) and a place in it
def step(s, k):
    t, p = s
    if k in ('LEFT', '^B'): return t, max(0, p - 1)
    if k in ('RIGHT', '^F'): return t, min(len(t), p + 1)
    if k in ('HOME', '^A', 'HOMEO'): return t, 0
    if k in ('END', '^E', 'ENDO'): return t, len(t)
    if k in ('BS', '^H'): return (t[:p - 1] + t[p:], p - 1) if p else s
    if k in ('DEL', '^D'): return t[:p] + t[p + 1:], p
    if k == '^U': return (), 0
    if k == '^K': return t[:p], p
    if k == '^W':
        q = p
        while q and t[q - 1] == ' ': q -= 1
        while q and t[q - 1] != ' ': q -= 1
        return t[:q] + t[p:], q
    if k == '^T':
        if 0 < p < len(t): return t[:p - 1] + (t[p], t[p - 1]) + t[p + 1:], p + 1 if p != len(t) - 1 else p
        return s
    if k in ('^L', 'INS', 'F5'): return s
    if k == COMB: return (t[:p - 1] + (t[p - 1] + k,) + t[p:], p) if p else ((k,) + t, 1)
    return t[:p] + (k,) + t[p:], p + 1
CODE = {'LEFT': '\x1b[D', 'RIGHT': '\x1b[C', 'HOME': '\x1b[H', 'END': '\x1b[F', 'HOMEO': '\x1bOH', 'ENDO': '\x1bOF', 'DEL': '\x1b[3~', 'BS': '\x7f', 'UP': '\x1b[A', 'DOWN': '\x1b[B', 'INS': '\x1b[2~', 'F5': '\x1b[5~', 'TAB': '\t'}
def code(k): return CODE.get(k) or (chr(ord(k[1]) - 64) if len(k) == 2 and k[0] == '^' else k)
# --- the terminal
class Screen:
    def __init__(self, cols): self.cols, self.rows, self.r, self.c, self.cleared = cols, [{}], 0, 0, False
    def down(self, n):
        self.r += n
        while len(self.rows) <= self.r: self.rows.append({})
    def put(self, ch):
        w = 2 if ch == WIDE else 1
        if ch == COMB:
            k = max((c for c in self.rows[self.r] if c < self.c), default=None)
            if k is not None: self.rows[self.r][k] += ch
            return
        if self.c + w > self.cols: self.down(1); self.c = 0
        self.rows[self.r][self.c] = ch
        if w == 2: self.rows[self.r][self.c + 1] = ''
        self.c += w
    def feed(self, s):
        i = 0
        while i < len(s):
            ch = s[i]; i += 1
            if ch == '\r': self.c = 0
            elif ch == '\n': self.down(1)
            elif ch == '\x07': pass
            elif ch == '\x1b':
                i += 1; j = i
                while s[j].isdigit() or s[j] == ';': j += 1
                n = s[i:j]; f = s[j]; i = j + 1
                m = int(n or 1) if ';' not in n else 1
                if f == 'A': self.r = max(0, self.r - m)
                elif f == 'B': self.r += m; self.down(0)
                elif f == 'C': self.c = min(self.cols - 1, self.c + m)
                elif f == 'D': self.c = max(0, self.c - m)
                elif f == 'K':
                    for k in [k for k in self.rows[self.r] if k >= self.c]: del self.rows[self.r][k]
                elif f == 'H': self.r = self.c = 0
                elif f == 'J': self.rows = [{}]; self.r = 0; self.cleared = True
            else: self.put(ch)
    def text(self): return [''.join(row.get(k, ' ') for k in range(max(row, default=-1) + 1)) for row in self.rows]
class Session:
    """The program at a terminal of its own, reading line after line with SET /P."""
    def __init__(self, cols=80, prompt='', files=(), variant=None, interactive=False):
        self.dir = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or '/dev/shm', prefix='verif-p37-'); self.cols, self.prompt = cols, prompt
        for f in files:
            if f.endswith('/'): os.makedirs(self.dir + '/' + f, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(self.dir + '/' + f), exist_ok=True); open(self.dir + '/' + f, 'w').close()
        self.log = self.dir + '.log'
        open(self.dir + '.bat', 'w').write('@echo off\n:l\nset v=\nset /p v=%s\necho [!v!]>> %s\ngoto l\n' % (prompt, self.log))
        self.m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', 50, cols, 0, 0))
        def own():
            os.setsid(); fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        self.p = subprocess.Popen([program('pbat', variant)] + ([] if interactive else ['../' + os.path.basename(self.dir) + '.bat']), stdin=s, stdout=s, stderr=subprocess.DEVNULL, cwd=self.dir, preexec_fn=own, env={'PATH': '/usr/bin:/bin', 'TERM': 'xterm', 'LC_ALL': 'C.UTF-8'})
        os.close(s); self.buf = b''; self.shown = []; self.asked = self.wait()
    def wait(self):
        """What is written until the editor asks where the cursor is."""
        end = time.time() + 40
        while b'\x1b[6n' not in self.buf:
            r, _, _ = select.select([self.m], [], [], max(0, end - time.time()))
            if not r: return None
            try: d = os.read(self.m, 65536)
            except OSError: return None
            if not d: return None
            self.buf += d
        a, self.buf = self.buf.split(b'\x1b[6n', 1)
        return a.decode('utf-8', 'replace')
    def line(self, keys):
        """Types one line; gives what is on the screen at its end, or None."""
        if self.asked is None: return None
        col = len(self.prompt)
        d = (''.join(map(code, keys)) + '\r').encode()
        try:
            os.write(self.m, b'\x1b[1;%dR' % (col + 1))
            for i in range(0, len(d), 1000): os.write(self.m, d[i:i + 1000])
        except OSError: self.asked = None; return None
        a = self.asked = self.wait()
        if a is None: return None
        # what SET /P shows for the next line is behind the last newline
        k = a.rfind('\n'); a, rest = a[:k + 1], a[k + 1:]
        sc = Screen(self.cols); sc.feed(self.prompt)
        sc.feed(a); return sc
    def close(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait(); os.close(self.m)
        got = open(self.log, 'rb').read().decode('utf-8', 'replace').split('\n')[:-1] if os.path.exists(self.log) else []
        shutil.rmtree(self.dir, ignore_errors=True)
        for f in (self.log, self.dir + '.bat'):
            if os.path.exists(f): os.unlink(f)
        return got
def layout(text, cols, prompt):
    """The rows a line takes on the screen."""
    rows, cur, w = [], prompt, len(prompt)
    for ch in text:
        cw = 2 if ch[0] == WIDE else 1
        if w + cw > cols: rows.append(cur); cur, w = '', 0
        cur += ch; w += cw
    rows.append(cur)
    return rows
def work(job):
    """job: (cols, prompt, files, [(key, keys, expected text)]).  Gives the complaints."""
    cols, prompt, files, variant, lines = job; bad = []
    def once(part):
        s = Session(cols, prompt, files, variant); n = 0
        try:
            for key, keys, text, show_it in part:
                sc = s.line(keys)
                if sc is None: return n, s.close(), 'no prompt any more'
                n += 1
                if show_it and not sc.cleared:
                    e = [x.rstrip() for x in layout(text, cols, prompt)]; g = [x.rstrip() for x in sc.text()]
                    while g and not g[-1]: g.pop()
                    while e and not e[-1]: e.pop()
                    if g != e: bad.append((key, 'on the screen: %r' % e, repr(g)))
        except Exception as x:
            s.close(); raise
        return n, s.close(), None
    n, got, why = once(lines)
    exp = ['[%s]' % ''.join(t) for _, _, t, _ in lines]
    for i in range(len(lines)):
        if i >= len(got) or got[i] != exp[i]:
            bad.append((lines[i][0], exp[i], got[i] if i < len(got) else why or 'nothing')); 
            if i >= len(got): break
            if len(bad) > 20: break
    return len(lines), bad
program('pbat'); program('pbat', 'asan')
POOL = multiprocessing.Pool(int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4))
def go(gen, per=400, cols=80, prompt='', files=(), variant=None):
    def jobs():
        part = []
        for x in gen:                   # a list belongs together
            part += x if isinstance(x, list) else [x]
            if len(part) >= per: yield (cols, prompt, files, variant, part); part = []
        if part: yield (cols, prompt, files, variant, part)
    t0 = time.time()
    for n, bad in POOL.imap_unordered(work, jobs()):
        chk.traces += n
        for key, e, g in bad: chk.violation(key, None, e, g)
        if chk.enough(): break
    if os.environ.get('VERBOSE'): print(chk.traces, '%.1f' % (time.time() - t0), flush=True)
def typed(init, keys, show_it=True, where=''):
    s = (tuple(init), len(init))
    for k in keys:
        s = step(s, k); chk.transitions += 1
    chk.state(s); chk.outcomes.add(s[0])
    return ('%s%s + %s' % (where, ''.join(init), ' '.join(keys)), list(init) + list(keys), s[0], show_it)
program('pbat')
KEYS = ['a', ' ', 'é', WIDE, 'LEFT', 'RIGHT', 'HOME', 'END', 'DEL', 'BS', '^W', '^U', '^K', '^D', COMB, '^T']
def legal(init, keys):
    """Not claimed: end of the input (^D on an empty line), characters that combine with nothing, beyond what leading() tries."""
    s = (tuple(init), len(init))
    for k in keys:
        if k == '^D' and not s[0]: return False
        if k == COMB and (s[1] == 0 or s[0][s[1] - 1][0] == ' '): return False
        s = step(s, k)
    return True
def sequences(inits, n, keys=KEYS):
    for init in inits:
        for d in range(n + 1):
            for q in itertools.product(keys, repeat=d):
                if legal(init, q): yield typed(init, q)
D = 4 if THOROUGH else 3
go(sequences(['', 'ab c'], D))
go(sequences([list('é ') + [WIDE] + ['x']], D))
go(sequences(['a  b', '  ', 'x', '"a" %b% !c!', '^&|<>', list('éé'), ['e' + COMB, 'b'], [WIDE, WIDE]], D - 1))
if not THOROUGH: go(sequences(['ab c'], 4, [k for k in KEYS if k not in (WIDE, COMB, '^D', 'é')]))
# the other codes of the keys, and codes that mean nothing here
go(sequences(['ab', 'é b'], 3, ['x', '^A', '^E', '^B', '^F', '^H', 'HOMEO', 'ENDO', '^L', 'INS', 'F5', '^D']))
# a character that combines with nothing
def leading():
    for n in range(4):
        for q in itertools.product(('x', 'é', ' ', 'BS', 'END', '^U', '^W', WIDE), repeat=n):
            yield typed('', (COMB,) + q, False)
    for t in ('x', 'ab c', 'é', WIDE):
        for q in ((), ('END', 'y'), ('BS',), ('END', 'BS'), ('^U', 'z'), ('^K',)): yield typed(t, ('HOME', COMB) + q, False)
go(leading())
# long lines, edited at every place
def long(cols, prompt):
    for n in range(*{12: (0, 40), 20: (0, 45), 80: (64, 86) if THOROUGH else (76, 83)}[cols]):
        if not THOROUGH and prompt and n % 3 == 1: continue
        for wide in (0, 1):
            text = [(WIDE if wide and i % 5 == 4 else chr(97 + i % 26)) for i in range(n)]
            for left in sorted({0, 1, 2, n // 2, n - 1, n} | {x for x in range(n + 1) if (n - x + len(prompt)) % cols in (0, 1, cols - 1)}):
                if left < 0: continue
                for k in ((), ('X',), ('BS',), ('DEL',), ('^K',), ('^U', 'z'), ('HOME', 'X', 'END', 'Y')):
                    yield typed(text, ('LEFT',) * left + k, not wide and not (k == ('^K',)), 'columns %d, prompt %r: ' % (cols, prompt))
for cols in (12, 20, 80):
    for prompt in ('', 'p', 'what? ', 'ten chars:'):
        go(long(cols, prompt), cols=cols, prompt=prompt, per=150)
# history: the lines before, the last one first; a line given back can be edited and is then a line of its own
def history():
    n = 6 if THOROUGH else 5
    uid = 0
    for have in range(0, 5):
        for d in range(1, n + 1):
            for walk in itertools.product(('UP', 'DOWN'), repeat=d):
                for edit in ((), ('x',), ('HOME', 'y'), ('BS',)):
                    if edit and d > 3: continue
                    uid += 1; lines = ['l%d.%d' % (uid, i) for i in range(have)]
                    # several in one process: lines before these are there as well, so `have` distinct ones bound the walk
                    at = 0; ok = True
                    for w in walk:
                        at = at + 1 if w == 'UP' else max(0, at - 1)
                        if at > have: ok = False
                    if not ok: continue
                    for new in ('', 'new'):
                        ls = [(l,) for l in lines]
                        uid += 1; lines = ['l%d.%d' % (uid, i) for i in range(have)]
                        cur = lines[-at] if at else new
                        yield lines, new, walk, edit, cur
def hist():
    for lines, new, walk, edit, cur in history():
        case = [typed(l, (), True, 'history: ') for l in lines]
        s = (tuple(cur), len(cur))
        for k in edit: s = step(s, k)
        chk.transitions += len(walk) + len(edit); chk.state((len(lines), walk, edit))
        yield case + [('history of %d lines, %r typed, then %s' % (len(lines), new, ' '.join(walk + edit)), list(new) + list(walk) + list(edit), s[0], True)]
go(hist(), per=300)
# the same line twice is there once; the oldest lines are forgotten, the newest hundred never
def more_history():
    for n in (2, 50, 98, 99):
        for i in range(n): yield typed('m%d.%d' % (n, i), ())
        for back in (1, 2, n // 2, n - 1):
            # each of these adds a line of its own: count from there
            pass
        yield ('%d lines back' % n, ['UP'] * n, tuple('m%d.0' % n), True)
    for r in (2, 3):
        yield typed('first%d' % r, ())
        for i in range(r): yield typed('twice%d' % r, ())
        yield ('repeated line', ['UP', 'UP'], tuple('first%d' % r), True)
go(more_history(), per=5000)
# TAB
NAMES = ['alpha', 'alphabet', 'beta.txt', 'be', 'gamma', 'two words', 'éa', 'éb1', 'sub/one', 'sub/only', 'deep/er/x', 'UP', 'num1', 'num2']
def entries(d):
    return sorted({n[len(d):].split('/')[0] for n in NAMES if n.startswith(d)})
def complete(word):
    d, n = (word.rsplit('/', 1)[0] + '/', word.rsplit('/', 1)[1]) if '/' in word else ('', word)
    m = [e for e in entries(d) if e.startswith(n)]
    if not m: return word, False
    c = os.path.commonprefix(m)
    return d + c, len(m) > 1 and c == n
def tabs():
    words = sorted({n[:i] for n in NAMES for i in range(1, len(n) + 1)} | {'zz', 'alx', 'sub/', 'sub/z', 'deep/er/'})
    for w in words:
        full, lists = complete(w)
        if w.lower() != w and w != 'UP' and w != 'U': continue
        for before, after in (('', ''), ('type ', ''), ('a b ', ''), ('x&', ''), ('x|', ''), ('x\t', ''), ('', ' tail'), ('type ', ' t"a'), ('', ' ' + 'long tail of words' * 3), ('"q r" ', ''), ('type "', '"'), ('type "', '" x'), ('"', '"'), ('"a b" "', '" "c d"')):
            if ' ' in w and not before.endswith('"'): continue
            for k in ((), ('x',), ('BS',)):
                init = tuple(before) + tuple(w) + tuple(after); s = (tuple(before) + tuple(full) + tuple(after), len(before) + len(full))
                for q in k: s = step(s, q)
                chk.transitions += 1; chk.state(('tab', w, before, after, k)); chk.outcomes.add(s[0])
                yield ('TAB behind %r in %r' % (before + w, before + w + after), [c for c in before.replace('\t', ' ') + w + after] + ['LEFT'] * len(after) + ['TAB'] + list(k), tuple(' ' if c == '\t' else c for c in s[0]), not lists and 'é' not in w)
go(tabs(), files=NAMES)
# the same with every access to memory watched
go(tabs(), files=NAMES, variant='asan')
go(sequences(['ab c', 'é' + WIDE], 2), variant='asan')
# commands typed at the prompt
def commands(job):
    part = job; s = Session(80, '', (), None, True); n = 0; out = []
    L = [c for c in '>> ' + s.log]
    exp = []
    s.line(['e', 'c', 'h', 'o', ' ', 'o', 'f', 'f'])
    for i, seq in enumerate(part):
        exp.append('#%d-' % i); s.line(list('echo #%d-' % i) + L)
        q = ''; last = exp[-1]
        s.line(list('set q='))
        last = None
        for op in seq:
            if op == 'a': s.line(list('echo a') + L); exp.append('a'); last = ['a']
            elif op == 'edited': s.line(list('echo xb') + ['LEFT', 'BS', 'END'] + L); exp.append('b'); last = ['b']
            elif op == 'set': s.line(list('set q=5')); q = '5'; last = []
            elif op == 'get': s.line(list('echo [%q%]') + L); exp.append('[%s]' % q); last = 'get'
            elif op == 'block':
                s.line(list('if 1==1 (')); s.line(list('echo c') + L); s.line(list('echo d') + L); s.line([')']); exp += ['c', 'd']; last = 'none'
            elif op == 'UP':
                if last is None: s.line(list('rem')); last = []
                elif last == 'none': s.line(['UP', 'UP', 'UP']); exp.append('c'); last = ['c']
                else:
                    s.line(['UP'])
                    if last == 'get': exp.append('[%s]' % q)
                    elif last: exp += last
            n += 1
        if s.asked is None: break
    got = s.close()
    return n, part, got, exp
def prompts():
    for d in range(1, 5 if THOROUGH else 4):
        for seq in itertools.product(('a', 'edited', 'set', 'get', 'block', 'UP'), repeat=d): yield seq
POOL.terminate(); POOL = multiprocessing.Pool(int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4))
for n, part, got, exp in POOL.imap_unordered(commands, chunks(prompts(), 20)):
    chk.traces += len(part); chk.transitions += n
    for q in part: chk.state(('prompt', q))
    if got != exp:
        i = next((i for i, (g, e) in enumerate(zip(got, exp)) if g != e), min(len(got), len(exp))); k = sum(1 for e in exp[:i + 1] if e.startswith('#')) - 1
        chk.violation('at the prompt: ' + ' / '.join(part[k]), None, exp[max(0, i - 3):i + 3], got[max(0, i - 3):i + 3])
POOL.terminate()
chk.sample({'typed': 'ab c LEFT BS x', 'line': 'abxc'})
chk.finish()
