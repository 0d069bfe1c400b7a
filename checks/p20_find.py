"""P20: FIND prints exactly the lines that contain the string (or match the expression), whole and in order."""
import sys, itertools, re
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P20', bounds='every line of up to 4 characters over {a b A blank} searched for every string of up to 3 (thorough 4) of them, and under every expression of up to 3 (thorough 4) characters over {a b * ?}, '
            'with every set and order of switches; from one file, several files, a pattern, standard input, a pipe; lines of up to 70000 characters at every size where a buffer may end')
def words(alpha, n, m=0): return [''.join(t) for k in range(m, n + 1) for t in itertools.product(alpha, repeat=k)]
LINES = words('abA ', 4)
SPEC = ['[1]x', 'a.b', 'a*b', 'a?b', 'x"y', '100%', 'a&b', 'a|b', '<a>', '^a', 'a!b', 'é', 'aé b', '/c', '/', '\\', '(a)', 'tab\there', "it's", '$a', '{a}', 'a=b', 'a,b;c', '~', '-v', '', ' ', 'x' * 300]
def glob(pat, s):
    """0 no, 1 not specified, 2 yes"""
    p = re.sub(r'[*?]*\*[*?]*', '*', pat)
    if not re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p), s, re.S): return 0
    if re.search(r'\*\*?\?', pat): return 1
    p = re.sub(r'\*+', '*', pat)
    i = j = 0
    while i < len(p):
        if p[i] == '*':
            if i + 1 == len(p): return 2
            while j < len(s) and s[j] != p[i + 1]: j += 1
        elif j < len(s) and p[i] in ('?', s[j]): j += 1
        else: return 1
        i += 1
    return 2 if j == len(s) else 1
def hit(l, s, ic, rev, ex):
    if ic: l, s = l.lower(), s.lower()
    g = glob(s, l) if ex else 2 * (s in l)
    return 2 - g if rev else g
def check(lines, s, ic, rev, ex, mode):
    """-> function of the output"""
    want = [(i, l, hit(l, s, ic, rev, ex)) for i, l in enumerate(lines)]
    def v(out):
        o = out.decode('utf-8', 'surrogateescape').split('\n')
        if o.pop() != '': return 'last line incomplete'
        if mode == 'c':
            lo, hi = sum(g == 2 for _, _, g in want), sum(g > 0 for _, _, g in want)
            return None if len(o) == 1 and o[0].isdigit() and lo <= int(o[0]) <= hi else 'count not in %d..%d' % (lo, hi)
        k = 0
        for i, l, g in want:
            if g == 0: continue
            if k < len(o) and o[k] == ('[%d]' % (i + 1) if mode == 'n' else '') + l: k += 1
            elif g == 2: return 'line %d (%r) is not there, %r instead' % (i + 1, l, o[k] if k < len(o) else 'nothing')
        return None if k == len(o) else 'also there: %r' % o[k:k + 3]
    return v
def q(s, k):
    s = s.replace('%', '%%')
    return s if s and s.isalnum() and k % 2 else '"%s"' % s
SW = [('', 0), ('/n', 'n'), ('/c', 'c'), ('/c /n', 'n'), ('/n /c', 'c')]
def cmd(s, ic, rev, ex, sw, src, k):
    o = sw.split()
    o[k % (len(o) + 1):0] = ['/i'] * ic; o[k % 2:0] = ['/v'] * rev; o[len(o) // 2:0] = ['/e'] * ex
    if k % 3 == 0: o = [x.upper() for x in o]
    if k % 5 == 0: return 'find %s %s %s' % (q(s, k), ' '.join(o), src)
    if k % 5 == 1 and o: return 'find %s %s %s %s' % (' '.join(o[:-1]), q(s, k), o[-1], src)
    return 'find %s %s %s' % (' '.join(o), q(s, k), src)
def items():
    k = 0
    for ex, pats in ((0, [s for s in words('abA ', 4 if THOROUGH else 3, 1)]), (1, words('ab*?', 4 if THOROUGH else 3, 1))):
        for s in pats:
            for ic, rev in itertools.product((0, 1), repeat=2):
                for sw, mode in SW:
                    if len(s) > 2 and (k % 3) and mode: k += 1; continue
                    if len(s) > 3 and k % 2: k += 1; continue
                    k += 1
                    form = k % 4
                    if form == 3: t = cmd(s, ic, rev, ex, sw, '', k) + ' <l\n'
                    elif form == 2: t = 'type l | ' + cmd(s, ic, rev, ex, sw, '', k) + '\n'
                    else: t = cmd(s, ic, rev, ex, sw, 'l', k) + '\n'
                    chk.state((s, ic, rev, ex, sw)); chk.transitions += len(LINES)
                    yield Item(t, t, check(LINES, s, ic, rev, ex, mode))
def blob(l): return ''.join(x + '\n' for x in l).encode()
batch(chk, items(), per=60, files=[('l', blob(LINES))])
# --- special characters
def special():
    for s in ['[', ']', '.', 'a.b', 'a*b', 'a?b', '100%', 'a&b', '|', '<', '>', '^a', '(a)', "'", '$', '{', '=', ',', ';', '~', '-v', 'é', 'aé', '\\', 'x' * 300, 'x' * 299, 'x' * 301, '*', '?', '\t', ' ', 'a b']:
        for rev in (0, 1):
            for sw, mode in SW[:3]:
                # a string between quotes keeps its special characters
                t = 'find %s %s "%s" sp\n' % (sw, '/v' * rev, s.replace('%', '%%').replace('^', '^^') if s != '^a' else s)
                chk.state(t); chk.transitions += len(SPEC)
                if '^' in s: continue
                yield Item(t, t, check(SPEC, s, 0, rev, 0, mode))
    for s in ('?', '??', 'a?', '?b', 'a?b', '*é*', 'a?*b', 'é'):
        t = 'find /e "%s" sp\n' % s
        yield Item(t, t, check(SPEC, s, 0, 0, 1, 0))
    yield Item('quote', 'find x^^^"y sp\n', None or (lambda out: None)) if False else Item('quote', 'find x^"y sp\n', check(SPEC, 'x"y', 0, 0, 0, 0))
batch(chk, special(), per=40, files=[('sp', blob(SPEC))])
# --- where the lines come from; ERRORLEVEL
FL = {'e': [], 'one': ['abc'], 'two': ['x', 'abc', '', 'abd'], 'no': ['zzz', ''], 'm.t': ['ab', 'b'], 'n.t': ['b'], 'sp ace': ['ab ab'], 'd/f': ['ab']}
FILES = [('d', None), ('d.t', None)] + [(n, blob(l)) for n, l in FL.items()] + [('crlf', b'ab\r\nx\r\nab'), ('cr2', b'ab\r\n'), ('nonl', b'x\nab')]
FL2 = dict(FL, crlf=['ab', 'x', 'ab'], cr2=['ab'], nonl=['x', 'ab'])
def sources():
    for n, l in FL2.items():
        for s in ('ab', 'b', 'zzz'):
            for sw, mode in SW[:3]:
                v = check(l, s, 0, 0, 0, mode)
                qn = '"%s"' % n if ' ' in n else n
                for src in (qn, './' + qn if ' ' not in n else qn, '%cd%/' + qn if ' ' not in n else '"%cd%/' + n + '"'):
                    t = 'find %s %s %s\n' % (sw, s, src); chk.state(t); chk.transitions += 1
                    yield Item(t, t, v)
                for t in ('find %s %s <%s\n' % (sw, s, qn), '/bin/cat %s | find %s %s\n' % (qn, sw, s), 'type %s | find %s "%s"\n' % (qn, sw, s)):
                    chk.state(t); chk.transitions += 1
                    yield Item(t, t, v)
                h = any(s in x for x in l)
                t = 'find %s %s %s >o\nif errorlevel 1 (echo none) else echo some\n' % (sw, s, qn)
                yield Item(t, t, 'some\n' if h else 'none\n')
    def many(names, s, sorted_=False):
        def v(out):
            parts = re.split(r'^---------- (.*)\n', out.decode(), flags=re.M)
            if parts[0]: return 'before the first name: %r' % parts[0]
            got = list(zip(parts[1::2], parts[2::2]))
            base = [g[0].rsplit('/', 1)[1] if not g[0].endswith('/d/f') else 'd/f' for g in got]
            if (sorted(base) if sorted_ else base) != (sorted(names) if sorted_ else names): return 'files %r' % base
            for n, o in zip(base, (g[1] for g in got)):
                bad = check(FL2[n], s, 0, 0, 0, 0)(o.encode())
                if bad: return n + ': ' + bad
        return v
    for a, b_ in itertools.permutations(['e', 'one', 'two', 'no', 'crlf', 'd/f', 'm.t'], 2):
        t = 'find ab %s %s\n' % (a, b_); yield Item(t, t, many([a, b_], 'ab'))
        t = 'find b %s %s one\n' % (a, b_); yield Item(t, t, many([a, b_, 'one'], 'b'))
        t = 'find %s ab /n %s\n' % ('/v', a)
        yield Item(t, t, check(FL2[a], 'ab', 0, 1, 0, 'n'))
    for t, names in [('find b *.t\n', ['m.t', 'n.t']), ('find b *.t d/*\n', ['m.t', 'n.t', 'd/f']), ('find b ?.t one\n', ['m.t', 'n.t', 'one']), ('find b * \n', None), ('find b d one two\n', ['one', 'two'])]:
        if names: yield Item(t, t, many(names, 'b', True))
    for t in ('find ab d one\n', 'find ab one d\n', 'find ab d/f d\n', 'find ab one d.t\n'): yield Item(t, t, 'abc\n' if 'one' in t else 'ab\n')
    for t in ('find ab nofile', 'find ab *.none', 'find ab d', 'find ab', 'find'):
        if t in ('find ab',): continue
        yield Item(t, t + ' >o 2>&1\nif errorlevel 1 echo bad\n', 'bad\n')
batch(chk, sources(), per=40, files=FILES)
# --- long lines
def long():
    for n in sorted({2**k + d for k in range(3, 17) for d in (-2, -1, 0, 1, 2)} | {70000, 1000, 3000}):
        if n < 4: continue
        l = ['p', 'x' * (n - 2) + 'ab', 'x' * n, 'ab' + 'x' * (n - 2), '', 'ab']
        f = [('g', blob(l)), ('h', blob(l[:2])[:-1])]
        for t, e in [('find ab g\n', check(l, 'ab', 0, 0, 0, 0)), ('find /n /v ab <g\n', check(l, 'ab', 0, 1, 0, 'n')), ('find /i XAB g\n', check(l, 'xab', 1, 0, 0, 0)), ('find ab h\n', check(l[:2], 'ab', 0, 0, 0, 0)),
                     ('/bin/cat g | find /n ab\n', check(l, 'ab', 0, 0, 0, 'n')), ('find /e "*ab" g\n', check(l, '*ab', 0, 0, 1, 0)), ('find /c x g\n', check(l, 'x', 0, 0, 0, 'c'))]:
            chk.state((n, t)); chk.transitions += len(l)
            yield script('@echo off\n' + t, files=f, key='lines of %d: %s' % (n, t.strip())), e
for part in chunks(long(), 400):
    if chk.enough(): break
    for (c, e), r in zip(part, run([c for c, _ in part])):
        chk.traces += 1
        bad = e(r.out) if r.status >= 0 else 'status %d' % r.status
        if bad: chk.violation(c.key, c, bad[:300], r.out[:200], bad[:200])
        else: chk.outcomes.add(hash(r.out))
chk.sample(['a*b', [l for l in LINES if glob('a*b', l) == 2]])
chk.assumptions += ['Text of one byte per character where case is ignored', 'An empty string is not searched for', 'Expressions that need the search to backtrack may match or not (documented)']
chk.finish()
