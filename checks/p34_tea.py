"""P34: TEA keeps every word of a document, in order, with its role, in every format."""
import sys, itertools, re
from html.parser import HTMLParser
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P34', bounds='all documents of up to 3 blocks of 14 kinds x 4 separators x 5 formats; all paragraphs of up to 4 of 14 inline pieces, glued or apart, plain, as items and below; '
            'all pairs of lengths of words round the width of a line, in every place of every kind of block, of 1 and 2 byte characters; every escape; every spelling and order of options; heads, feet, titles; documents that cannot be read or do not end')
TEA = program('tea')
FMT = ['TEXT', 'TEXT-PLAIN', 'TEXT-ANSI', 'HTML', 'MD']
WIDTH = 79
SGR = {'36': 'em', '34': 'link', '35': 'head', '32': 'code'}
# --- a document: list of (kind, level, mark, pieces); a piece is (role, text, target), text as it is to be read
def esc(t): return re.sub(r'([\\{}|])', r'\\\1', t)
def collapse(chars):
    """chars: (character, style); blanks are joined"""
    out = []
    for c, s in chars:
        if c in '\n\t ':
            if not out or out[-1][0] == ' ': continue
            c = ' '
        out.append((c, s))
    return out
def words(chars):
    out = [[]]
    for c in chars:
        if c[0] == ' ': out.append([])
        else: out[-1].append(c)
    return [w for w in out if w]
def mdesc(t): return re.sub(r'([_*\]\[()|~#])', r'\\\1', t)
def href(t):
    if re.match('(http|https|mail)://', t) or '.' in t.rsplit('/', 1)[-1]: return t
    return t + '.html'
def expect(fmt, pieces, mark):
    """The characters of a paragraph in a format, each with its role."""
    out = [('*' if fmt == 'MD' else '-', None)] if mark and fmt != 'HTML' else []
    for role, t, target in pieces:
        if role == 'raw': out += [(c, None) for c in (mdesc(t) if fmt == 'MD' else t)]
        elif fmt == 'TEXT': out += [(c, None) for c in ('_' + t + '_' if role == 'em' else t + ' (<' + target + '>)')]
        elif fmt == 'MD': out += [(c, None) for c in ('**' + mdesc(t) + '**' if role == 'em' else '[' + mdesc(t) + '](' + mdesc(target) + ')')]
        elif fmt == 'TEXT-PLAIN': out += [(c, None) for c in t]
        elif fmt == 'TEXT-ANSI': out += [(c, role) for c in t]
        else: out += [(c, role if role == 'em' else ('link', href(target))) for c in t]
    return words(collapse(out))
def fits(lines, exp, first, margin, gaps=False):
    """lines: lists of (character, role); None if they hold the words, once, in order, within the width"""
    i, rest = 0, None; longest = max([len(w) for w in exp] + [0]); wide = longest >= WIDTH - max(first, margin) - 1
    for n, l in enumerate(lines):
        ind = 0
        while ind < len(l) and l[ind][0] == ' ': ind += 1
        want = first if n == 0 else margin
        if not (want <= ind <= want + wide): return 'line %d starts in column %d, not %d' % (n, ind, want)
        ws = words(l[ind:])
        if not gaps and '  ' in ''.join(c for c, _ in l[ind:]).rstrip(): return 'blanks are not joined'
        if len(l) > WIDTH and len(''.join(c for c, _ in l).rstrip()) > WIDTH: return 'line %d has %d columns' % (n, len(l))
        for k, w in enumerate(ws):
            if rest is None:
                if i == len(exp): return 'there is more: %r' % ''.join(c for c, _ in w)
                rest = exp[i]
            if rest[:len(w)] != w: return 'word %r (%s) instead of %r (%s)' % (''.join(c for c, _ in w), w[0][1], ''.join(c for c, _ in rest), rest[0][1])
            if len(rest) > len(w):
                if k + 1 < len(ws) or len(exp[i]) < WIDTH - margin - 1: return 'word %r is cut' % ''.join(c for c, _ in exp[i])
                rest = rest[len(w):]
            else: rest = None; i += 1
    if rest is not None or i < len(exp): return '%d words are missing' % (len(exp) - i)
def styled(text):
    """lines of (character, role) of a text with SGR sequences"""
    lines, cur, role, at = [], [], None, 0
    for m in re.finditer(r'\x1b\[(\d+)m|\n|[^\n\x1b]', text):
        if m.start() != at: return None
        at = m.end()
        if m[1]: role = SGR.get(m[1], None if m[1] in ('0', '39') else role)
        elif m[0] == '\n': lines.append(cur); cur = []
        else: cur.append((m[0], role))
    if at != len(text): return None
    return lines + [cur]
def judge_text(fmt, doc, out):
    lines = styled(out)
    if lines is None or (fmt != 'TEXT-ANSI' and '\x1b' in out): return 'strange characters'
    at = 0; ansi = fmt == 'TEXT-ANSI'
    def blank(l): return not words(l)
    for b, (kind, level, mark, pieces) in enumerate(doc):
        if b and not (at < len(lines) and blank(lines[at])): return 'no blank line before block %d' % b
        while at < len(lines) and blank(lines[at]): at += 1
        end = at
        if kind == 'code':
            ind = (4 if fmt == 'MD' else 8) + 4 * level; step = (4 if fmt == 'MD' else 6) + 4 * level
            src = pieces.split('\n')
            while src and not src[0].strip(): src.pop(0)
            while src and not src[-1].strip(): src.pop()
            for l in src:
                w = [[(c, 'code' if ansi else None) for c in x] for x in l.split()]
                own = len(l) - len(l.lstrip(' '))
                n = ''.join(x[0][0] * 0 + ''.join(c for c, _ in x) for x in w)
                take, got = [], ''
                while at < len(lines):
                    take.append(lines[at]); got += ''.join(c for c, _ in lines[at] if c != ' '); at += 1
                    if len(got) >= len(n): break
                if len(l) + ind < WIDTH and fmt != 'MD':
                    if len(take) != 1: return 'code %r is cut' % l
                    if ''.join(c for c, _ in take[0]).rstrip() != (' ' * ind + l).rstrip(): return 'code %r is changed' % l
                if fmt == 'MD':
                    if ''.join(c for c, _ in take[0]).rstrip() != (' ' * ind + l).rstrip(): return 'code %r is changed' % l
                    continue
                if w:
                    if len(l) + ind < WIDTH: e = fits(take, w, ind + own, step, True)
                    else: e = cut(take, w)
                    if e: return 'code: ' + e
            continue
        while end < len(lines) and not blank(lines[end]): end += 1
        part = lines[at:end]; at = end
        if kind == 'head':
            t = ''.join(p[1] for p in pieces)
            if fmt == 'MD':
                t = ' '.join(t.split()); got = '\n'.join(''.join(c for c, _ in l) for l in part).rstrip()
                if got not in ('# ' + t, '## ' + t): return 'heading %r' % got
                continue
            if fmt in ('TEXT', 'TEXT-PLAIN'): t = ''.join(c.upper() if c < '\x80' else c for c in t)
            e = fits(part, words(collapse([(c, 'head' if ansi else None) for c in t])), 0, 0)
        elif fmt == 'MD': e = fits(part, expect(fmt, pieces, mark), 2 * level - 2 * mark, 2 * level)
        else: e = fits(part, expect(fmt, pieces, mark), 4 * level + 4 - 2 * mark, 4 * level + 4)
        if e: return '%s %d: %s' % (kind, b, e)
    if any(not blank(l) for l in lines[at:]): return 'there is more: %r' % ''.join(c for c, _ in lines[at])
def cut(lines, exp):
    a = [c for l in lines for c in l if c[0] != ' ']; b = [c for w in exp for c in w]
    if a != b: return 'the words differ'
    for l in lines:
        if len(''.join(c for c, _ in l).rstrip()) > WIDTH: return 'a line has %d columns' % len(l)
class Page(HTMLParser):
    """body: (tag, depth of lists, whether it is the first of its item, characters)"""
    def __init__(self): super().__init__(convert_charrefs=True); self.stack = []; self.body = []; self.cur = None; self.bad = None; self.title = ''; self.item = []; self.other = ''
    def handle_starttag(self, tag, attrs):
        if tag in ('meta',): return
        if tag == 'br':
            if self.cur is not None: self.cur[3].append(('\n', None))
            return
        if tag in ('p', 'pre', 'h1', 'h2'):
            d = sum(t == 'ul' for t, _ in self.stack)
            self.cur = (tag, d, bool(self.item and self.item[-1] == 0), []); self.body.append(self.cur)
            self.item = [n + 1 for n in self.item]
        if tag == 'li':
            if not self.stack or self.stack[-1][0] != 'ul': self.bad = 'li outside of ul'
            self.item.append(0)
        self.stack.append((tag, dict(attrs)))
    def handle_startendtag(self, tag, attrs): self.handle_starttag(tag, attrs)
    def handle_endtag(self, tag):
        if tag in ('meta', 'br'): return
        if not self.stack or self.stack[-1][0] != tag: self.bad = 'unbalanced </%s>' % tag; return
        self.stack.pop()
        if tag == 'li': self.item.pop()
        if tag in ('p', 'pre', 'h1', 'h2'): self.cur = None
    def handle_data(self, d):
        tags = [t for t, _ in self.stack]
        if 'title' in tags: self.title += d; return
        if self.cur is None:
            if d.strip(): self.other += '|' + d.strip()
            return
        role = next((('link', a.get('href')) if t == 'a' else 'em' for t, a in self.stack if t in ('a', 'strong')), None)
        self.cur[3].extend((c, role) for c in d)
def judge_html(doc, out, title='', other=''):
    p = Page(); p.feed(out); p.close()
    if p.bad or p.stack: return p.bad or 'open tags %r' % [t for t, _ in p.stack]
    if p.other != other: return 'text outside of blocks: %r' % p.other
    heads = [''.join(x[1] for x in b[3]) for b in doc if b[0] == 'head']
    if ' '.join(p.title.split()) != ' '.join((title + (heads[0] if heads else '')).split()): return 'title %r' % p.title
    if len(p.body) != len(doc): return '%d blocks instead of %d' % (len(p.body), len(doc))
    nth = 0; last = 0
    for (tag, depth, first, chars), (kind, level, mark, pieces) in zip(p.body, doc):
        if kind == 'head':
            want = 'h1' if nth == 0 else 'h2'; nth += 1; last = 0
            if tag != want or depth: return 'a heading is %s at depth %d' % (tag, depth)
            if words(collapse(chars)) != words(collapse([(c, None) for c in ''.join(x[1] for x in pieces)])): return 'heading %r' % ''.join(c for c, _ in chars)
        elif kind == 'code':
            if tag != 'pre' or depth != level: return 'code is %s at depth %d' % (tag, depth)
            if ''.join(c for c, _ in chars).strip('\n ') != pieces.strip('\n ') or any(r for _, r in chars): return 'code %r' % ''.join(c for c, _ in chars)
        else:
            if tag != 'p' or depth != level: return 'a paragraph is %s at depth %d instead of %d' % (tag, depth, level)
            if mark and not first: return 'an item without <li> of its own'
            if not mark and first and last >= level: return 'a <li> for what is not an item'
            if words(collapse(chars)) != expect('HTML', pieces, mark): return 'paragraph %r' % chars[:60]
        if kind != 'head': last = level
def judge(fmt, doc, out): return judge_html(doc, out) if fmt == 'HTML' else judge_text(fmt, doc, out)
def go(src, args, key, snap=False): return Case(key, [TEA, 'd.tea'] + args, files=[('d.tea', src)], timeout=5000, snap=snap, cap=1 << 18)
def check(gen):
    """gen: (name, source, doc, formats)"""
    for ch in chunks(gen, 3000):
        todo = [(n, s.encode() if isinstance(s, str) else s, d, f) for n, s, d, fs in ch for f in fs]
        cs = [go(s, ['/E:utf-8', '/O:' + f], '%s %s' % (f, n)) for n, s, d, f in todo]
        for (n, s, d, f), c, r in zip(todo, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(d) + sum(len(b[3]) for b in d if b[0] != 'code'); chk.state((f, s))
            out = r.out.decode('utf8', 'replace')
            why = 'status %d, errors %r' % (r.status, r.err[:100]) if r.status or r.err else judge(f, d, out)
            # the manual does not tell whether a backslash within code is shown
            if why and not r.status and not r.err and any(b[0] == 'code' and '\\' in b[3] for b in d): why = judge(f, [b if b[0] != 'code' else b[:3] + (re.sub(r'\\(.)', r'\1', b[3]),) for b in d], out)
            if why: chk.violation(c.key, c, str(d)[:600], out[-900:], why)
            else: chk.outcomes.add(hash(out))
        if chk.enough(): return
# --- blocks
def counter():
    n = itertools.count(1)
    return lambda: 'w%dx' % next(n)
def raw(t): return ('raw', t, None)
def blocks():
    """kind -> function of a word maker giving (source, kind, level (None: that of the last), mark, pieces)"""
    def para(lead, level, mark):
        def f(w):
            a, b, c, d, e = w(), w(), w(), w(), w()
            return ('%s %s {%s} {%s|%s}' % (lead, a, b, c, d), 'para', level, mark, [raw(' ' + a + ' '), ('em', b, None), raw(' '), ('link', d, c)])
        return f
    def short(lead, level, mark):
        def f(w): a = w(); return (lead + a, 'para', level, mark, [raw((' ' if lead[-1] == ' ' else '') + a)])
        return f
    def head(form):
        def f(w): a, b = w(), w(); return (form % (a, b), 'head', 0, False, [raw(a + ' ' + b)])
        return f
    def code(form):
        def f(w): t = form % tuple(w() for _ in range(form.count('%s'))); return ('${' + t + '}', 'code', None, False, t)
        return f
    return {'head': head('{{%s %s}}'), 'head2': head('{{ %s\n\t%s}}'), 'para': para('', 0, False), 'indented': short('\t ', 0, False), 'item': para('-', 1, True), 'glued': short('-', 1, True), 'sub': short('-- ', 2, True),
            'subsub': short('\t--- ', 3, True), 'hidden': para('@-', 1, False), 'hidden2': short('@-- ', 2, False), 'at': short('@', 0, False), 'code': code('%s  %s'), 'lines': code('\n  %s {%s}\n\n %s'), 'em': lambda w: (lambda a: ('{%s}' % a, 'para', 0, False, [('em', a, None)]))(w())}
BL = blocks()
SEPS = ['\n\n', '\n \t\n', '\n\n# comment {{ ${ {\n\n', '\n\n\n\t\t']
def build(kinds, sep):
    w = counter(); src = []; doc = []; last = 0
    for k in kinds:
        s, kind, level, mark, pieces = BL[k](w)
        if level is None: level = last
        last = level; src.append(s); doc.append((kind, level, mark, pieces))
    return sep.join(src), doc
def documents():
    for n in range(1, 4 + THOROUGH):
        for ks in itertools.product(BL, repeat=n):
            for i, sep in enumerate(SEPS):
                if n >= 3 and not THOROUGH and i not in (len(set(ks)) % 4, 0): continue
                s, d = build(ks, sep)
                if n >= 3 and not THOROUGH: fs = FMT if i == 0 else [FMT[(len(s) + i) % 5]]
                else: fs = FMT
                yield '%s %d' % (' '.join(ks), i), s + ('\n' if i % 2 == 0 else ''), d, fs
check(documents())
# headings and code need no blank lines around
def close():
    for n in (2, 3):
        for ks in itertools.product(BL, repeat=n):
            if any(not (a[:4] in ('head', 'code', 'line') and a not in ('hidden',) and (b[0] != 'h' or b == 'head') and b[:4] in ('head', 'code', 'line') or a in ('head', 'head2', 'code', 'lines') or b in ('head', 'head2', 'code', 'lines')) for a, b in zip(ks, ks[1:])): continue
            for sep in ('', '\n', ' '):
                s, d = build(ks, sep)
                yield '%s %r' % (' '.join(ks), sep), s, d, FMT if n == 2 or THOROUGH else FMT[len(s) % 5:][:1]
check(close())
# --- pieces of paragraphs
ATOMS = [lambda w: (lambda a: (a, [raw(a)]))(w()), lambda w: (lambda a: ('{%s}' % a, [('em', a, None)]))(w()), lambda w: (lambda a, b: ('{%s|%s}' % (a, b), [('link', b, a)]))(w(), w()),
         lambda w: (lambda a, b: ('{%s %s}' % (a, b), [('em', a + ' ' + b, None)]))(w(), w()), lambda w: (lambda a, b, c: ('{%s|%s\n %s}' % (a, b, c), [('link', b + ' ' + c, a)]))(w(), w(), w()),
         lambda w: (lambda a: ('\\{%s\\}' % a, [raw('{' + a + '}')]))(w()), lambda w: ('\\\\', [raw('\\')]), lambda w: ('-', [raw('-')]), lambda w: ('|', [raw('|')]), lambda w: ('}', [raw('}')]),
         lambda w: (lambda a: ('<%s & "' % a, [raw('<%s & "' % a)]))(w()), lambda w: (lambda a: ('{d/%s.x|\u00e9\\|\\}%s}' % (a, a), [('link', '\u00e9|}' + a, 'd/%s.x' % a)]))(w()), lambda w: ('.', [raw('.')]), lambda w: (lambda a: ('*%s_' % a, [raw('*%s_' % a)]))(w())]
def inline():
    for n in range(1, 5):
        for at in itertools.product(range(len(ATOMS)), repeat=n):
            if n == 4 and not THOROUGH and not set(at) <= {0, 1, 2, 3}: continue
            for g, glue in enumerate((' ', '', '\n\t')):
                if n >= 3 and not THOROUGH and g != sum(at) % 3: continue
                w = counter(); parts = [ATOMS[a](w) for a in at]
                body = glue.join(p[0] for p in parts)
                if '{{' in body or '}}' in body or '${' in body: continue
                pieces = [x for i, p in enumerate(parts) for x in ([raw(glue)] if i else []) + p[1]]
                for l, (lead, level, mark) in enumerate([('', 0, False), ('- ', 1, True), ('@-- ', 2, False)]):
                    if n >= 3 and l != len(body) % 3: continue
                    if l == 0 and body[0] == '-': continue
                    yield '%s%s' % (lead, body), lead + body, [('para', level, mark, ([raw(' ')] if lead else []) + pieces)], FMT if n <= 3 and (n < 3 or THOROUGH) else [FMT[(sum(at) + n) % 5], FMT[3]]
check(inline())
def escapes():
    for fs in [FMT]:
        for c in map(chr, range(33, 127)):
            for form, want in (('\\%s', '%s'), ('a\\%sb', 'a%sb'), ('a \\%s', 'a %s'), ('\\%s\\%s', None)):
                s = form.replace('%s', c); t = (want or '%s%s').replace('%s', c)
                if '{{' in s or '${' in s: continue
                yield s, s, [('para', 0, False, [raw(t)])], fs
                yield '- ' + s, '- ' + s, [('para', 1, True, [raw(' ' + t)])], fs
                if c != '|' and '}}' not in s: yield '{%s}' % s, 'x {%s}' % s, [('para', 0, False, [raw('x '), ('em', t, None)])], fs
                if '}}' not in s: yield '{{%s}}' % s, '{{w%sw}}' % s, [('head', 0, False, [raw('w' + t + 'w')])], fs
            if c not in '{}\\':
                yield 'code ' + c, '${a%sb%s%s}' % (c, c, c), [('code', 0, False, 'a%sb%s%s' % (c, c, c))], fs
            if c not in '{\\' and c != '$' and c != '#' and c != '-' and c != '@': yield 'plain ' + c, c + ' ' + c + c + 'a', [('para', 0, False, [raw(c + ' ' + c + c + 'a')])], fs
            if c not in '{}\\|': yield 'em ' + c, 'x {%s%s a%s}' % (c, c, c), [('para', 0, False, [raw('x '), ('em', '%s%s a%s' % (c, c, c), None)])], fs
        for t in ('a', 'a.b', 'a/b', 'a.b/c', 'a.b/c.d', 'http://x/y', 'https://x', 'mail://x', 'http', 'a/', '../a', '#x', 'x.html'):
            if t.startswith('..'): continue
            yield 'target ' + t, '{%s|w} z' % t, [('para', 0, False, [('link', 'w', t), raw(' z')])], ['HTML', 'TEXT', 'TEXT-PLAIN', 'TEXT-ANSI']
        for tail in ('\\', 'a  b \\', 'a   b\\'):
            yield 'end ' + tail, tail, [('para', 0, False, [raw(tail)])], [f for f in fs if f not in ('MD',)]
check(escapes())
def braces():
    """code with braces, balanced or escaped, and what follows it"""
    A = ['a', '{', '}', '\\{', '\\}', '\\\\', ' ', '\n']
    for n in range(1, 7 if THOROUGH else 6):
        for t in itertools.product(range(len(A)), repeat=n):
            lvl = 0; ok = True
            for x in t: lvl += (x == 1) - (x == 2); ok = ok and lvl >= 0
            code = ''.join(A[x] for x in t)
            if not ok or lvl or not code.strip() or code.split('\n')[-1].strip() == '' or '\n#' in code or (n == 5 and not THOROUGH and not {1, 2} <= set(t)): continue
            yield 'braces %r' % code, 'v1\n\n${' + code + '}\n{v2} v3 {v4|v5}', [('para', 0, False, [raw('v1')]), ('code', 0, False, code), ('para', 0, False, [('em', 'v2', None), raw(' v3 '), ('link', 'v5', 'v4')])], FMT if n < 4 or THOROUGH else [FMT[sum(t) % 5]]
check(braces())
# --- where lines are cut
LENS = [1, 2, 3] + list(range(60, 81)) + [120, 147, 148, 149, 150, 151, 152, 158, 159, 300] if THOROUGH else [1, 2, 5, 60, 62, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 142, 143, 150, 157, 158, 159, 300]
def wraps():
    K = [lambda a, b, c: ('%s %s %s' % (a, b, c), 'para', 0, 0, [raw('%s %s %s' % (a, b, c))]),
         lambda a, b, c: ('{%s} %s %s' % (a, b, c), 'para', 0, 0, [('em', a, None), raw(' %s %s' % (b, c))]),
         lambda a, b, c: ('%s {%s} %s' % (a, b, c), 'para', 0, 0, [raw(a + ' '), ('em', b, None), raw(' ' + c)]),
         lambda a, b, c: ('%s{%s}%s' % (a, b, c), 'para', 0, 0, [raw(a), ('em', b, None), raw(c)]),
         lambda a, b, c: ('{%s}{t|%s} %s' % (a, b, c), 'para', 0, 0, [('em', a, None), ('link', b, 't'), raw(' ' + c)]),
         lambda a, b, c: ('{t|%s %s}%s' % (a, b, c), 'para', 0, 0, [('link', a + ' ' + b, 't'), raw(c)]),
         lambda a, b, c: ('- %s %s %s' % (a, b, c), 'para', 1, 1, [raw(' %s %s %s' % (a, b, c))]),
         lambda a, b, c: ('-- {%s}%s %s' % (a, b, c), 'para', 2, 1, [raw(' '), ('em', a, None), raw('%s %s' % (b, c))]),
         lambda a, b, c: ('@--- %s %s{%s}' % (a, b, c), 'para', 3, 0, [raw('%s %s' % (a, b)), ('em', c, None)]),
         lambda a, b, c: ('{{%s %s %s}}' % (a, b, c), 'head', 0, 0, [raw('%s %s %s' % (a, b, c))]),
         lambda a, b, c: ('${%s %s\n %s}' % (a, b, c), 'code', 0, 0, '%s %s\n %s' % (a, b, c)),
         lambda a, b, c: ('${  %s\n\n%s  %s}' % (a, b, c), 'code', 0, 0, '  %s\n\n%s  %s' % (a, b, c))]
    for k, f in enumerate(K):
        for la, lb in itertools.product(LENS, repeat=2):
            for lc in ((3,) if not THOROUGH else (1, 3, 70)):
                for x in ('abc', '\u00e9\u00e8\u00ea') if THOROUGH or (la + lb + k) % 3 == 0 else ('abc',):
                    s, kind, level, mark, pieces = f(x[0] * la, x[1] * lb, x[2] * lc)
                    if '{{' in s and kind != 'head' or '}}' in s and kind != 'head': continue
                    fs = FMT if THOROUGH else [g for g in ('TEXT', 'TEXT-ANSI', 'MD') if not (g == 'MD' and kind != 'para')] + ([FMT[1 + 2 * (lb % 2)]])
                    yield 'wrap %d %d %d of %d %s' % (la, lb, lc, k, x[0]), s + '\n\nlast w\n', [(kind, level, mark, pieces), ('para', 0, False, [raw('last w')])], fs
check(wraps())
def lengths():
    """many words: every length of a paragraph up to some lines, and long documents"""
    for step in (1, 3, 7, 10, 36):
        for n in list(range(1, 60)) + [200, 1000, 3000]:
            if n * step > 20000: continue
            ws = ['%s%d' % ('v' * step, i) for i in range(n)]
            t = ' '.join(ws); lines = '\n  '.join(ws)
            for s, b in ((t, ('para', 0, False, [raw(t)])), (lines, ('para', 0, False, [raw(t)])), ('- ' + t, ('para', 1, True, [raw(' ' + t)])), ('{' + t + '}', ('para', 0, False, [('em', t, None)])), ('{{' + t + '}}', ('head', 0, False, [raw(t)])),
                         (' '.join('{%s}' % w if i % 2 else '{t%d|%s}' % (i, w) for i, w in enumerate(ws)), ('para', 0, False, [x for i, w in enumerate(ws) for x in (([raw(' ')] if i else []) + [('em', w, None) if i % 2 else ('link', w, 't%d' % i)])]))):
                yield '%d words of %d, %s' % (n, step, s[:8]), s, [b], [f for f in FMT if f != 'MD' or b[0] == 'para']
    for n in (10, 100, 1000):
        for ks in (['para'], ['head', 'para'], ['item', 'sub', 'code'], ['sub', 'head', 'hidden', 'item'], ['lines', 'para']):
            s, d = build(ks * n, '\n\n'); yield '%d times %s' % (n, ks), s, d, FMT
    for n in range(1, 12):
        d = [('para', n, True, [raw(' w1')]), ('para', 0, False, [raw('w2')])]
        yield 'level %d' % n, '-' * n + ' w1\n\nw2', d, FMT
        yield 'levels to %d' % n, '\n\n'.join('-' * i + ' w%d' % i for i in range(1, n + 1)), [('para', i, True, [raw(' w%d' % i)]) for i in range(1, n + 1)], FMT
        yield 'levels from %d' % n, '\n\n'.join('-' * i + ' w%d' % i for i in range(n, 0, -1)), [('para', i, True, [raw(' w%d' % i)]) for i in range(n, 0, -1)], FMT
check(lengths())
def comments():
    P = [('para', 0, False, [raw('a b')]), ('head', 0, False, [raw('h')]), ('code', 0, False, 'c\nd')]
    L = ['a\n', 'b\n', '\n', '{{h}}\n', '\n', '${c\n', 'd}\n']
    for where in itertools.product((0, 1, 2), repeat=7):
        if sum(map(bool, where)) > 4 and not THOROUGH: continue
        s = ''.join((['', '#x {{ y\n', '# z\n#}\n'][w]) + l for w, l in zip(where, L))
        for bom in ('', '\ufeff'):
            yield 'comments %s%s' % (where, ' bom' if bom else ''), bom + s, P, FMT if sum(where) < 3 else ['TEXT', 'HTML']
    yield 'no comment', 'a #b\n #c\n\\#d', [('para', 0, False, [raw('a #b #c #d')])], FMT
check(comments())
# --- the command line
def cmdlines():
    s, d = build(['head', 'para', 'item', 'code'], '\n\n'); cs = []; exps = []
    def add(args, ok, f=None, to=None): cs.append(Case('tea ' + ' '.join(args), [TEA] + args, files=[('d.tea', s), ('bad1.tea', '{{a'), ('bad2.tea', 'x ${a {b}'), ('bad3.tea', 'x {a'), ('sub', None)], timeout=5000, snap=True)); exps.append((ok, f, to))
    for f in FMT:
        for o in ('/O:', '/O', '/o:', '-O:', '-o'):
            for v in {f, f.lower(), f.title()}:
                for e in ([], ['/E:utf-8'], ['/e:UTF-8'], ['-Eutf-8']):
                    for order in itertools.permutations([[o + v]] + ([e] if e else []) + [['d.tea']]):
                        a = [x for y in order for x in y]; add(a, True, f)
                        if o == '/O:' and e: add(a + ['out.x'], True, f, 'out.x'); add(a + ['sub/o'], True, f, 'sub/o')
    add(['d.tea'], True, 'TEXT'); add(['d.tea', 'o'], True, 'TEXT', 'o')
    for f in ('TEXT', 'HTML'):
        for a in (['none.tea'], ['bad1.tea'], ['bad2.tea'], ['bad3.tea'], ['none/d.tea'], ['d.tea', 'none/out'], ['d.tea', 'sub']): add(a + ['/O:' + f], False)
    for x in ('TEX', 'HTMLL', '', 'ANSI', 'TEXT-'): add(['d.tea', '/O:' + x], False)
    for (ok, f, to), c, r in zip(exps, cs, run(cs)):
        chk.traces += 1; chk.transitions += 1; chk.state(c.key); chk.outcomes.add(r.status)
        t = r.tree; out = r.out
        if to:
            out = t.get(to, (0, 0, b'<none>'))[2]
            if r.out: chk.violation(c.key, c, 'nothing on the standard output', r.out[:200]); continue
        out = out if isinstance(out, bytes) else str(out).encode()
        if not ok: why = 'status 0' if r.status == 0 else 'no message' if not (r.out + r.err) else 'killed' if r.status < 0 or r.status > 255 else None
        else: why = 'status %d %r' % (r.status, r.err[:100]) if r.status or r.err else judge(f, d, out.decode('utf8', 'replace'))
        if why: chk.violation(c.key, c, 'as asked', (r.out[-300:], r.err[-200:], r.status), why)
cmdlines()
def html():
    s, d = build(['head', 'para', 'item', 'code'], '\n\n'); s2, d2 = build(['para', 'head'], '\n\n')
    F = [('d.tea', s), ('e.tea', s2), ('m', '<meta name="x" content="y" />\n'), ('h', '<div>HEAD\n\n of page</div>\n'), ('f', '<div>FOOT</div>')]
    cs = []; exps = []
    for src, doc in (('d.tea', d), ('e.tea', d2)):
        for n in range(0, 5):
            for opts in itertools.permutations([['/M', 'm'], ['/H', 'h'], ['/F', 'f'], ['/T', 'Site - '], ['/C:HTML4'], ['/C:XHTML'], ['/CHTML4']], n):
                if sum(o[0][:2] == '/C' for o in opts) > 1: continue
                if n == 4 and not THOROUGH and opts[0][0] != '/M': continue
                o = [x for y in opts for x in y]
                cs.append(Case('tea %s out /O:HTML %s' % (src, ' '.join(o)), [TEA, src, 'out', '/E:utf-8', '/O:HTML'] + o, files=F, timeout=5000, snap=True)); exps.append((doc, opts))
        for o in (['/M'], ['/H'], ['/F'], ['/T'], ['/M', 'none'], ['/H', 'none'], ['/F', 'none'], ['/C:X'], ['/Z'], ['more']):
            cs.append(Case('tea %s out /O:HTML %s' % (src, ' '.join(o)), [TEA, src, 'out', '/O:HTML'] + o, files=F, timeout=5000, snap=True)); exps.append((None, o))
    for (doc, opts), c, r in zip(exps, cs, run(cs)):
        chk.traces += 1; chk.transitions += 1 + len(opts); chk.state(c.key)
        if doc is None:
            if r.status == 0 or not r.err: chk.violation(c.key, c, 'an error', (r.status, r.err))
            continue
        out = r.tree.get('out', (0, 0, b''))[2]; out = out.decode('utf8', 'replace') if isinstance(out, bytes) else str(out)
        has = {o[0] for o in opts}
        why = 'status %d' % r.status if r.status or r.err else judge_html(doc, out, 'Site - ' if '/T' in has else '', ('|HEAD\n\n of page' if '/H' in has else '') + ('|FOOT' if '/F' in has else ''))
        if not why and ('/M' in has) != ('<meta name="x" content="y" />' in out): why = 'the head'
        if why: chk.violation(c.key, c, 'the page', out[-500:], why)
        else: chk.outcomes.add(hash(out))
html()
chk.finish()
