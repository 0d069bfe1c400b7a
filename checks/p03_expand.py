"""P03: variable expansion (%v%, !v!, truncation, replacement, default) yields the documented text."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P03', bounds='truncations: strings of 0..7 characters, every start and length in -9..9 or omitted; replacements: every '
            'string of up to 5 letters of a two letter alphabet, patterns of up to 3, replacements of up to 3; every sequence of up to '
            '4 (thorough 5) literal, defined, undefined, escaped, truncated and replaced references')

def trunc(v, a, n):
    """documented: a counts from the end if negative; so does the end n if negative; n is a length otherwise"""
    l = len(v)
    s = l + a if a < 0 else a
    if s < 0 or s > l: return None if s < 0 else ''
    if n is None: e = l
    elif n < 0: e = l + n
    else: e = min(l, s + n)
    return v[s:e] if e > s else ''

def items():
    # substitution of a variable
    for n in range(0, 8):
        v = 'abcdefgh'[:n]
        R = range(-9, 10)
        for a in R:
            for k in [None] + list(R):
                t = trunc(v, a, k)
                if t is None: continue       # before the beginning: not documented
                ref = 'v:~%d' % a + ('' if k is None else ',%d' % k)
                chk.state(('t', v, a, k)); chk.transitions += 2
                exp = '[%s][%s]\n' % (t, t) if n else '[][]\n'
                yield Item('v=%s %%%s%%' % (v, ref), 'set v=%s\necho [%%%s%%][!%s!]' % (v, ref, ref), exp)
    # replacement
    pats = [''.join(p) for n in (1, 2, 3) for p in itertools.product('ab', repeat=n)] + ['c', 'ac', 'A']
    reps = ['', 'a', 'x', 'ab', 'aab', 'x y']
    for n in range(1, 6 if not THOROUGH else 8):
        for s in itertools.product('ab', repeat=n):
            v = ''.join(s)
            text = 'set v=%s\n' % v; exp = ''
            for p in pats:
                for r in reps:
                    t = v.replace(p, r)
                    text += 'echo %%v:%s=%s%%;!v:%s=%s!\n' % (p, r, p, r); exp += '%s;%s\n' % (t, t)
                    chk.state(('r', v, p, r)); chk.transitions += 2
            yield Item('replacements in v=' + v, text, exp)
    # replacements with signs of their own
    for v in ('a', 'xay', 'a:b', 'a=b', 'a,b~c', 'aa'):
        for pat in ('a', 'b', 'a:', ':', ',', 'c', 'y'):
            for rep in ('=', 'b=c', '==', 'x:y', ':', '~1', ',2', '=a'):
                t = v.replace(pat, rep)
                chk.state(('p', v, pat, rep)); chk.transitions += 2
                yield Item('v=%s %%v:%s=%s%%' % (v, pat, rep), 'set v=%s\necho [%%v:%s=%s%%][!v:%s=%s!]' % (v, pat, rep, pat, rep), '[%s][%s]\n' % (t, t))
    # the variables the interpreter computes
    for q in '%!':
        r = q + 'random' + q; e = q + 'errorlevel' + q
        yield Item('four ' + r, 'echo %s %s %s %s' % (r, r.upper(), r, r), lambda o: None if len(o.split()) == 4 and all(x.isdigit() for x in o.split()) and len(set(o.split())) > 1 else 'four numbers which differ')
        for n, i in enumerate((0, 1, 7, 255, -1, 65536)):
            l = 'rr%d%d' % (ord(q), n); chk.state((e, i)); chk.transitions += 1
            yield Item('%s %d' % (e, i), 'goto x%s\n:%s\nexit /b %%1\n:x%s\ncall :%s %d\necho %s%s' % (l, l, l, l, i, e, e.upper()), '%d%d\n' % (i, i))
        for w in ('date', 'time'):
            yield Item(q + w + q, 'echo %s%s%s' % (q, w, q), lambda o: None if len(set(o) & set(b'0123456789')) and o.count(b'\n') == 1 else 'a date or time')
    # default values of undefined variables, not used for defined ones
    for d in ('d', 'a b', 'x', 'def:', '1', '.'):
        for val, e in (('', d), ('Q', 'Q')):
            yield Item('v=%s %%v:%s%%' % (val, d), 'set v=%s\necho [%%v:%s%%][!v:%s!]' % (val, d, d), '[%s][%s]\n' % (e, e))
            chk.state(('d', val, d))
    # sequences of references
    V = {'v': 'abc', 'w': 'x y', 'u': None, 'p': '%v%'}
    seg = [('k', 'k'), ('%v%', 'abc'), ('%V%', 'abc'), ('%u%', ''), ('%%', '%'), ('%w%', 'x y'), ('%p%', '%v%'), ('%v:~1%', 'bc'),
           ('%u:z%', 'z'), ('%v:b=%', 'ac'), ('!v!', 'abc'), ('!u!', ''), ('!p!', '%v%'), ('!v:~-1!', 'c'), ('^!', '!'), ('!w:y=Z!', 'x Z'), ('!!', '!'), (' ', ' '),
           ('%v:~9%', ''), ('!v:~0,-3!', '')]
    small = [s for s in seg if s[0] not in ('%V%', '!w:y=Z!', '%w%', '%v:~9%')]
    for n in range(1, (5 if THOROUGH else 4) + 1):
        for t in itertools.product(seg if n < 4 else small if n == 4 else [s for s in small if s[0] in ('k', '%v%', '%u%', '%%', '!v!', '!u!', '^!', '%p%')], repeat=n):
            src = ''.join(x[0] for x in t); exp = ''.join(x[1] for x in t)
            # an escape sign before a reference quotes it: keep the sequences where it is unambiguous
            chk.state(('s', src)); chk.transitions += n
            yield Item('echo [%s]' % src, 'echo [%s]' % src, '[%s]\n' % exp)

def many(n):
    """packs single-line items of the sequences to keep the scripts small"""
PRE = '@echo off\nset v=abc\nset w=x y\nset p=%%v%%\nset u=\n'
def norm_items():
    for it in items():
        # the value of v is changed by the first families: restore it
        it.text += b'\nset v=abc\nset u=\n'
        yield it
batch(chk, norm_items(), per=400, prelude=PRE, outcome=lambda it, o: o)
chk.sample('set v=abcdef; %v:~-3,2% = de'); chk.sample('[%u:z%^!!v:~-1!] = [z!c]')
chk.assumptions += ['a truncation which begins before the string has no documented result']
chk.finish()
