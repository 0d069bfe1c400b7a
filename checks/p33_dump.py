"""P33: DUMP shows every byte of a file, as elements of the type asked for."""
import sys, itertools, struct, math, time, subprocess, threading, queue
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P33', bounds='10 types x decimal and /H x 17 formats (every set of A, T, C, Q and none) x every length of a file up to 2 rows and a bit; every value of 1 and 2 byte elements, every bit and its neighbours of the bigger ones, all exponents; '
            'every order of the letters of a format, spellings of options; 0 to 3 files, one of them missing or a folder at each place; the standard input whole and cut at every place')
DUMP = program('dump')
TYPES = {'c': 'b', 'uc': 'B', 's': 'h', 'us': 'H', 'i': 'i', 'ui': 'I', 'll': 'q', 'ull': 'Q', 'f': 'f', 'd': 'd'}
UNS = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}
def size(t): return struct.calcsize('<' + TYPES[t])
def number(t, hexa, raw, w):
    n = len(raw)
    if hexa: return '%0*x' % (2 * n, struct.unpack('<' + UNS[n], raw)[0])
    v = struct.unpack('<' + TYPES[t], raw)[0]
    if t not in 'fd': return '%0*d' % (w, v)
    if math.isnan(v) or math.isinf(v): return (('-' if raw[-1] & 0x80 else '') + ('nan' if math.isnan(v) else 'inf')).rjust(w)
    return ('%0*.' + ('9' if t == 'f' else '17') + 'g') % (w, v)
def addr(style, o): return ('(nil)' if o == 0 and style == 0 else '0x%x' % o if style < 2 else '0x%016x' % o if style == 2 else '%016x' % o)
def rows(data, t, hexa, fmt, w, n, style):
    sz = size(t); sp = '' if 'q' in fmt else ' '; out = ''
    if len(data) % sz: data += b'\0' * (sz - len(data) % sz)
    for o in range(0, len(data), n * sz):
        row = data[o:o + n * sz]
        if 'a' in fmt: out += addr(style, o) + sp
        for k in range(0, len(row), sz): out += number(t, hexa, row[k:k + sz], w) + sp
        if 'c' in fmt:
            out += (' ' * (2 * sz if hexa else w) + sp) * (n - len(row) // sz)
            out += ''.join(chr(c) if 0x20 <= c < 0x80 else '.' for c in row)
        out += '\n'
    return out
def title(name, fmt): return name + ' -----------------\n' if 't' in fmt else ''
def go(args, files=(), stdin=b'', pipe=False, key=None): return Case(key or 'dump ' + ' '.join(args), [DUMP] + list(args), files=files, stdin=stdin, pipe=pipe, timeout=5000)
def opts(t, hexa, fmt): return ['/t:' + t] + (['/h'] if hexa else []) + ([] if fmt is None else ['/b:' + fmt])
def eff(fmt): return 'atc' if fmt is None else fmt
FMTS = [None] + [''.join(x) for n in range(5) for x in itertools.combinations('atcq', n)]
# --- the layout: columns of a number and numbers in a row are free, as long as they are always the same
LAY = {}
def layouts():
    todo = [(t, h, f) for t in TYPES for h in (0, 1) for f in FMTS]
    ramp = bytes((i * 37 + 11) % 251 for i in range(1024))
    for k, c, r in ((k, c, r) for ch in chunks(todo, 400) for cs in [[go(opts(*k) + ['f'], [('f', ramp)]) for k in ch]] for k, c, r in zip(ch, cs, run(cs))):
        chk.traces += 1; t, h, f = k; got = r.out.decode('latin1')
        first = next((l for w in ([2 * size(t)] if h else range(1, 32)) for n in range(1, 100) for st in (range(4) if 'a' in eff(f) else (0,))
                      for l in [(w, n, st)] if got.startswith(title('f', eff(f)) + rows(ramp[:n * size(t)], t, h, eff(f), w, n, st)) and got == title('f', eff(f)) + rows(ramp, t, h, eff(f), w, n, st)), None)
        if first is None or r.status or r.err: chk.violation(c.key, c, title('f', eff(f)) + rows(ramp, t, h, eff(f), 2 * size(t) if h else 4, 4, 0)[:300], got[:300], 'no layout explains this')
        else: LAY[k] = first
def expected(data, k): return rows(data, k[0], k[1], eff(k[2]), *LAY[k])
def check(todo):
    """todo: (arguments, files, stdin, text, status is 0)"""
    for ch in chunks(todo, 4000):
        cs = [go(a, fl, si, bool(i % 2)) for i, (a, fl, si, e, ok) in enumerate(ch)]
        for (a, fl, si, e, ok), c, r in zip(ch, cs, run(cs)):
            chk.traces += 1; chk.transitions += len(e); chk.state((tuple(a), hash(e)))
            if r.out.decode('latin1') != e or (r.status == 0) != ok or r.status < 0 or bool(r.err) == ok: chk.violation('%s of %s' % (c.key, [len(f[1]) if f[1] is not None else '-' for f in fl] or len(si)), c, (e[-400:], ok), (r.out.decode('latin1')[-400:], r.status, r.err[:200]))
            else: chk.outcomes.add(hash(e))
        if chk.enough(): return
layouts()
def lengths():
    for k in LAY:
        w, n, st = LAY[k]; sz = size(k[0])
        step = 1 if THOROUGH or sz < 4 else 1
        for l in range(0, 2 * n * sz + sz + 2, step):
            if l > 40 and not THOROUGH and l % sz not in (0, 1) and (l // sz) % 3: continue
            data = bytes((i * 73 + l * 5 + i // 7) % 256 for i in range(l))
            yield opts(*k) + ['f'], [('f', data)], b'', title('f', eff(k[2])) + expected(data, k), True
check(lengths())
def values():
    for k in LAY:
        t, h, f = k; sz = size(t)
        if sz <= 2: data = b''.join(struct.pack('<' + UNS[sz], v) for v in range(256 ** sz))
        else:
            vs = {0, 1}
            for b_ in range(8 * sz): vs |= {(1 << b_) + d for d in (-1, 0, 1)}
            m = (1 << 8 * sz) - 1
            vs |= {m - v for v in vs}
            if t in 'fd':
                mant, ex = (23, 8) if t == 'f' else (52, 11)
                vs |= {s << (8 * sz - 1) | e << mant | x for s in (0, 1) for e in range(0, 1 << ex, 1 if t == 'f' or THOROUGH else 7) for x in (0, 1, (1 << mant) - 1, 0x2aaaaa)}
            data = b''.join(struct.pack('<' + UNS[sz], v & m) for v in sorted(vs))
        if f not in (None, '', 'c', 'q', 'ac') and not THOROUGH: continue
        yield opts(*k) + ['f'], [('f', data)], b'', title('f', eff(f)) + expected(data, k), True
check(values())
def spellings():
    data = bytes(range(250))
    for f in [''.join(x) for n in range(5) for x in itertools.permutations('atcq', n)]:
        k = ('s', 1, ''.join(sorted(f, key='atcq'.index)))
        for b_ in ('/b:' + f, '/B' + f.upper(), '/b:' + f.capitalize()): yield ['/T:S', b_, '/H', 'f'], [('f', data)], b'', title('f', f) + expected(data, k), True
    for t in TYPES:
        for a in itertools.permutations(['/t:' + t, '/h', '/b:ac'], 3): yield list(a) + ['f'], [('f', data)], b'', expected(data, (t, 1, 'ac')), True
        for x in ('/t' + t, '/T:' + t.upper(), '/T' + t.upper()): yield [x, 'f'], [('f', data)], b'', title('f', 'atc') + expected(data, (t, 0, None)), True
    yield ['f'], [('f', data)], b'', title('f', 'atc') + expected(data, ('c', 0, None)), True
    yield ['/h', 'f'], [('f', data)], b'', title('f', 'atc') + expected(data, ('c', 1, None)), True
    for x in ('z', 'cc', '1', '', 'lll', 'x'): yield ['/t:' + x, 'f'], [('f', data)], b'', '', False
check(spellings())
def several():
    A = {'f': b'first file, of more than a single row of numbers.\n' * 3, 'g h': b'', 'b\xc3\xa9'.encode('latin1').decode('utf8'): bytes(range(256)), 'no': None, 'd/': 1}
    fl = [(n, v) for n, v in A.items() if isinstance(v, bytes)] + [('d', None)]
    for k in [('c', 0, None), ('i', 1, 'c'), ('d', 0, 'at'), ('us', 0, 'tq')]:
        for n in (1, 2, 3, 4):
            for names in itertools.product(A, repeat=n):
                e = ''; ok = True
                if n == 4 and ('no' in names[:3] or 'd/' in names[:3]): continue
                for x in names:
                    v = A[x]
                    if v is None: ok = False; break
                    if v == 1: e += title('d', eff(k[2])); ok = False; break
                    e += title(x.encode().decode('latin1'), eff(k[2])) + expected(v, k)
                yield opts(*k) + [x.rstrip('/') for x in names], fl, b'', e, ok
check(several())
def stdin():
    for k in LAY:
        for l in (0, 1, 7, 8, 100, 5000):
            data = bytes((i * 31 + 7) % 256 for i in range(l))
            yield opts(*k), [], data, expected(data, k), True
check(stdin())
# --- a standard input that comes in pieces
def pieces():
    todo = queue.Queue(); n = 0
    for k in [('c', 0, None), ('i', 0, 'c'), ('d', 1, ''), ('s', 0, 'a'), ('ull', 0, None)]:
        row = LAY[k][1] * size(k[0])
        data = bytes((i * 31 + 7) % 256 for i in range(2 * row + size(k[0]) + 1))
        for cut in range(1, len(data)): todo.put((k, data, (cut,)))
        for cut in range(1, len(data) - 5, 5 if not THOROUGH else 1): todo.put((k, data, (cut, cut + 3)))
    bad = []; lock = threading.Lock()
    def work():
        while True:
            try: k, data, cuts = todo.get_nowait()
            except queue.Empty: return
            p = subprocess.Popen([DUMP] + opts(*k), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            at = 0
            try:
                for c in cuts: p.stdin.write(data[at:c]); p.stdin.flush(); at = c; time.sleep(0.015)
                p.stdin.write(data[at:]); p.stdin.close()
            except BrokenPipeError: pass
            try: out = p.stdout.read(); st = p.wait(20)
            except subprocess.TimeoutExpired: p.kill(); st = -1000
            with lock:
                chk.traces += 1; chk.transitions += len(cuts) + 1; chk.state((k, cuts)); e = expected(data, k)
                if out.decode('latin1') != e or st: bad.append((k, cuts, e, out, st))
    th = [threading.Thread(target=work) for _ in range(NPROC * 2)]
    for t in th: t.start()
    for t in th: t.join()
    for k, cuts, e, out, st in bad[:50]: chk.violation('dump %s, standard input cut at %s' % (' '.join(opts(*k)), cuts), None, e[:400], (out[:400], st))
if not chk.enough(): pieces()
if ('c', 0, None) in LAY: chk.sample({'dump f (a file of 12 bytes)': expected(b'Hello world\n', ('c', 0, None))})
if ('f', 0, '') in LAY: chk.sample({'dump /t:f /b: f': expected(struct.pack('<2f', 1.5, -2), ('f', 0, ''))})
chk.finish()
