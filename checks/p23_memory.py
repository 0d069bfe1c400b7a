"""P23: no script makes the interpreter touch memory that is not its own, crash or hang."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P23', bounds='the program built with AddressSanitizer: every line of up to %d of 34 syntactic tokens (also inside a block, a FOR body, a procedure), every internal command with up to %d of the words it knows, '
            'every place of a script where a name, value, number, path or parameter may stand with text of every length up to 300 and around the powers of two up to 65536, of %d kinds; every number of repetitions of each construct up to 130' % (4 if THOROUGH else 3, 3 if THOROUGH else 2, 5))
PB = lambda: program('pbat', 'asan')
def bad(r):
    if b'AddressSanitizer' in r.err or b'AddressSanitizer' in r.out or r.status == 99:
        e = r.err if b'AddressSanitizer' in r.err else r.out
        i = e.find(b'ERROR: AddressSanitizer'); return e[i:i + 1500].decode('utf-8', 'replace') or 'AddressSanitizer'
    if r.status == -1000: return 'it does not end'
    if r.status < 0 or r.status >= 128 + 1 and r.status <= 128 + 31: return 'killed by a signal: %d' % r.status
    if b'runtime error' in r.err: return r.err[-500:].decode('utf-8', 'replace')
    return None
# each line is a script of its own; many are called one after the other by the same process
def run_lines(gen, per=60, stdin=b'y\nx\ny\n' * 200):
    FILES = [('a', b'a b\nc d\n'), ('b', b'1\n2'), ('d', None), ('d/a', b'x'), ('d/e', None), ('v.bat', b'@echo v %1\n')]
    def case(ls, key):
        main = '@echo off\nset v=val ue\nset n=3\n' + ''.join('call z%d.bat a1 "b 2" %%v%%\n' % i for i in range(len(ls))) + 'echo THE END\n'
        c = Case(key, [PB(), 't.bat', 'p1', 'p 2'], FILES + [('t.bat', b(main))] + [('z%d.bat' % i, b(l)) for i, l in enumerate(ls)], stdin=stdin, merge=True, aslimit=False, timeout=20000, cap=1 << 26)
        return c
    for block in chunks(chunks(gen, per), 512):
        cs = [case(ls, ls[0]) for ls in block]
        for ls, c, r in zip(block, cs, run(cs)):
            chk.traces += len(ls); chk.transitions += len(ls)
            for l in ls: chk.state(l)
            chk.outcomes.add(hash(r.out[:3000]))
            if bad(r) or b'THE END' not in r.out:
                # which of the lines does it?
                ones = [case([l], repr(l)[:300] if len(l) < 300 else repr(l[:120]) + '... (%d characters)' % len(l)) for l in ls]
                rs = run(ones); found = False
                for o, x in zip(ones, rs):
                    if bad(x): chk.violation(o.key, o, 'nothing', bad(x)); found = True
                    elif b'THE END' not in x.out: chk.violation(o.key, o, 'the script goes on after it', x.out[-300:]); found = True
                    if chk.enough(): return
                if not found: chk.violation('together: ' + c.key[:200], c, 'nothing', bad(r) or r.out[-300:])
        if chk.enough(): return
TOK = ['echo ', 'a', ' ', '(', ')', '&', '|', '>', '<', '"', '^', '%', '%%i', '!', 'v', ':', '~', '$1', 'if ', 'for ', 'do ', 'in ', 'else ', '==', 'set ', 'call ', '=', ',', '/', '@', '1', '-', '*', '\t', 'not ', 'def ', ';', '/f ', '/l ', '/a ', '[', ']', '%1', '.', '2>', "'", '?', '\x01', '\x80', 'rem ', ' ::', '$*', '\r', '&&', '||', 'goto ', 'v.bat']
CORE = TOK[:34]
def danger(l):
    # a pipe of a script with itself, a loop without an end
    return 'def a' in l or 'call z' in l or ('/l ' in l)
def soup():
    for s in itertools.product(TOK, repeat=1): yield s[0]
    for s in itertools.product(TOK, repeat=2): yield ''.join(s)
    for s in itertools.product(CORE, repeat=3): yield ''.join(s)
    if THOROUGH:
        for s in itertools.product(CORE, repeat=4): yield ''.join(s)
def contexts():
    for k, l in enumerate(soup()):
        if danger(l): continue
        yield l + '\n'
        if len(l) < 12:
            m = (k % 7)
            if m == 0: yield '(' + l + '\n)\necho x'
            elif m == 1: yield 'for %%i in (1 2) do (' + l + ')\n'
            elif m == 2: yield 'if 1==1 (\n' + l + ' ) else ' + l
            elif m == 3: yield 'echo %v:' + l + '%!v:' + l + '!%' + l + '%\n'
            elif m == 4: yield 'def q=' + l + '\nq 1 2\ndef /f q=\n'
            elif m == 5: yield 'set /a ' + l + '\nif [ ' + l + ' ] echo y\n'
            else: yield 'for /f "' + l.replace('"', '') + '" %%a in ("x y") do echo %%a\nfor /f "tokens=' + l.replace('"', '') + '" %%a in (a b) do ' + l + '\n'
run_lines(l for l in contexts() if 'def ' not in l)
run_lines((l for l in contexts() if 'def ' in l), per=1)      # what one defines, another might call without end
# --- commands with the words they know
W = ['a', 'nosuch', 'd', '*', '?', '"a b"', '""', '/?', '/', '-', '', '%v%', '"', 'a.b', '=', ':x', '+', '0', '-1', '99999999999999999999', "'", '\\', '.', '/x', 'd/*', 'CON', '^']
CMD = {'echo': ['on', '.'], 'md': ['d/f/g'], 'set': ['/a', '/p', '/x', '1/0', 'v', 'v=', '"v=1'], 'if': ['1==1', 'exist', 'defined', '/i', 'not', 'errorlevel', '[', ']', 'echo'], 'goto': [':eof'], 'call': [':eof', ':x'], 'pause': [], 'cd': ['..', '/d', '/'],
       'title': [], 'help': ['dir', 'nosuch'], 'setlocal': ['enabledelayedexpansion', 'cmdlycorrect'], 'endlocal': [], 'more': ['/e', '+1', '/t3', '/s', '/c', '/p'], 'type': [], 'dir': ['/b', '/s', '/a', '/ad', '/a:-d', '/q', '/w', '/o'], 'for': ['%%i', 'in', '(', ')', 'do', '/f', '/r', '/d', '"tokens=1"'],
       'def': ['/l', '/f', 'q=r'], 'shift': ['1', '9', '/1', '10'], 'find': ['/n', '/c', '/v', '/i', '/e', '"x"'], 'break': [], 'chcp': ['437', '65001'], 'pushd': ['..'], 'popd': [], 'wc': ['/l', '/w', '/c', '-l'], 'xargs': ['echo', 'echo x'], 'prompt': ['$p'],
       'pecho': ['$', '$x', '$x1', '$x.', '$xzz;', '$p$+'], 'ver': ['/v', '/n', '/m', '/h', '/b', '/c', '/o', '/l'], 'color': ['0f', 'zz', '.'], 'cls': [], 'rem': [], 'mod': ['/l', '/u'], 'locale': ['fr', 'en_US'], 'timeout': ['/t', '0', '/nobreak'], 'exit': ['/b', '/b 1'],
       # only names in the scratch directory
       'del': ['/q', '/p', '/s', '/f', '/a-r'], 'rd': ['/q', '/s'], 'copy': ['/y', '/r', '/q', 'd/c'], 'move': ['/y', '/q', 'd/c'], 'ren': ['c', '/q']}
def commands():
    for c, own in CMD.items():
        words = own + W
        if c in ('del', 'rd', 'copy', 'move', 'ren', 'md'): words = [w for w in words if w not in ('/', '.', '\\', '%v%', '/x')]
        if c == 'timeout': words = ['/?', '/t', '0', '/nobreak', '/t 0', 'a', '0 0', '/x']
        if c == 'dir': words = [w for w in words if w not in ('/', '\\', '')]
        if c == 'exit': words = ['/b', '/b 1', '/b a', '/b -1', '/?', '/b 99999999999999']
        if c == 'pause': words = ['/?']
        for d in range(0, 4 if THOROUGH else 3):
            for ws in itertools.product(words, repeat=d):
                if c == 'timeout' and not {'0', '/t 0', '/?', '0 0'} & set(ws): continue
                if c == 'exit' and not (ws and (ws[0][:2] == '/b' or '/?' in ws)): continue
                l = c + ' ' + ' '.join(ws)
                if c == 'set' and '/a' not in l and 'n=' in l: continue
                yield l + '\n'
                if d == 2 and c in ('more', 'type', 'find', 'wc', 'xargs'): yield 'type a|' + l + '\n'
FILEC = ('copy', 'move')
run_lines(l for l in commands() if 'def ' not in l and not l.startswith(FILEC))
run_lines((l for l in commands() if l.startswith(FILEC)), per=6)      # folders copied into themselves grow
run_lines((l for l in commands() if 'def ' in l), per=1)
# --- lengths
KINDS = ['x', 'a ', '%%', '"', '/']
PLACES = ['echo {}', 'echo.{}', '{}', '{} a', 'set {}=1', 'set v={}', 'set "v={}"', 'set /a {}', 'set /a v=1{}', 'set /p v={}', 'set {}', 'echo %{}%', 'echo !{}!', 'echo %v:{}%', 'echo %v:{}=b%', 'echo %v:~{}%', 'echo !v:a={}!', 'if {}==a echo x', 'if a=={} echo x', 'if exist {} echo x', 'if defined {} echo x',
          'if [ {} ] echo x', 'if 1==1 {}', 'if {} lss 3 echo x', 'for %%i in ({}) do echo %%i', 'for %%i in (a {}*) do echo %%i', 'for /d %%i in ({}*) do echo %%i', 'for /r {} %%i in (*) do echo %%i', 'for /l %%i in (1,1,{}) do goto :eof', 'for /f "{}" %%i in (a) do echo %%i', 'for /f "tokens={}" %%i in (a) do echo %%i',
          'for /f "delims={}" %%i in ("a b") do echo %%i', 'for /f %%i in ("{}") do echo %%~nxi', "for /f %%i in ('echo {}') do echo %%i", 'for /f %%i in ({}) do echo %%i', 'for %%{} in (a) do echo x', 'goto {}', ':{}', 'call :{}', 'call {}', 'call v.bat {}', 'v.bat {}', 'call :x {}\ngoto :eof\n:x\necho %1 %~n1 %*\nshift\necho %1', 'def q={}\nq 1\ndef /f q=',
          'def q=echo $1 $*\nq {}\ndef /f q=', 'def {}=echo', 'def /l {}', 'cd {}', 'pushd {}', 'md {}', 'rd /q {}', 'del /q {}', 'copy {} d', 'copy a {}', 'move /q {} d', 'ren nosuch {}', 'ren {} b', 'dir {}', 'dir /b {}*', 'dir /s /b d/{}', 'type {}', 'more {}', 'find "{}" a', 'find /e "{}" a', 'find a {}', 'wc {}', 'echo a|xargs echo {}', 'title {}', 'prompt {}', 'pecho {}', 'pecho $x{}', 'pecho $p{}',
          'echo a>{}', 'echo a>>{}', 'type <{}', 'echo a 2>{}', 'echo a>d/{}', '({})', '(\n{}\n)', 'echo a&{}', 'echo a|{}', 'echo {}|find "a"', 'echo {}& echo b', 'nosuch||{}', 'rem {}', ':: {}', 'setlocal {}', 'exit /b {}', 'shift {}', 'color {}', 'help {}', 'chcp {}', 'locale {}', 'ver {}', 'mod {}', 'set v={}\necho !v! %v% %v:x=yy% !v:~1!\nif "!v!"=="!v!" echo s',
          'set v={}\nfor %%i in (!v!) do echo %%~fi %%~xi', 'set v={}\nset /a w=v+1\nset w', 'set v={}\ncall v.bat !v!', 'set PATH={}\nnosuch', 'set PATHEXT={}\nnosuch', 'set v={}\n/bin/echo !v!', '/bin/true {}', 'echo {}>a&type a|more', 'echo {}>a\nfor /f "tokens=1,2*" %%a in (a) do echo %%b', 'set /p v=<a', 'echo {}>a\nset /p v=<a\necho !v!', 'echo {}>a\nfind /n "x" a', 'echo {}>a\nxargs echo <a',
          'start /w {}', 'timeout {}' if 0 else 'cls {}', 'pause {}', 'break {}', 'popd {}', 'endlocal {}']
def lengths():
    L = (list(range(0, 40)) + list(range(40, 300, 1 if THOROUGH else 13)) + [p + d for p in (256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536) for d in ((-3, -2, -1, 0, 1, 2) if THOROUGH or p in (256, 1024, 4096) else (-1, 0, 1))])
    for j, pl in enumerate(PLACES):
        for n in L:
            for k, x in enumerate(KINDS):
                if k and not THOROUGH and (n + j + k) % (2 if n < 300 else 3): continue
                if n > 9000 and k == 0 and not THOROUGH and (j + n) % 2: continue
                t = (x * n)[:n]
                if pl.startswith(('rd', 'del', 'copy', 'move', 'ren', 'dir /s', 'for /r')) and x == '/': continue
                yield pl.replace('{}', t) + '\n'
run_lines(lengths(), per=20)
# --- repetitions
REP = [('(', 'echo a', ')'), ('if 1==1 ', 'echo a', ''), ('if 1==2 echo b else ', 'echo a', ''), ('for %%i in (1) do ', 'echo a', ''), ('echo a & ', 'echo b', ''), ('echo a | ', 'find "a"', ''), ('call ', 'echo a', ''), ('', 'echo a', '>b'), ('', 'echo a', ' 2>&1'), ('', 'echo %v', ':a=b%'), ('set /a (', '1', ')'), ('set /a -', '1', ''), ('set /a 1+', '1', ''), ('set /a v=', '1', ''),
       ('if not ', '1==1 echo a', ''), ('if [ ', '1==1', ' ] echo a'), ('pushd d\n', 'echo a', '\npopd'), ('setlocal\n', 'echo a', '\nendlocal'), ('for /f %%i in (a) do ', 'echo %%i', ''), ('echo %', 'v', '%'), ('echo !', 'v', '!'), ('shift\n', 'echo %1', ''), ('d/../', 'echo a', ''), ('cd d/../', 'd', ''), ('type a ', 'a', ''), ('for %%i in (a ', 'b', ') do echo %%i'), ('echo ^', '\na', ''), ('call v.bat ', 'a', ' b'), ('@', 'echo a', ''),
       ('def q=', 'echo a', ''), ('nosuch || ', 'echo a', ''), ('find /n ', '"a" a', ''), ('dir /a', '', 'd'), ('echo a>', 'd', ''), ('more /', 'e', ' a'), (':x\n', 'echo a', '\n:y'), ('rem ', 'a', ' ^')]
def reps():
    for n in list(range(1, 131, 1 if THOROUGH else 6)) + [200, 300] + ([700, 1500] if THOROUGH else []):
        for p, m, s in REP:
            if '|' in p and n > 100: continue
            if p.startswith('pushd') and 0: continue
            yield p * n + m + s * n + '\n'
            yield p * n + m + '\n'
            yield m + s * n + '\n'
            yield '(' + p * n + m + s * n + ')\n'
run_lines(reps(), per=20)
# --- scripts of every small content, ended anywhere
def ends():
    T = ['@echo off\r\n(\r\necho a\r\n) else (\r\nif 1==1 (echo %v:~1% ) else echo !v!\r\n', 'for /f "tokens=1,2* delims=," %%a in (\'echo a,b,c\') do (echo %%a %%b& echo %%c)\necho "x" ^\ny\n:l\ngoto :eof\n', 'def f=(echo $1 & set _x=$2)\nf a "b c"\nset /a v=(1+2)*3,w=v<<2\nif not "%v%"=="9" if defined w (echo n) else goto :eof\n',
         'echo a>b 2>&1 <a | (find /n "a" & type b)\ncopy /y a+b c\nset "v=a=b"\ncall :l x\n:l\nshift\n']
    for t in T:
        for i in range(len(t) + 1):
            yield t[:i]
            yield t[i:]
            for ins in ('\x00', '\xff', '\x1a', '%', '!', '"', '(', ')', '^', '\n', '\r') if THOROUGH else ('\x00', '\xff', '"', '^', '%', ')'):
                yield (t[:i] + ins + t[i:])
run_lines(ends())
chk.sample({'line': 'set /a (', 'note': 'no report of AddressSanitizer, no signal, and the calling script goes on'})
chk.finish()
