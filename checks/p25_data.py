"""P25: the value of a variable reached through !v! is data: no byte of it is ever interpreted."""
import sys, itertools
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from mc import *
chk = Check('P25', bounds='every value of up to 3 (thorough 4) bytes over the characters the interpreter gives a meaning to, and long values '
            'up to 70000 bytes, carried through every channel: echo, block, FOR body, copy to another variable, SETLOCAL, file redirection, '
            'pipe, IF comparison, environment and the arguments of a child')
AL = ['&', '|', '<', '>', '(', ')', '"', '^', '%', '!', ' ', '=', ';', ',', 'a', '1', '*', '?', '/', ':', '~', '@', '\t', '.', "'", '\xe9']
AL3 = ['&', '|', '>', '(', ')', '"', '^', '%', '!', ' ', 'a'] + (['<', '=', ';', '*', '2', ':', '~'] if THOROUGH else [])

def values():
    for n in (1, 2): yield from map(''.join, itertools.product(AL, repeat=n))
    yield from map(''.join, itertools.product(AL3, repeat=3))
    if THOROUGH: yield from map(''.join, itertools.product(['&', '|', '"', '^', '%', '!', '(', 'a'], repeat=4))
    for n in (126, 127, 128, 129, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 40000):
        yield 'x' * n
        yield ('ab&^!%"|' * (n // 8 + 1))[:n]

IF = ('if "!{0}!"=="!{0}!" (echo same) else echo different\n'
      'if "!{0}!"=="!{0}!z" (echo same) else echo different\n')
def text(v, noif=False):
    """v is the name of the variable; a value with == in it can't be told from the operator of IF"""
    return ('echo [!{0}!]\n'
            'set w=[!{0}!]\necho !w!\n'
            'if "a"=="a" (echo <!{0}!>) else (echo no)\n'.replace('<', '^<').replace('>', '^>') +
            'for %%i in (1) do echo %%i[!{0}!]\n'
            'setlocal\nset w=!{0}!x\necho [!w!]\nendlocal\n'
            '{1}'
            'echo [!{0}!]&echo [!{0}!]\n').format(v, '' if noif else IF.format(v))

def expect(v):
    return ('[{0}]\n[{0}]\n<{0}>\n1[{0}]\n[{0}x]\n' + ('same\ndifferent\n' if '==' not in v else '') + '[{0}]\n[{0}]\n').replace('{0}', v)

L1 = lambda s: s.encode('latin1')
def items():
    for v in values():
        chk.state(v); chk.transitions += 9
        yield (v,)

def envof(its): return ENV + [L1('%s=%s' % (it.data[0], it.data[1])) for it in its]
def gen():
    for i, (v,) in enumerate(items()):
        name = 'q%d' % (i % 1000)
        yield Item('value %r' % v[:80], L1(text(name, '==' in v)), L1(expect(v)), data=(name, v))
batch(chk, gen(), per=150, env=envof, outcome=lambda it, o: it.data[1])
# channels that cost a process or a file each, for the values of up to two characters
def slow():
    for i, v in enumerate(values()):
        if len(v) > 2 and len(v) < 100: continue
        name = 'q%d' % (i % 1000)
        chk.transitions += 4
        t = ('echo [!%s!]>f\ntype f\necho [!%s!]|type\n' % (name, name)) + ('printenv %s\n/bin/echo "[!%s!]"\n' % (name, name) if len(v) < 3 else '')
        e = '[%s]\n[%s]\n' % (v, v) + ('%s\n[%s]\n' % (v, v) if len(v) < 3 else '')
        yield Item('value %r through a file, a pipe and a child' % v[:80], L1(t), L1(e), data=(name, v))
batch(chk, slow(), per=40, env=envof, outcome=lambda it, o: it.data[1])
chk.sample({'value': '&^"', 'script': text('q'), 'expected': expect('&^"')})
chk.finish()
