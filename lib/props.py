"""The properties, and the checks that decide them: writes properties.jsonl and MANIFEST.json.
Run it after an edit: python3 lib/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, K = 'pbat/core/', 'pbat/command/'
P = []
def prop(pid, check, title, statement, over, text, tests, files, mech, tech, note, observe=('standard output of the interpreter',), level='model_checking'):
    assert len(title) <= 80, title
    P.append(dict(id=pid, check=check, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  tech=tech, note=note, observe=list(observe), level=level))
ENUM = 'bounded-exhaustive enumeration of an explicit reference model, every trace replayed on the real interpreter'
TRUST = ('Every case within the bounds is run on the program built from the tree and compared with an independent reference model; '
         'nothing is claimed beyond the bounds. Trusts the reference model, the case runner, the compiler.')

prop('P01', 'p01_operators.py', 'Conditional operators, blocks, IF/FOR bodies and pipes run left to right',
     'On a line, & && || | are applied strictly from left to right without precedence: && runs its right side only if %ERRORLEVEL% is 0 '
     'and || only if it is not, a block in parentheses counts as one command whose status is that of its last command, and the status of '
     'a pipe is that of its last command. IF and FOR swallow everything up to the end of the line (or of the enclosing block), pipes '
     'included, and have the status of what they ran; a FOR body runs the same way at each turn. Every command that is due runs exactly once, '
     'in order, and after the line %ERRORLEVEL% is the status of the last command that ran.',
     ['programs'], 'every line built of up to four commands with every combination of operators, blocks, IF/ELSE and FOR around them',
     'the five scripts of the test suite contain one block and one pipe; no && or || is ever tested',
     [C + 'pBat_Run.c', C + 'pBat_Parse.c', C + 'pBat_ParseBlock.c', K + 'pBat_If.c', K + 'pBat_For.c', K + 'pBat_Block.c'],
     [('operator evaluation', C + 'pBat_Run.c: pBat_ExecOperators, pBat_RunParsedLine'), ('IF and FOR look ahead', C + 'pBat_Run.c: pBat_LookAHeadMakeParsedLine'),
      ('line splitting', C + 'pBat_Parse.c: pBat_ParseOperators')], ENUM, TRUST)
prop('P03', 'p03_expand.py', 'Variable expansion, substrings, replacement and default values',
     'Expansion replaces %name% when a line is read and !name! when a command runs: %% gives %, names are case-insensitive, an undefined '
     'variable gives nothing, %v:~a,b% gives the documented substring for all positive, negative and out-of-range offsets, %v:x=y% replaces '
     'all occurrences and %v:text% gives the value or the text. The rest of the line is left as it is.',
     ['inputs'], 'every value, offset pair, replacement pair and surrounding text within the bounds',
     'the tests expand three variables without any modifier',
     [C + 'pBat_Expand.c', C + 'pBat_Var.c'], [('expansion', C + 'pBat_Var.c: pBat_ReplaceVars'), ('delayed expansion', C + 'pBat_Expand.c')], ENUM, TRUST)
prop('P14', 'p14_seta.py', 'SET /A computes every expression as its manual says',
     'SET /A evaluates any expression of numbers (decimal, octal and hexadecimal integers, floating point numbers), variables, constants, function calls, '
     'parentheses, unary and binary operators with the documented precedence, and stores the result in the variable, also for the op= assignments. The computation '
     'is one of integers, with C\'s division and bitwise operators, while every operand is an integer in 32 bits, and one of floating point numbers when a floating '
     'point number, a function or a constant is used; inf and nan are the results of illegal operations and are kept by variables. Undefined variables are 0. What the '
     'expression does not assign is left unchanged.',
     ['inputs'], 'every expression of up to four operands over all operators, every function at each argument of an alphabet, every constant, and all assignment operators, within the bounds',
     'no test uses SET /A beyond a few expressions', ['libfasteval/lib/fasteval.c', 'libfasteval/lib/parser.y', 'libfasteval/lib/scanner.l', 'libfasteval/lib/xmath.c', K + 'pBat_Set.c'],
     [('grammar', 'libfasteval/lib/parser.y: expression'), ('words and names', 'libfasteval/lib/scanner.l, fasteval.c: evaluate_function'), ('variables', K + 'pBat_Set.c: pBat_SetGetVar')], ENUM, TRUST)
prop('P25', 'p25_data.py', 'The value of a variable read with !v! is data that is never interpreted',
     'Whatever bytes a variable holds, !v! carries them unchanged to the command: no operator, quote, redirection, percent sign, exclamation mark or '
     'parenthesis in the value is ever interpreted, and no length truncates it. This holds in ECHO, in blocks and FOR bodies, in SET to another variable, across '
     'SETLOCAL, in IF comparisons (of values that do not contain ==), through files and pipes and in the environment of external programs.',
     ['inputs'], 'every value of up to three (thorough four) bytes over the special characters, and long values, through every channel',
     'the tests never expand a value with a special character',
     [C + 'pBat_Expand.c', C + 'pBat_Var.c', C + 'pBat_Env.c', 'libpbat/estr'], [('delayed expansion after parsing', C + 'pBat_Expand.c: pBat_DelayedExpand')], ENUM, TRUST)
exec(open(V + '/lib/props_more.py').read())

P = [p for p in P if p['check'] is None or os.path.exists(V + '/checks/' + p['check'])]
P.sort(key=lambda p: p['id'])
NA = [(p['id'], p['note']) for p in P if p['check'] is None]
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        o = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant='Quantifies over %s: %s. The existing tests sample only a handful: %s.' % (', '.join(p['over']).replace('_', ' '), p['text'], p['tests']),
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))
        f.write(json.dumps(o) + '\n')
checks = [dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 checks/' + p['check'], thorough_cmd='VERIF_TIER=thorough python3 checks/' + p['check'],
               technique=p['tech'], level=p['level'], level_note=p['note']) for p in P if p['check']]
json.dump(dict(version=1, setup_cmd='bash lib/setup.sh', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
               notes='No hooks: every check drives the unmodified programs built from the tree. VERIF_TIER selects the bounds. known_findings.json lists the defects found and repaired.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
