# more properties
prop('P04', 'p04_args.py', 'A command line is split into its arguments, which %1..%9, %* and %~x1 give',
     'A batch file, a label or a function called with arguments sees exactly those: blanks, tabs, commas and semicolons separate them, quotes and ^ protect '
     'separators and special characters, %1 to %9 give them in order (nothing beyond the last), %* gives all of them, and the modifiers '
     '%~f %~d %~p %~n %~x %~z (and their combinations, also on FOR variables) give the documented parts of the path they name.',
     ['inputs'], 'every argument list of up to three (thorough four) pieces over the special characters, and every modifier on every shape of path',
     'the tests pass no argument to any script', [C + 'pBat_Args.c', C + 'pBat_Var.c', C + 'pBat_SplitPath.c', C + 'pBat_FilePath.c'],
     [('argument splitting', C + 'pBat_Args.c: pBat_GetNextParameterEs'), ('modifiers', C + 'pBat_Var.c')], ENUM, TRUST)
prop('P05', 'p05_shift.py', 'SHIFT moves the parameters, locally to the CALL, and restores them on return',
     'SHIFT [start] [displacement] makes each %n, from the start on, give what the one that many places further gave, leaving the lower ones as they are and '
     'bringing in the arguments past the ninth, then nothing. A CALL of a label or a file starts with parameters of its own and returning from it restores those of the caller, whatever it shifted.',
     ['histories'], 'every history of SHIFT commands and calls up to the bound, the parameters observed after each step',
     'no test uses SHIFT', [K + 'pBat_Shift.c', C + 'pBat_Var.c', K + 'pBat_Call.c'], [('shift', K + 'pBat_Shift.c'), ('parameters of a call', K + 'pBat_Call.c')], ENUM, TRUST)
prop('P09', 'p09_if.py', 'IF evaluates its condition as documented and runs exactly one branch',
     'IF [/I] [NOT] with a==b, EQU NEQ LSS LEQ GTR GEQ (numeric when both sides are numbers, alphabetical otherwise), EXIST, DEFINED, ERRORLEVEL n and bracket expressions '
     'of such tests decides as documented for every pair of operands; the command or block after it runs if the condition is true and the one after ELSE if '
     'it is false, never both, on one line or over several and nested. The exit status is that of what ran.',
     ['inputs'], 'every pair of operands over numbers, signs, strings, letter case and quotes with every comparison, and every nest of conditions within the bounds',
     'the tests contain four comparisons', [K + 'pBat_If.c', K + 'pBat_IfExp.c', C + 'pBat_Run.c'], [('conditions', K + 'pBat_If.c'), ('branches', C + 'pBat_Run.c: pBat_LookAHeadMakeParsedLine')], ENUM, TRUST)
prop('P10', 'p10_for.py', 'FOR visits each element, number, file or folder exactly once',
     'FOR runs its body once for each element of the set in order, FOR /L for each number of the arithmetic sequence (up to the ends of the 32-bit range), FOR with wildcards once for each matching '
     'file, FOR /D for each matching folder and FOR /R for each matching file in each folder of the tree, with the variable set to it (names with blanks or special characters '
     'included) and its path modifiers usable; nothing runs if there is none. GOTO and EXIT /B leave the loop at once, nested loops keep their variables apart.',
     ['inputs', 'histories'], 'every set of up to four elements with every separator, every start, step and end within the bounds and around the limits, every small tree of folders with every mask',
     'the tests have two loops', [K + 'pBat_For.c', 'libpbat/dir/pBat_Dir.c'], [('loops', K + 'pBat_For.c'), ('file search', 'libpbat/dir/pBat_Dir.c')], ENUM, TRUST)
prop('P11', 'p11_forf.py', 'FOR /F gives exactly the tokens of each line of its input',
     'FOR /F runs its body once for each non-empty line of its files, text or command output that is not skipped (skip=, eol=), with the tokens that delims= and tokens= (numbers, ranges, *) select in '
     'consecutive variables, empty if missing; usebackq changes only which quotes mean what. Missing files are reported and the others are still read.',
     ['inputs'], 'every line of up to the bound over delimiters and letters with every combination of options, and every set of files, texts and commands',
     'no test uses FOR /F', [K + 'pBat_For.c'], [('tokens', K + 'pBat_For.c: pBat_ForF*')], ENUM, TRUST)
prop('P12', 'p12_redir.py', 'Redirections send each stream exactly where they say and are undone afterwards',
     '<, >, >>, 1>, 2>, 1>>, 2>>, 2>&1 and 1>&2 apply to exactly the command, block, loop, call, function or side of a pipe they are written on, in any order and position. Outputs reach the file or '
     'stream that the innermost redirection names, in the order in which they were written; > replaces a file and >> extends it; an input is read by the commands of its '
     'block; afterwards, or when GOTO, EXIT /B or an error leaves the block, everything is as it was. Redirecting a stream twice is an error and the command does not run.',
     ['programs', 'histories'], 'every combination of redirections in every position, nests of two redirected blocks and histories of redirected commands within the bounds',
     'the tests contain no redirection', [C + 'pBat_Parse.c', C + 'pBat_Stream.c', C + 'pBat_Run.c', C + 'pBat_Exec.c', K + 'pBat_Block.c'],
     [('stack of streams', C + 'pBat_Stream.c: pBat_SetStreams, pBat_OpenOutput, pBat_UnStackStream'), ('parsing', C + 'pBat_Parse.c: pBat_ParseRedir*')], ENUM, TRUST,
     observe=('standard output and standard error of the interpreter', 'files written'))
prop('P02', 'p02_jump.py', 'GOTO, CALL and EXIT go where they should and come back where they should',
     'GOTO continues at the line after its label, wherever it is in the script (forward, backward, from blocks, IF, FOR, behind operators or in a called label) and whatever follows on '
     'the line is not run; GOTO :EOF ends the script or returns from the CALL. CALL runs the label or script to its end, once, and continues with the command after it, in loops, blocks and at any depth. '
     'EXIT ends the interpreter with its code from anywhere and EXIT /B only the current script or CALL, giving %ERRORLEVEL%.',
     ['programs', 'histories'], 'every program of the grammar of labels, jumps, calls and exits within the bounds, and every trace of it',
     'no test contains a label', [K + 'pBat_Goto.c', K + 'pBat_Call.c', K + 'pBat_Exit.c', C + 'pBat_Jump.c', C + 'pBat_Read.c', C + 'pBat_Run.c'],
     [('jump', C + 'pBat_Jump.c, ' + K + 'pBat_Goto.c'), ('call', K + 'pBat_Call.c')], ENUM, TRUST)
prop('P06', 'p06_env.py', 'SET keeps the environment: each name has the value last given, children get it',
     'After any history of SET, each variable has exactly the value last assigned to it and the others are unchanged; names are case-insensitive, an empty value removes the variable, SET "a=b" assigns what is '
     'between the quotes, the interpreter starts with the variables of its environment; SET prefix lists exactly the variables whose names start with the prefix and SET alone all of them; IF DEFINED tells whether there is one; '
     'and a program that is run gets exactly those variables, however many there are.',
     ['histories'], 'every history of assignments and removals within the bounds, started with tables of every size around those at which they grow',
     'the tests assign three variables', [C + 'pBat_Env.c', K + 'pBat_Set.c', C + 'pBat_Exec.c'], [('table of variables', C + 'pBat_Env.c'), ('SET', K + 'pBat_Set.c')], ENUM, TRUST)
prop('P07', 'p07_local.py', 'SETLOCAL and ENDLOCAL bring back exactly what was there',
     'ENDLOCAL gives every variable the value (or absence) it had at the matching SETLOCAL, and the options of delayed expansion and CMDLYCORRECT back too, to any depth; ENDLOCAL without SETLOCAL does nothing; '
     'neither changes %ERRORLEVEL%. SETLOCAL options take effect from the next command. Blocks, loops, procedures and sides of pipes start with the variables and options in force where they stand. What is matched within a CALL, a procedure, a block, a loop or a side of a pipe never touches what its caller saved.',
     ['histories'], 'every history of assignments, SETLOCAL with each option, ENDLOCAL and calls within the bounds, all variables and options observed after each step',
     'no test uses SETLOCAL', [K + 'pBat_Setlocal.c', C + 'pBat_EnvStack.c', C + 'pBat_Env.c'], [('stack of environments', C + 'pBat_EnvStack.c'), ('options', K + 'pBat_Setlocal.c')], ENUM, TRUST)
prop('P08', 'p08_def.py', 'DEF procedures get their parameters and keep their local variables to themselves',
     'A procedure runs its body with $1 to $9 and $* replaced by exactly the parameters it was called with. Variables whose names start with _ are its own: they start with the values of the caller, '
     'what it does to them is undone when it ends (at its end, by GOTO, by EXIT /B), except those set by SET /X, which the caller alone inherits; other variables are shared. This holds for nested and recursive '
     'procedures. DEF refuses to redefine without /F, DEF /F replaces exactly the procedure of that name, and DEF /L lists them.',
     ['programs', 'histories'], 'every body and parameter list, every tree of procedures and every history of definitions within the bounds',
     'no test uses DEF', [K + 'pBat_Def.c', K + 'pBat_Set.c', C + 'pBat_ExpandDef.c', C + 'pBat_Run.c', C + 'pBat_Env.c', 'libpbat/cmdlist/pBat_CmdList.c'],
     [('procedures', C + 'pBat_Run.c'), ('local variables', C + 'pBat_Env.c'), ('command list', 'libpbat/cmdlist/pBat_CmdList.c')], ENUM, TRUST)
prop('P17', 'p17_del.py', 'DEL and RD delete exactly what they were told to',
     'DEL removes exactly the files its names and patterns stand for (for a folder: the files in it, with /S those of its subfolders) that have the attributes of /A, leaving read-only ones without /F, and never folders; RD removes '
     'empty folders and RD /S whole trees, never a file that is not in one. Neither follows symbolic links out of the tree. With /P, for patterns without /Q and for RD, each entry is asked about once and goes only if the answer (or an earlier "all") said so; '
     'no answer means no. What could not be done gives a status other than 0, success 0.',
     ['inputs', 'histories'], 'every combination of switches with every pair of names over a tree of all kinds of entries, every tree of up to four (thorough five) entries, and every sequence of answers within the bounds',
     'no test deletes anything', [K + 'pBat_Del.c', K + 'pBat_Rmdir.c', K + 'pBat_Ask.c', 'libpbat/dir/pBat_Dir.c', 'libpbat/dir/pBat_Attr.c'],
     [('deletion', K + 'pBat_Del.c, ' + K + 'pBat_Rmdir.c'), ('file search', 'libpbat/dir/pBat_Dir.c'), ('questions', K + 'pBat_Ask.c')], ENUM, TRUST,
     observe=('the file system after the command', 'questions asked', '%ERRORLEVEL%'))
prop('P27', 'p27_copy.py', 'COPY, MOVE and REN put exactly the right contents in the right place',
     'After COPY, MOVE or REN each destination holds exactly the bytes of its source: a file of the given name, or one of the same name in a given folder, or, for several files or +, their concatenation in order; /R reproduces whole trees. '
     'Everything else is unchanged, and sources too unless moved. An existing file is replaced only with /Y or if the answer (or an earlier "all") agrees; REN never replaces one. Copying a file onto itself or into a concatenation of itself '
     'destroys nothing. %ERRORLEVEL% is 0 if and only if all was done or refused by the user.',
     ['inputs', 'histories'], 'every list of sources with every destination, switch and sequence of answers, every small tree with /R, and contents of every length around the sizes of the buffers',
     'no test copies or moves a file', [K + 'pBat_Copy.c', K + 'pBat_Ren.c', K + 'pBat_Mkdir.c', K + 'pBat_Ask.c', 'libpbat/dir/pBat_Dir.c'],
     [('copy', K + 'pBat_Copy.c: pBat_CmdCopyFile, pBat_CatFile, pBat_CmdCopyRecursive'), ('questions', K + 'pBat_Ask.c')], ENUM, TRUST,
     observe=('the file system after the command', 'questions asked', '%ERRORLEVEL%'))
prop('P19', 'p19_cd.py', 'CD, PUSHD and POPD keep a current folder that exists and that everything uses',
     'After any history of CD, PUSHD, POPD, MD and RD the current folder is the one that following the names leads to: .. goes to the parent of the name, . and doubled / change nothing, absolute names start at the root. A folder '
     'that does not exist gives a status other than 0 and changes nothing. %CD%, CD alone, relative names of commands and redirections, %~f and the folder of programs all agree. PUSHD saves one entry for each folder entered, POPD '
     'returns to the newest one and fails on an empty stack, PUSHD alone lists them. MD creates all missing folders of a name. The left side of a pipe and FOR /F commands change neither the folder nor the stack of the others.',
     ['histories', 'inputs'], 'every history of operations over a tree with links within the bounds, and every path within the bounds',
     'the tests never change folder', [K + 'pBat_Cd.c', K + 'pBat_Pushd.c', K + 'pBat_Mkdir.c', C + 'pBat_DirStack.c', C + 'pBat_FilePath.c', C + 'pBat_Clone.c'],
     [('current folder', K + 'pBat_Cd.c'), ('stack', C + 'pBat_DirStack.c')], ENUM, TRUST)
FAULT = 'a tracer (lib/fault.c) numbers the system calls that touch files; the run is repeated once for each of them with that call failing, shortened or replaced by the death of the process, and the final files are compared with the model'
prop('P15', 'p15_faults.py', 'File commands report every failure and lose nothing when one happens',
     'Whatever call to the system fails during COPY, MOVE, REN, DEL, RD or MD (file cannot be opened, disk full, read, write, sync, rename or deletion refused, folder that cannot be read), the command gives a status other than 0 unless all was done '
     'regardless, contents that were being moved still exist whole, sources of copies and all files not named are unchanged, and a destination holds nothing but the beginning of what it was to get. '
     'Transfers shorter than asked for never change the result.',
     ['faults'], 'every system call on a file of every scenario failing with each plausible error, and every single and all transfers shortened; thorough: all pairs',
     'no test makes a call fail', [K + 'pBat_Copy.c', K + 'pBat_Ren.c', K + 'pBat_Del.c', K + 'pBat_Rmdir.c', K + 'pBat_Mkdir.c'],
     [('copy', K + 'pBat_Copy.c: pBat_CopyFile, pBat_CatFile, pBat_MoveFile')], FAULT, TRUST,
     observe=('the file system after the command', '%ERRORLEVEL%'), level='fault_enumeration')
prop('P16', 'p16_crash.py', 'Killing the interpreter during a file command never loses data being moved',
     'At whatever moment the interpreter is killed during MOVE or REN, every file that was to be moved exists whole under its old or its new name, and no name holds anything in between; during COPY the sources, during DEL and RD all files not named, '
     'are unchanged. Running the same COPY /Y again completes it; running the same MOVE, REN or DEL again loses nothing.',
     ['crash points'], 'every point between two system calls on files of every scenario, with every torn write, then the command again; thorough: killed again at every point of the second run',
     'no test interrupts a command', [K + 'pBat_Copy.c', K + 'pBat_Ren.c', K + 'pBat_Del.c', K + 'pBat_Rmdir.c'],
     [('copy', K + 'pBat_Copy.c: pBat_CopyFile, pBat_CatFile, pBat_MoveFile')], FAULT, TRUST,
     observe=('the file system after the death of the process', 'the result of the next run'), level='fault_enumeration')
SCHED = 'stateless model checking of the real program: lib/sched.c traces all its threads and child processes, runs one at a time and enumerates every schedule up to a bound of preemptions at system calls on shared objects; every outcome is compared with a sequential model'
prop('P13', 'p13_pipes.py', 'Pipes and FOR /F commands give the same result whatever the scheduling',
     'The right side of a pipe reads exactly what the left side wrote, in order, and then the end of the input; FOR /F gets exactly the lines its command wrote. This is so whatever order the threads and processes run in: there is no schedule in '
     'which the interpreter hangs, crashes, loses, doubles or mixes output, or goes on before the left side has ended. Variables, folder and options changed on the left side (or by a FOR /F command) stay there, those changed on the right are kept, the status is that of the right side, '
     'a reader that stops early does no harm, and no descriptor is left open or handed to a program.',
     ['schedules', 'programs'], 'every schedule within the bound of preemptions of every pipeline of two and three sides out of a grammar of internal commands, blocks, calls and programs, nested in blocks, loops, calls, procedures and redirections',
     'a test runs one pipe under one schedule', [C + 'pBat_Run.c', C + 'pBat_Exec.c', C + 'pBat_Clone.c', C + 'pBat_Stream.c', K + 'pBat_For.c', C + 'pBat_FdInheritance.c', 'libpbat/thread'],
     [('pipes', C + 'pBat_Run.c: pBat_ExecOperators, pBat_LaunchPipe'), ('programs', C + 'pBat_Exec.c: pBat_RunFile'), ('copies of the interpreter', C + 'pBat_Clone.c')], SCHED, TRUST,
     observe=('standard output', 'exit status', 'files written', 'descriptors of child programs'))
prop('P18', 'p18_dir.py', 'DIR lists exactly the files and folders its pattern, attributes and /S stand for',
     'DIR /B prints each file and folder that the pattern stands for exactly once and nothing else: names are compared level by level with * and ? in any of the levels, without regard to case; a folder stands for its contents; /S searches all folders below '
     'those of the leading levels without following links; /A keeps exactly those with (or, after -, without) the attributes D, R and I; the order of switches does not matter. Whatever form the path is written in (relative, absolute, . and .., '
     'doubled /) the same entries come out, named from the same starting point. The full listing shows the same names with the right kind and number of files and folders. A folder that cannot be read hides only what is in it. More than one path is an error.',
     ['inputs'], 'every pattern within the bounds over every name, every small tree, every starting point and every set of attributes, compared with a reference search',
     'one test lists one folder', [K + 'pBat_Dir.c', 'libpbat/dir/pBat_Dir.c', 'libpbat/dir/pBat_Attr.c', C + 'pBat_FilePath.c'],
     [('matching', 'libpbat/dir/pBat_Dir.c: pBat_RegExpCaseMatch'), ('search', 'libpbat/dir/pBat_Dir.c: pBat_GetMatch'), ('attributes', 'libpbat/dir/pBat_Attr.c')], ENUM, TRUST)
prop('P20', 'p20_find.py', 'FIND prints exactly the lines that match, whole, in order and correctly numbered',
     'FIND prints every line of its input that contains the string (with /E, matches the whole expression; with /I, without regard to case; with /V, all others), unchanged, once and in order, with /N with its number, with /C only '
     'their number (the last of /C and /N counts). It does so for lines of any length, for a last line without an end, for DOS files, from files, patterns, the standard input or a pipe alike; several files get a heading each; folders are ignored. '
     '%ERRORLEVEL% is 0 if and only if a line was found; a missing file is an error.',
     ['inputs'], 'every line and every string or expression within the bounds under every combination of switches, and every length around the sizes of buffers',
     'no test uses FIND', [K + 'pBat_Find.c', 'libpbat/dir/pBat_Dir.c: pBat_RegExpMatch', 'libpbat/estr/pBat_Estr.c: pBat_EsGet'],
     [('FIND', K + 'pBat_Find.c'), ('expressions', 'libpbat/dir/pBat_Dir.c'), ('reading of lines', 'libpbat/estr/pBat_Estr.c')], ENUM, TRUST)
prop('P21', 'p21_text.py', 'TYPE, MORE, WC and XARGS pass every byte and line on, once and in order',
     'TYPE gives the exact bytes of its files, or of the standard input, in the order named; MORE gives the text unchanged except for the ends of rows (and, with its switches, the lines skipped, tabs and escape codes as asked); WC counts exactly; XARGS '
     'calls its command once with each non-empty line as one parameter, whatever characters the lines contain. This is so for lines and files of any length, without an end of line at the end, with any bytes in them, from files, patterns, redirections or pipes alike. '
     'Missing files give a status other than 0 and do not prevent the others.',
     ['inputs'], 'every text over an alphabet of ends of line, blanks, tabs, escape codes and multi-byte characters within the bounds, every length around the sizes of rows and buffers, every combination of switches and sources',
     'the tests print two fixed files', [K + 'pBat_Type.c', K + 'pBat_More.c', K + 'pBat_Wc.c', K + 'pBat_Xargs.c', 'libpbat/estr/pBat_Estr.c'],
     [('TYPE', K + 'pBat_Type.c'), ('MORE', K + 'pBat_More.c'), ('WC and XARGS', K + 'pBat_Wc.c, ' + K + 'pBat_Xargs.c')], ENUM, TRUST)
prop('P24', 'p24_run.py', 'A name runs the right program or script and gets its status back',
     'A name that is not that of an internal command or procedure runs the first file found in the current folder, then in the folders of %PATH% in order (relative ones start at the current folder), in each with the suffixes of %PATHEXT% in order and then none; '
     'a name with a / is looked up only there. Longer names that begin like an internal command are not that command. The program gets the current folder, exactly the current variables, the parameters, and all output written before precedes its own; %ERRORLEVEL%, && and || '
     'see its exit code, or a status other than 0 if it was killed, could not be started or does not exist (with one message, and the script goes on). Files that are not executable are given to %PBAT_START_SCRIPT% if it is set. A script run by its name gets its parameters and its own labels, '
     'changes nothing of its caller, and returns its exit code.',
     ['inputs', 'histories'], 'every placement of files, PATH, PATHEXT and form of name, all exit codes and deadly signals, and all histories of changes of the environment within the bounds',
     'the tests run one program', [C + 'pBat_Run.c', C + 'pBat_Exec.c', C + 'pBat_FilePath.c', K + 'pBat_Call.c', C + 'pBat_Env.c', 'libpbat/cmdlist/pBat_CmdList.c'],
     [('running of commands', C + 'pBat_Run.c: pBat_RunCommand, pBat_RunExternalCommand'), ('programs', C + 'pBat_Exec.c'), ('search', C + 'pBat_FilePath.c: pBat_GetFilePath'), ('CALL', K + 'pBat_Call.c: pBat_CmdCallExternal')], ENUM, TRUST,
     observe=('output of the programs run', '%ERRORLEVEL%'))
prop('P26', 'p26_layout.py', 'A script means the same however its lines are laid out and read',
     'Blank lines, :: and REM comments, unused labels, indentation, LF or CRLF, a last line without an end, a first line with #!, and the length of lines and comments change nothing of what a script does, at any place where a statement may stand, inside blocks too. '
     'The same script gives the same output run as a file, with CMDLYCORRECT, from the standard input, by CALL, or by its name. A block is read until its last parenthesis is closed, however deep it is. Lines that a script adds to its own end while it runs are run, once, after the others.',
     ['inputs', 'histories'], 'every decoration at every line (and pairs and triples of them within the bounds) of programs of all the kinds of statements, in every mode of reading, with every length of line within the bounds, and every history of additions',
     'the tests have one layout', [C + 'pBat_Read.c', C + 'pBat_ReadScript.c', C + 'pBat_Jump.c', C + 'pBat_ParseBlock.c', 'libpbat/estr/pBat_Estr.c: pBat_EsGet', 'pbat/pBat.c'],
     [('reading', C + 'pBat_Read.c: pBat_GetLine, pBat_GetLine_Cmdly'), ('loading', C + 'pBat_ReadScript.c'), ('blocks', C + 'pBat_ParseBlock.c')], ENUM, TRUST)
prop('P28', 'p28_cmdline.py', 'The command line of the interpreter is obeyed and exit codes get out',
     'pbat /c runs the rest of its command line (operators included, words with blanks quoted; @ stands for the variable __PBAT_COMMAND__) and ends; /k runs it and goes on with the standard input; otherwise the first name is the script, the rest are its parameters, whatever they look like, '
     'and without a name the standard input is run. /A takes the attributes in any order, case and form (e: no echo). EXIT n ends the process with n modulo 256 wherever it is run. A script that does not exist or an unknown switch gives a message and a status other than 0, and runs nothing.',
     ['inputs'], 'every command line of up to 3 commands and operators split in all the ways, every set, order and spelling of attributes, all exit codes of the range from every place',
     'the tests use one command line', ['pbat/pBat.c', 'pbat/init/pBat_Init.c', K + 'pBat_Exit.c', C + 'pBat_ExitInt.c', C + 'pBat_FilePath.c'],
     [('start', 'pbat/pBat.c'), ('switches', 'pbat/init/pBat_Init.c: pBat_GetParameters, pBat_InitSetModes'), ('end', K + 'pBat_Exit.c')], ENUM, TRUST)
prop('P29', 'p29_ask.py', 'Commands that read the input take exactly their own lines and leave the rest',
     'SET /P shows its question and gives the variable exactly the next line of the input (without its end, LF or CRLF, whatever it holds and however long it is), PAUSE takes one character, FIND and programs what they read; whatever was not taken is there, whole, for the next command, '
     'in blocks, loops, calls, scripts and programs alike, from a file or a pipe. A redirected command or block reads only its file, the right side of a pipe only the pipe, and afterwards the input goes on where it was. A script read from the standard input may hold the answers between its lines.',
     ['inputs', 'histories'], 'every sequence of consumers of input up to the bound, from files and pipes, with every kind and length of line',
     'no test reads the input', [K + 'pBat_Set.c: pBat_CmdSetP', 'libpbat/estr/pBat_Estr.c: pBat_EsGet', K + 'pBat_Pause.c', K + 'pBat_Ask.c', C + 'pBat_Stream.c', C + 'pBat_Run.c'],
     [('SET /P', K + 'pBat_Set.c: pBat_CmdSetP'), ('reading of lines', 'libpbat/estr/pBat_Estr.c: pBat_EsGet'), ('programs', C + 'pBat_Exec.c'), ('redirections', C + 'pBat_Stream.c')], ENUM, TRUST)
prop('P30', 'p30_prompt.py', 'PROMPT, PECHO and ECHO ON show each line and code exactly as documented',
     'PECHO prints its text with each $ code replaced by what the manual says ($p the current folder, $+ a + per pushed folder, $n the root, $u and $w the variables, $d and $t those of %DATE% and %TIME%, the others their character) and everything else as it is; PROMPT and SET PROMPT= set the prompt, '
     'PROMPT alone restores it. With ECHO ON each line of a script that is run is shown once, after the prompt of that moment, before its output, unless it starts with @; labels, comments and blank lines are not shown; with ECHO OFF only outputs are. The setting is shared by the scripts called; ECHO alone tells it. '
     'Lines read from the standard input are preceded by an empty line and the prompt.',
     ['inputs', 'histories'], 'every text of codes and characters and every history of lines within the bounds, at every depth of the stack of folders',
     'the tests run with ECHO OFF', [C + 'pBat_Prompt.c', K + 'pBat_Pecho.c', K + 'pBat_Echo.c', C + 'pBat_Run.c: pBat_RunBatch'],
     [('codes', C + 'pBat_Prompt.c'), ('PECHO and PROMPT', K + 'pBat_Pecho.c'), ('ECHO', K + 'pBat_Echo.c'), ('lines', C + 'pBat_Run.c: pBat_RunBatch')], ENUM, TRUST)
prop('P23', 'p23_memory.py', 'No script makes the interpreter touch foreign memory, crash or hang',
     'Whatever a script holds - any sequence of characters, any command with any words, names, values, numbers, paths and parameters of any length, any construct repeated or nested any number of times, a file that ends anywhere - the interpreter reads and writes only memory that is its own, is not killed, '
     'ends, and goes on with the script that called it (unless that script told it to end, loops or calls itself without end).',
     ['inputs'], 'every line of tokens within the bounds in every context, every command with every combination of words within the bounds, every place of a script with text of every length within the bounds, every number of repetitions, every prefix and suffix of scripts, on the program built with AddressSanitizer',
     'tests use well-formed lines and ordinary sizes, and do not see accesses outside of buffers', ['pbat', 'libpbat', 'libfasteval'],
     [('parsing', C + 'pBat_Token.c, ' + C + 'pBat_Parse.c, ' + C + 'pBat_ParseBlock.c'), ('variables', C + 'pBat_Var.c'), ('strings', 'libpbat/estr/pBat_Estr.c'), ('commands', 'pbat/command'), ('paths', C + 'pBat_FilePath.c, ' + C + 'pBat_SplitPath.c')], ENUM,
     'Every case within the bounds is run on the program built from the tree with AddressSanitizer, under a limit of time; nothing is claimed beyond the bounds. Trusts AddressSanitizer, the case runner, the compiler.',
     observe=('reports of AddressSanitizer', 'signals', 'end of the process', 'output of the calling script'))
prop('P31', 'p31_status.py', 'Every command tells whether it succeeded, wherever it stands',
     'A command that could not do what it was asked (a missing operand, a missing file, folder, label, program or variable, a wrong switch or number, a file or folder it may not read or write, a program that ends with a status other than 0 or is killed) leaves an error level other than 0, so && skips and || runs what follows, says so on the error stream '
     '(FIND without a match, POPD of an empty stack and exit codes excepted), adds and removes no file, and the script goes on; a command that did leaves 0 and says nothing there (TYPE of several files names them, TIMEOUT tells that it waits). SETLOCAL, ENDLOCAL, labels, comments and blank lines leave the level. This holds on a line, in blocks, IF, FOR, ELSE, called labels and scripts, redirections and at the end of a pipe, whatever came before.',
     ['inputs', 'histories'], 'every command of the tables in every surrounding after either level, and every pair of commands in one script',
     'the tests look at the status of a handful of commands', ['pbat/command', C + 'pBat_Run.c', C + 'pBat_Exec.c', 'pbat/errors'],
     [('statuses', K + 'pBat_*.c: return values'), ('dispatch', C + 'pBat_Run.c: pBat_RunParsedLine, pBat_RunCommand'), ('messages', 'pbat/errors/pBat_ShowErrorMessage.c')], ENUM, TRUST)
prop('P32', 'p32_help.py', '/? and HELP show the help of a command and do nothing else',
     'Each internal command (REM, HELP, CHCP excepted) followed by /? shows its own help, which names it, on the error stream, gives status 0, and does none of its work: no file, variable, scope, folder, parameter, position in the script or line of input changes, whatever words follow (and, for the file commands, precede) and wherever the command stands. HELP with the name of the command, in any case, shows the same; HELP alone lists every command. '
     '/? within a word, a value, a comparison or a text is no question.',
     ['inputs'], 'every command in every spelling with every operand of the tables in every surrounding, and every pair of them',
     'no test asks for help', ['pbat/command', 'pbat/lang/pBat_ShowHelp.c'],
     [('help texts', 'pbat/lang/pBat_ShowHelp.c'), ('HELP', K + 'pBat_Help.c'), ('the test for /? of each command', K + 'pBat_*.c')], ENUM, TRUST)
prop('P33', 'p33_dump.py', 'DUMP shows every byte of its files once, in order, as the type asked for',
     'DUMP prints each file (the standard input without a name) as rows of elements of the type given by /T (c, uc, s, us, i, ui, ll, ull, f, d), in decimal or with /H as their bytes in hexadecimal, with what the letters of /B ask for: a the offset of the row, t the name of the file, c the characters of the row (a point for what cannot be printed), q no blanks between. '
     'All bytes appear, in order, whatever their values, the length of the file (the last element completed with zeros) and the pieces in which the input arrives. A file that cannot be read gives a message and a status other than 0, after those before it are shown.',
     ['inputs'], 'every type, base, format and length within the bounds, every value of 1 and 2 byte elements, all exponents, every cut of the input',
     'one test dumps one text', ['dump/dump.c'], [('types and formats', 'dump/dump.c')], ENUM, TRUST)
prop('P34', 'p34_tea.py', 'TEA keeps every word of a document, in order, with its role, in every format',
     'For every document - titles {{...}}, blocks of code ${...}, items by minus signs at any level (without mark after @), paragraphs with {emphasis} and {target|link}, comments, characters escaped by a backslash - TEA ends and writes, as TEXT, TEXT-PLAIN, TEXT-ANSI, HTML or MD, exactly its words, once and in order, in their blocks. '
     'In texts each block is separated by a blank line and stands at the margin of its level, titles are in capitals, no line is longer than 79 columns, only words that fit no line are cut, short lines of code are as written, emphasis and links are marked as documented (colours with TEXT-ANSI). HTML is balanced, with titles, nested lists, code, '
     'emphasis and links (with .html where no extension is given) in their places, & < > escaped, and the head, foot and title asked for. Documents that cannot be read or do not close a brace, and unknown formats, give a status other than 0.',
     ['inputs'], 'every document of up to three blocks, every paragraph of up to four pieces, every pair of lengths of words round the width of lines, every escape, within the bounds',
     'no test runs TEA', ['tea/src', 'libpbat/estr/pBat_Estr.c', 'libpbat/enc'],
     [('blocks', 'tea/src/Tea_Load.c'), ('inline pieces', 'tea/src/Tea_Node.c'), ('lines', 'tea/src/Tea_Output.c, tea/src/out/tea_text_out.c, tea/src/out/tea_ansi_out.c'), ('HTML', 'tea/src/out/tea_html_out.c'), ('markdown', 'tea/src/out/tea_md_out.c')], ENUM, TRUST)
prop('P35', 'p35_start.py', 'START runs what it names, where it is told, and leaves the script alone',
     'START, with /WAIT (/W), /B, /D dir, a title in quotes, /MIN, /MAX, priorities, /NODE and /AFFINITY in any number, order and case, runs the program, script or internal command that follows, with exactly its parameters, in the folder of /D or else the current one, with the variables of the moment and the redirections and pipes around it, wherever START stands. '
     'With /WAIT it goes on when that has ended, with the exit status of programs and scripts as ERRORLEVEL (128 + the number of the signal that killed a program); without, it goes on at once with 0. What is started is separate: it leaves the variables, scopes, folder and stack of folders, prompt, ECHO, procedures, parameters and position of the script as they were. '
     'A name that is none, a missing operand and a second /D run nothing, give a message and a level other than 0.',
     ['inputs', 'histories'], 'every sequence of options before each kind of target, every status, every list of parameters, every sequence of commands within the bounds; programs that wait for each other',
     'no test uses START', [K + 'pBat_Start.c', C + 'pBat_Exec.c', C + 'pBat_Clone.c'],
     [('options', K + 'pBat_Start.c: pBat_CmdStart'), ('internal commands', K + 'pBat_Start.c: pBat_StartCommandBackground, ' + C + 'pBat_Clone.c'), ('programs', C + 'pBat_Exec.c')], ENUM, TRUST)
prop('P36', 'p36_dynamic.py', 'The dynamic variables tell the moment at which they are expanded',
     '%CD% is the current folder, %ERRORLEVEL% the status of the last command in decimal, %=EXITCODEASCII% the character of that code, %DATE% (MM/DD/YY) and %TIME% (HH:MM:SS and what may follow) the local time of the zone, at the moment of each expansion: with % or !, in any case, with truncation, replacement or a default, in blocks and loops, in values of SET and parameters of CALL, after any history. SET of these names changes none of them. '
     '$D and $T of PECHO agree. %RANDOM% is a number from 0 up, a new one each time. PBAT_OS, PBAT_OS_TYPE, PBAT_PATH, PBAT_VERSION and PBAT_IS_SCRIPT describe the interpreter however it was started.',
     ['inputs', 'histories', 'time'], 'every boundary of the calendar within the bounds in every zone, every code, every history of steps within the bounds',
     'tests cannot choose the moment at which they run', [C + 'pBat_Var.c', 'pbat/init/pBat_Init.c', 'libpbat/dir'],
     [('variables', C + 'pBat_Var.c: pBat_GetVar, pBat_GetTimeBasedVar'), ('constants', 'pbat/init/pBat_Init.c')], ENUM, TRUST + ' The clock is replaced by lib/clock.c (LD_PRELOAD on a dynamically linked build).')

prop('P37', 'p37_editor.py', 'What is typed at a terminal is the line that is run, shown and remembered',
     'At a terminal, for every sequence of keys (characters, arrows, Home, End, Delete, Backspace, Ctrl+A B E F H K L T U W and their codes) the line handed over at Enter (as a command, as a line of a block, or by SET /P) is the text these keys edit, '
     'whole characters at a time (several bytes, wide, combining); the screen shows that line, wrapped at the width of the terminal behind the prompt; Up and Down give the lines entered before, the last one first; '
     'Tab completes the word at the cursor to what all names beginning with it have in common, leaving the rest of the line as it is. No key makes the interpreter hang or crash.',
     ['inputs', 'histories'], 'every sequence of keys, every walk through the history and every word to complete within the bounds',
     'no test has a terminal', ['pbat/linenoise/linenoise.c', 'pbat/linenoise/utf8.c', 'pbat/linenoise/pBat_LineNoise.c', C + 'pBat_Completion.c', C + 'pBat_Read.c', K + 'pBat_Set.c'],
     [('line editor', 'pbat/linenoise/linenoise.c: linenoiseEdit, refreshMultiLine, linenoiseEditHistoryNext'), ('characters', 'pbat/linenoise/utf8.c'), ('completion', C + 'pBat_Completion.c')], ENUM, TRUST + ' The terminal is a pseudo-terminal with a screen modelled in the check.')
