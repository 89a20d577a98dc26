VARIANTS = "linux"
NOTES = ("Every check is generated-input search (property-based testing) against an explicit oracle, built from /repo's working "
         "tree by lib/build.py into /verif/build (git-ignored). VERIF_SEED fixes every random choice; failures are shrunk by "
         "editing the recorded choices and written to /verif/replays; `python3 checks/<id>.py --replay FILE` reruns one. "
         "Generated scripts run as the unprivileged user nobody inside a temporary directory.")
TESTS = ("The test suite runs six fixed scripts (hello world, a block, a few %var% and !var! references, two pipes) and the libcu8 "
         "stream programs: ")
NOTE = "generated cases only: nothing is proved beyond the explored inputs; "
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech, note="", observe=("stdout, stderr and exit status of the interpreter",), na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=TESTS + why, files=files, mech=mech,
             tech=tech, note=NOTE + note, observe=list(observe))
    assert len(title) <= 80, title
    if na:
        d["na"] = na
    PROPS.append(d)


P("P01", "Variable references expand to exactly the text they denote",
  "In every command line, %name% and !name! are replaced by the variable's value (empty when undefined, %name:default% and !name:default! "
  "by the default), %name:~start,length% by the requested substring clamped to the value with negative positions counted from the end, and "
  "%name:old=new% by the value with every occurrence replaced; %% gives %, and a caret keeps the next character literal. "
  "The text around references is never altered, names are case-insensitive, %-references see the values at the time the line or block is read "
  "and !-references those at the time the command runs, and the contents substituted by ! are never interpreted again.",
  ["inputs", "programs"], "all variable contents, names, substring bounds, replacement patterns and positions of references in a line",
  "a handful of references with fixed values; the bounds and the content alphabet are unbounded.",
  ["pbat/core/pBat_Expand.c", "pbat/core/pBat_Var.c", "libpbat/estr/pBat_Estr.c"],
  [("percent expansion", "pbat/core/pBat_Expand.c"), ("reference value, substring, replacement", "pbat/core/pBat_Var.c")],
  "property-based testing against a reference expander",
  "references containing the delimiter itself, unbalanced delimiters and case-differing replacement matches are not generated")

P("P02", "Parameters, %* and SHIFT follow the parameter list through CALL",
  "A script or label started by the command line or by CALL sees its parameters in %1 to %9 with outer quotes removed (empty when absent), the whole "
  "text of its parameters in %*, its own name in %0, and gives the caller its own parameters back on return. SHIFT moves the parameters left by the "
  "given step from the given start, bringing in those beyond the ninth in order, including empty ones, without losing or repeating any.",
  ["programs", "histories"], "all parameter lists, quoting, separators, call nestings and SHIFT histories",
  "none of them passes a parameter.",
  ["pbat/command/pBat_Call.c", "pbat/command/pBat_Shift.c", "pbat/core/pBat_Args.c", "pbat/init/pBat_Init.c"],
  [("parameter splitting", "pbat/core/pBat_Args.c"), ("CALL", "pbat/command/pBat_Call.c"), ("SHIFT", "pbat/command/pBat_Shift.c"), ("command line", "pbat/init/pBat_Init.c")],
  "stateful property-based testing against a parameter-stack model")

P("P06", "SET /A computes integer expressions with C semantics and precedence",
  "For every well-formed integer expression, SET /A assigns the value given by the documented operator precedence and associativity, with "
  "integer division truncated toward zero, modulo, shifts, bitwise, logical, comparison operators and parentheses, reading variables by name. "
  "Every assignment operator updates its variable by exactly the corresponding operation, and comma-separated expressions are evaluated in order.",
  ["inputs", "programs"], "all expression trees, operand values (32-bit), variables, assignment operators and sequences",
  "none of them uses SET /A.",
  ["libfasteval/lib", "pbat/command/pBat_Set.c"],
  [("expression grammar", "libfasteval/lib/parser.y"), ("scanner", "libfasteval/lib/scanner.l"), ("evaluation", "libfasteval/lib/fasteval.c"), ("assignment", "pbat/command/pBat_Set.c")],
  "property-based testing against a reference evaluator (differential)",
  "results beyond 2^31 and malformed expressions are not specified")

P("P07", "SET /A computes floating point expressions and functions accurately",
  "For every well-formed expression with a floating point operand, SET /A assigns the value of the expression evaluated in double precision, "
  "with the documented precedence, constants and mathematical functions, written with up to fourteen significant digits.",
  ["inputs"], "all expression trees over decimal operands, constants, functions and variables",
  "none of them uses SET /A.",
  ["libfasteval/lib", "pbat/command/pBat_Set.c"],
  [("functions and constants", "libfasteval/lib/fasteval.c, libfasteval/lib/xmath.c"), ("evaluation", "libfasteval/lib/fasteval.c"), ("printing", "pbat/command/pBat_Set.c")],
  "property-based testing against Python's math module (differential)",
  "the value is compared to a relative 1e-11")

P("P03", "~ modifiers of parameters give the requested parts of a file",
  "%~1 (and every %~<modifiers>N, and the same on FOR variables) gives the parameter without its outer quotes, and each of the modifiers f, d, p, n, x, s "
  "and a combination of them the corresponding part of the full path of the named file, z its size and a its attributes, in the documented order and "
  "whatever blanks, dots or separators the name contains. The path parts put together always give back the absolute, simplified path.",
  ["inputs"], "all file names (dots, blanks, relative parts, missing files), modifier combinations and parameters",
  "none of them uses a modifier.",
  ["pbat/core/pBat_Var.c", "pbat/core/pBat_SplitPath.c", "pbat/core/pBat_FilePath.c"],
  [("modifiers", "pbat/core/pBat_Var.c"), ("path splitting", "pbat/core/pBat_SplitPath.c")],
  "property-based testing against a reference path splitter and the real files",
  "%~t is compared only for files that exist")

P("P04", "SET keeps an exact, case-insensitive map from names to values",
  "After any history of SET assignments, removals, SET /A and SET \"quoted\" forms, every defined name (compared without case) denotes the last value assigned to it, "
  "byte for byte, and removed names are undefined for references, IF DEFINED, listings and external programs alike. SET lists exactly the defined variables, "
  "and SET prefix exactly those whose name begins with the prefix, in order, and fails when there is none; inherited variables behave the same way.",
  ["histories", "inputs"], "all histories of assignments and removals, names, values and inherited environments",
  "none of them removes or lists a variable.",
  ["pbat/command/pBat_Set.c", "pbat/core/pBat_Env.c"],
  [("assignment and listing", "pbat/command/pBat_Set.c"), ("map", "pbat/core/pBat_Env.c")],
  "stateful property-based testing against a map model")

P("P05", "ENDLOCAL restores exactly the environment saved by SETLOCAL",
  "SETLOCAL and ENDLOCAL nest: ENDLOCAL brings back every variable (changed, added or removed since) and the delayed expansion option exactly as they were at the "
  "matching SETLOCAL, inside blocks, loops and labels as well, and an ENDLOCAL without SETLOCAL changes nothing. Neither touches the error level, and "
  "DISABLEDELAYEDEXPANSION leaves ! references as they are written until it is undone.",
  ["histories", "programs"], "all interleavings of SETLOCAL, ENDLOCAL, assignments and removals, any depth",
  "none of them uses SETLOCAL.",
  ["pbat/command/pBat_Setlocal.c", "pbat/core/pBat_EnvStack.c", "pbat/core/pBat_Env.c"],
  [("SETLOCAL", "pbat/command/pBat_Setlocal.c"), ("stack", "pbat/core/pBat_EnvStack.c"), ("copy of the environment", "pbat/core/pBat_Env.c")],
  "stateful property-based testing against a stack model",
  "CMDLYCORRECT, which restarts the script by design, is left out")

P("P08", "IF tests decide exactly the documented relation",
  "Every IF comparison (==, EQU, NEQ, LSS, LEQ, GTR, GEQ) compares numbers when both operands are numbers (decimal, 0x hexadecimal, 0 octal, floating point) and "
  "strings byte for byte otherwise (without case under /i), DEFINED, EXIST (with wildcards) and ERRORLEVEL n (error level at least n) test what they say, and NOT "
  "negates any of them. It holds for operands given literally, in quotes or through variables of any contents, including blanks, operators and == inside operands of EQU and the like.",
  ["inputs"], "all operand pairs, comparison operators, modifiers, ways of giving the operands, files and error levels",
  "a few fixed equalities.",
  ["pbat/command/pBat_If.c", "pbat/command/pBat_If.h", "pbat/core/pBat_Args.c"],
  [("tests", "pbat/command/pBat_If.c (pBat_CmdIf, pBat_PerformExtendedTest)")],
  "property-based testing against a reference truth function",
  "== between different spellings of one number, and the order of mixed-case symbols under /i, are not specified")

P("P09", "IF expressions, ELSE chains and nested blocks take exactly one branch",
  "IF [ expression ] combines tests with NOT, AND, OR and brackets, AND binding tighter than OR, and runs the commands after it exactly when the expression is true. "
  "IF ... ( ) ELSE ( ), else-if chains and nested IFs on one line or over several lines execute exactly the commands of the branch selected, in order, and none of the others.",
  ["programs", "inputs"], "all expression trees over all tests, and all nestings of IF/ELSE blocks",
  "none of them uses an expression or ELSE.",
  ["pbat/command/pBat_IfExp.c", "pbat/command/pBat_If.c", "pbat/core/pBat_ParseBlock.c", "pbat/core/pBat_Parse.c"],
  [("expressions", "pbat/command/pBat_IfExp.c"), ("branches", "pbat/command/pBat_If.c"), ("blocks", "pbat/core/pBat_ParseBlock.c")],
  "property-based testing against a reference interpreter")

P("P10", "FOR visits exactly the items of its list and the files it matches",
  "FOR %%v in (list) runs its command once for every item of the list, in order, items being separated by blanks, commas, semicolons and colons unless quoted, and replaces an item "
  "with wildcards by exactly the files (not directories) it matches; FOR /R and FOR /D do so for all the files, or all the directories, below a base directory. "
  "Nested loops see their own variables, %%~v drops the outer quotes, and a GOTO in the body ends the loop.",
  ["programs", "inputs"], "all lists, quotings, separators, patterns, trees of files, nestings and bodies",
  "none of them uses FOR.",
  ["pbat/command/pBat_For.c", "pbat/core/pBat_Args.c", "pbat/core/pBat_ShowFolder.c", "libpbat/filelist"],
  [("loops", "pbat/command/pBat_For.c"), ("splitting", "pbat/core/pBat_Args.c"), ("file search", "libpbat/filelist")],
  "property-based testing against a reference list splitter and the real tree of files",
  "patterns with ?* or several adjacent * are not generated; the order of the files matched by one pattern is not specified")

P("P11", "FOR /L counts exactly from start to end by step",
  "FOR /L %%v in (start,step,end) runs its command for start, start+step, ... up to end included and no other value, in order, never when start is greater than end, and always terminates. "
  "Bounds may be given in any documented spelling, through variables or variables of outer loops, and the bounds are those at the time the loop starts whatever its body changes.",
  ["programs", "inputs"], "all bounds up to the limits of integers, steps, spellings, nestings and bodies",
  "none of them uses FOR.",
  ["pbat/command/pBat_For.c"], [("counting loop", "pbat/command/pBat_For.c (pBat_ForLoop)")],
  "property-based testing against Python's range",
  "negative steps are generated only for loops which do not run")

P("P12", "FOR /F splits its input into lines and tokens as its options say",
  "FOR /F runs its command once for every line of a string, of one or several files or of the output of a command, after skipping the first skip=n lines and those beginning with an eol= character, "
  "and assigns the tokens selected by tokens= (n, n-p, n.p, n*, *, n.*, in any order), as split by any run of delims= characters, to consecutive variables, empty when the line is shorter. "
  "Every line of the input is seen, once and in order, empty ones included, until the end or a GOTO, and a loop that would assign a variable in use fails.",
  ["inputs", "programs"], "all inputs and sources, option combinations, token lists, delimiters and bodies",
  "none of them uses FOR.",
  ["pbat/command/pBat_For.c"],
  [("options", "pbat/command/pBat_For.c (pBat_ForMakeInfo)"), ("tokens", "pbat/command/pBat_For.c (pBat_ForMakeTokens, pBat_ForGetToken)"), ("inputs", "pbat/command/pBat_For.c (pBat_ForGetInputLine)")],
  "property-based testing against a reference tokenizer",
  "strings of several physical lines (which the parser rejects) and ranges written backwards are not generated")

P("P13", "Commands joined by operators and grouped in blocks run as they should",
  "On a line, & always runs the next command, && runs it only if the error level is zero and || only if it is not, without precedence among them; IF and FOR take all the rest of the line, ( ) groups commands, and nested loops see each of them afresh at each iteration. "
  "Every command sets %ERRORLEVEL% to its result - that of CALL, of a script or of an external program being the code it ends with - which IF, FOR, GOTO and blocks leave to the commands they run. "
  "What scripts, commands and external programs print appears in the order in which they ran.",
  ["programs"], "all nestings and lengths of chains, blocks, IFs and FORs, over commands which fail or not",
  "a few fixed lines with one operator.",
  ["pbat/core/pBat_Run.c", "pbat/core/pBat_Parse.c", "pbat/core/pBat_ParseBlock.c", "pbat/command/pBat_For.c", "pbat/command/pBat_If.c"],
  [("operators", "pbat/core/pBat_Run.c (pBat_ExecOperators)"), ("blocks", "pbat/core/pBat_ParseBlock.c"), ("IF/FOR", "pbat/core/pBat_Run.c (pBat_LookAHeadMakeParsedLine)")],
  "property-based testing against a reference interpreter",
  "the exact error level of a command which is not found is not specified, only that it is not zero")

P("P14", "GOTO, CALL and EXIT transfer control exactly where they say",
  "GOTO continues at the first line of the file which is the label (case-insensitive, indented or followed by other text), out of any blocks and loops; CALL runs a label, a script, or a label of a script, with its own parameters, and comes back to the command after it, even inside blocks, loops and recursions. "
  "GOTO :EOF and EXIT /B end only the current call, EXIT the whole script (only itself for a script run without CALL), with the code given if any as error level or exit status; a label or script which does not exist is an error and the script continues. "
  "A script run without CALL leaves the variables of its caller untouched.",
  ["programs", "histories"], "all programs of several scripts with labels, jumps, calls, recursions and exits",
  "a few fixed scripts.",
  ["pbat/core/pBat_Jump.c", "pbat/command/pBat_Goto.c", "pbat/command/pBat_Call.c", "pbat/command/pBat_Exit.c", "pbat/core/pBat_ReadScript.c", "pbat/core/pBat_Clone.c"],
  [("labels", "pbat/core/pBat_Jump.c"), ("calls", "pbat/command/pBat_Call.c"), ("exit", "pbat/command/pBat_Exit.c, pbat/core/pBat_ExitInt.c"), ("scripts", "pbat/core/pBat_Run.c (pBat_RunExternalBatch)")],
  "property-based testing against a reference interpreter with bounded steps",
  "the exit status of a script which simply ends, and GOTO /Q to a missing label, are not specified; programs needing more than 250 steps are not run")

P("P15", "Redirections send each stream exactly where they say",
  "<file, >file, >>file, 1>, 2>, 2>&1 and 1>&2 in any combination and anywhere in a command make it read its input from that file and write its output and errors to these files, truncated for > and extended for >>, or to the stream named, NUL being discarded; nothing goes anywhere else. "
  "This holds for internal commands, external programs, scripts and labels, blocks (whose commands share the streams and read successive lines of the input), IF and FOR bodies, nested. "
  "When the command ends, even by GOTO or EXIT /B, all streams are back to what they were.",
  ["programs", "inputs"], "all combinations and positions of redirections over nested commands, blocks, calls and programs",
  "none of them uses a redirection.",
  ["pbat/core/pBat_Parse.c", "pbat/core/pBat_Stream.c", "pbat/core/pBat_Run.c", "pbat/core/pBat_OsStream.c"],
  [("parsing", "pbat/core/pBat_Parse.c (pBat_ParseOutput)"), ("streams", "pbat/core/pBat_Stream.c"), ("devices", "pbat/core/pBat_OsStream.c")],
  "property-based testing against a reference model of the streams and the files",
  "redirections inside a block itself under 2>&1 or 1>&2, a file opened twice at once, files which cannot be opened, and digits stuck to a word before > are not generated")

P("P16", "Pipelines carry all the data and keep the left side to itself",
  "In a | b | c, with any number and kind of commands (internal, external, scripts, labels, blocks), each command reads exactly what the one on its left prints, however much, and only the last one prints; commands which do not read all of it disturb nothing. "
  "The commands left of a pipe run in a copy of the interpreter: their variables, directory, error level and EXIT do not reach the script, while those of the last one do (as SET /P reading a line). "
  "The line goes on once all of them are done, its error level being that of the last one, and EXIT ends the program with its code, even from inside a pipe or a FOR /F over a command.",
  ["programs", "schedules"], "all pipelines of sources and filters, small and large data, in blocks, loops, conditions, operators and redirections",
  "a single pipe of one line.",
  ["pbat/core/pBat_Run.c", "pbat/core/pBat_Clone.c", "pbat/core/pBat_Stream.c", "pbat/core/pBat_Exec.c", "pbat/core/pBat_ExitInt.c"],
  [("pipes", "pbat/core/pBat_Run.c (pBat_ExecOperators, pBat_LaunchPipe)"), ("isolation", "pbat/core/pBat_Clone.c"), ("programs", "pbat/core/pBat_Exec.c")],
  "property-based testing against a reference model of the pipeline, under whatever schedules the system produces",
  "commands which go on for ever on the left of a pipe are not generated")

P("P19", "COPY produces exactly the files asked for and destroys nothing else",
  "COPY copies the files its sources select (names, wildcards, attributes) byte for byte to the destination - into it under their own names if it is a folder, concatenated in order into it if they are several or joined by + - and /R copies whole trees, folders included, relative to the static part of the source. "
  "An existing file is replaced only with /Y or if the user agrees (y, n, a for all, the default being no), no file is ever lost by copying it onto itself, and everything else in the tree is left as it was. "
  "The error level is zero only if all that was asked and agreed was done.",
  ["inputs", "histories"], "all trees, contents, option and source combinations, destinations and answers, in sequences of commands",
  "none of them copies a file.",
  ["pbat/command/pBat_Copy.c", "pbat/command/pBat_Ask.c", "libpbat/dir/pBat_Dir.c", "libpbat/dir/pBat_Attr.c"],
  [("selection", "pbat/command/pBat_Copy.c (pBat_CmdCopy)"), ("copying", "pbat/command/pBat_Copy.c (pBat_CopyFile, pBat_CatFile)"), ("trees", "pbat/command/pBat_Copy.c (pBat_CmdCopyRecursive)"), ("questions", "pbat/command/pBat_Ask.c")],
  "property-based testing against a reference model of the file tree",
  "the order of files selected by one wildcard is free; concatenating into a file which is a later source, and trees written into themselves, are not generated; faults of the disk are not injected")

P("P20", "MOVE and REN move and rename exactly the files asked for, losing none",
  "MOVE moves the files its sources select to the destination, into it if it is a folder, and /R moves whole trees, removing the folders it empties; the contents are unchanged, an existing file is replaced only with /Y or if the user agrees, and a file moved onto itself stays. "
  "REN gives a file or folder a new name in its folder and refuses paths, missing files and names already taken. "
  "Everything else in the tree is left as it was, and the error level is zero only if all that was asked and agreed was done.",
  ["inputs", "histories"], "all trees, contents, option and source combinations, destinations and answers, in sequences of commands",
  "none of them moves or renames a file.",
  ["pbat/command/pBat_Copy.c", "pbat/command/pBat_Ren.c", "pbat/command/pBat_Ask.c"],
  [("moving", "pbat/command/pBat_Copy.c (pBat_MoveFile)"), ("trees", "pbat/command/pBat_Copy.c (pBat_CmdCopyRecursive)"), ("renaming", "pbat/command/pBat_Ren.c")],
  "property-based testing against a reference model of the file tree",
  "moves across file systems and the emptied root of a moved tree (which stays) are not specified")


P("P21", "DEL, RD and MD remove and create exactly what was asked and confirmed",
  "DEL removes exactly the files its names, wildcards, folder names, /S and /A select, never a folder, nothing at all if a name matches nothing, and no read-only file without /F; RD removes an empty folder, and with /S the whole tree but nothing that links in it lead to; MD creates a folder and all its missing parents. "
  "Files selected by wildcards (without /Q) or with /P, and trees (without /Q), are only removed as far as the user agrees (y, n, a for all, the default being no), and everything else in the tree is left as it was. "
  "The error level is zero only if all that was asked and agreed was done.",
  ["inputs", "histories"], "all trees with read-only files and links, name, option and answer combinations, in sequences of commands",
  "none of them removes or creates a folder or file by command.",
  ["pbat/command/pBat_Del.c", "pbat/command/pBat_Rmdir.c", "pbat/command/pBat_Mkdir.c", "libpbat/dir/pBat_Dir.c"],
  [("DEL", "pbat/command/pBat_Del.c"), ("RD", "pbat/command/pBat_Rmdir.c"), ("MD", "pbat/command/pBat_Mkdir.c"), ("matching", "libpbat/dir/pBat_Dir.c")],
  "property-based testing against a reference model of the file tree",
  "DEL /S of a plain name, /P with /Q, links as operands of DEL, wildcards given to RD and names given twice are not generated; faults of the disk are not injected")

P("P22", "CD, PUSHD and POPD keep the current folder every command works in",
  "CD changes to the folder its path names (absolute or relative, quoted or with blanks, with . and .. and repeated slashes, .. going back lexically out of links), and PUSHD to each of its folders in turn, saving the previous ones on a stack from which POPD returns in reverse order; a path that is no folder, or an empty stack, is an error which leaves folder and stack as they are. "
  "%CD%, file commands, redirections, wildcards, called scripts and external programs all work in the current folder. "
  "Labels and blocks share the current folder, while commands piped into another change it for themselves only.",
  ["histories", "inputs"], "all folder trees with links and unusual or long names, path spellings and command histories",
  "none of them changes the current folder.",
  ["pbat/command/pBat_Cd.c", "pbat/command/pBat_Pushd.c", "pbat/core/pBat_DirStack.c", "pbat/core/pBat_FilePath.c", "pbat/core/pBat_Clone.c"],
  [("changing folder", "pbat/command/pBat_Cd.c"), ("stack", "pbat/command/pBat_Pushd.c, pbat/core/pBat_DirStack.c"), ("relative names", "pbat/core/pBat_FilePath.c"), ("isolation", "pbat/core/pBat_Clone.c")],
  "stateful property-based testing against a model of the folder and stack",
  "paths which lead through a link and back to a folder that does not exist lexically, folders removed while in use and ENDLOCAL are not specified")

P("P23", "Wildcards, attributes and DIR select and show exactly the right files",
  "A path selects exactly the files and folders whose names match it level by level, where * stands for any characters and ? for exactly one, letters match in either case and all other characters only themselves; /S and FOR /R and /D search all folders below, and /A:attributes (D, R, I, - for not) keeps just those with the attributes. "
  "DIR, plain FOR, FOR /R and FOR /D name each of them exactly once, relative to the current folder as asked, and list a folder's contents when DIR is given the folder. "
  "The long listing shows the size, time and type of each, and the right totals.",
  ["inputs"], "all folder trees, names (Unicode and punctuation included), wildcard paths, attributes, sizes and times",
  "none of them uses wildcards or lists files.",
  ["libpbat/dir/pBat_Dir.c", "libpbat/dir/pBat_Attr.c", "pbat/command/pBat_Dir.c", "pbat/command/pBat_For.c"],
  [("matching", "libpbat/dir/pBat_Dir.c (pBat_RegExpCaseMatch)"), ("search", "libpbat/dir/pBat_Dir.c (pBat_GetMatch)"), ("attributes", "libpbat/dir/pBat_Attr.c"), ("listing", "pbat/command/pBat_Dir.c"), ("loops", "pbat/command/pBat_For.c (pBat_CmdForSimple, pBat_CmdForDeprecatedWrapper)")],
  "property-based testing against a reference matcher and tree model",
  "wildcards whose meaning depends on backtracking (documented as missing), /S with a plain file name, the order of a folder's files, letter attributes other than D and the pseudo folders . and .. are not specified")


P("P24", "FIND selects exactly the lines that contain or match what is searched",
  "FIND prints, in order and unchanged, exactly the lines of its input which contain the string (with /I in either case; with /E which match the wildcards as a whole; with /V all others), whatever their number, length and line ends; /N adds their numbers, /C only counts them, the last of both counting. "
  "Input is standard input or all files named or matched by wildcards, folders being ignored, each announced by a line `---------- path` if there are several. "
  "The error level is zero if lines were selected and not zero if none was, and a missing or unreadable file or argument is an error.",
  ["inputs"], "all file contents, strings, wildcards, switch combinations and input sources",
  "none of them searches in more than a line or two.",
  ["pbat/command/pBat_Find.c", "libpbat/dir/pBat_Dir.c"],
  [("search", "pbat/command/pBat_Find.c (pBat_FileFind)"), ("wildcards", "libpbat/dir/pBat_Dir.c (pBat_RegExpMatch)")],
  "property-based testing against a reference search",
  "contents with NUL characters or lone carriage returns, an empty string, and the error level when only some of several files have selected lines are not specified")

P("P25", "WC counts lines, words, bytes and characters exactly",
  "WC shows, for standard input or each file named or matched by wildcards (folders being ignored), the number of its line feeds (/L), of its words, delimited by blanks, line ends, dots, commas and semicolons (/W), of its bytes (/C, the default) and of its UTF-8 characters (/M), in this order and followed by the name as given, and with several files a last line with their totals. "
  "A missing or unreadable file or unknown switch is an error.",
  ["inputs"], "all contents (binary and Unicode included), sizes around the program's buffers, switch combinations and input sources",
  "none of them counts anything.",
  ["pbat/command/pBat_Wc.c"],
  [("counting", "pbat/command/pBat_Wc.c (pBat_FileCounts)"), ("files", "pbat/command/pBat_Wc.c (pBat_CmdWc)")],
  "property-based testing against reference counts",
  "contents that are not valid UTF-8 are only counted in bytes, lines and words by other checks")

P("P26", "XARGS delivers each input line as one unchanged parameter",
  "XARGS runs its command once with its own arguments followed by one parameter for each line of standard input, in order: no character of a line (delimiters, single quotes, carets, %, !, &, |, <, > and parentheses, names of variables) has any effect, and only line ends are removed. "
  "Lines with blanks, tabs, commas or semicolons are passed as one quoted parameter. "
  "This holds for internal and external commands, in loops and blocks, and whether delayed expansion is enabled or not.",
  ["inputs"], "all line contents, numbers and lengths of lines, line ends, commands and contexts",
  "none of them uses XARGS.",
  ["pbat/command/pBat_Xargs.c", "pbat/core/pBat_Args.c", "pbat/core/pBat_Run.c"],
  [("command line", "pbat/command/pBat_Xargs.c"), ("parameters", "pbat/core/pBat_Args.c"), ("external programs", "pbat/core/pBat_Run.c (pBat_RunExternalCommand)")],
  "property-based testing: round-trip of generated lines through commands that show their parameters",
  "lines with double quotes, empty lines and lines starting with / are not specified")

P("P27", "TYPE copies its input byte for byte and MORE lays it out faithfully",
  "TYPE writes exactly the bytes of its files, or standard input, in order, and shows their names, if there are several, on standard error only; folders are ignored, and a missing or unreadable name is an error (nothing is shown if a name is missing). "
  "MORE, when its output is no terminal, shows the text of its files, or standard input, in order and complete, folding lines after 79 characters (never inside a UTF-8 character, and adding nothing when the line ends right there), with tabs expanded to the next multiple of /T, escape sequences taking no room, multiple blank lines squeezed into one by /S and the first n display lines skipped by +n.",
  ["inputs"], "all contents (binary for TYPE, Unicode, tabs, blank lines and escape sequences for MORE), line lengths, options and input sources",
  "they only type one or two lines and never use MORE.",
  ["pbat/command/pBat_Type.c", "pbat/command/pBat_More.c"],
  [("TYPE", "pbat/command/pBat_Type.c"), ("MORE", "pbat/command/pBat_More.c (pBat_MoreWriteLine)")],
  "property-based testing against reference implementations",
  "a tab that does not fit in 79 columns ends the line; MORE /A and /U and carriage returns are not generated; the behaviour on a terminal is covered by another property")

P("P17", "A DEF procedure runs its body with its parameters, keeping its _variables",
  "Calling a procedure defined by DEF runs its body with $1 to $9 replaced by the parameters (nothing when absent) and $* by their whole text, each once and leaving all other text of the body and of the parameters alone, whatever the way it is called (in blocks, loops, pipes, other procedures or itself). "
  "Changes to variables whose name starts with _ (assignments and removals) vanish when the procedure ends, except those made with SET /X in a procedure, and changes to all other variables remain. "
  "Names are case-insensitive, a name already in use is refused with an error unless /F is given, which replaces exactly that command, /L lists the procedures, and a procedure never disturbs commands with a similar name.",
  ["programs", "histories"], "all bodies, parameters, names, nestings, redefinitions and histories of variables",
  "none of them defines a procedure.",
  ["pbat/command/pBat_Def.c", "pbat/core/pBat_ExpandDef.c", "pbat/core/pBat_Env.c", "libpbat/cmdlist/pBat_CmdList.c"],
  [("definition", "pbat/command/pBat_Def.c"), ("substitution", "pbat/core/pBat_ExpandDef.c"), ("local variables", "pbat/core/pBat_Env.c (pBat_PushEnvLocals)"), ("lookup", "libpbat/cmdlist/pBat_CmdList.c")],
  "model-based property testing over generated sets of procedures and calls",
  "parameters with ! ^ & | < > ( ) are not generated, nor is EXIT or an unbalanced SETLOCAL inside a procedure; SET /X inside nested procedures is not specified")

P("P18", "The layout of a script has no effect, and a modified script is read again",
  "A script gives the same result whatever its line ends (LF, CR LF or mixed, the last one missing or not), the indentation of its lines, blank lines and lines starting with :: anywhere (in blocks as well, whatever they contain), a first line starting with #!, the case of commands and keywords, and @ before commands while echo is off. "
  "A script that is modified while it runs (appended to, or replaced by a longer, shorter or other text of the same length) is read again before its next command: execution goes on at the same line number, counting lines of commands only, its labels are those of the new text, and it ends when there is no such line.",
  ["inputs", "histories"], "all scripts made of chains, blocks, IF, FOR, GOTO, CALL and EXIT, layouts and histories of modifications",
  "the six scripts have one layout and are never modified.",
  ["pbat/core/pBat_ReadScript.c", "pbat/core/pBat_Read.c", "pbat/core/pBat_Jump.c", "libpbat/estr/pBat_Estr.c", "pbat/core/pBat_ParseBlock.c"],
  [("loading", "pbat/core/pBat_ReadScript.c (pBat_LoadBatchScript)"), ("reloading", "pbat/core/pBat_ReadScript.c (pBat_ReloadBatchScript)"), ("lines and blocks", "pbat/core/pBat_Read.c")],
  "metamorphic and model-based property testing: the result of a script is that of its reference layout, and a line-counting model of modified scripts",
  "CMDLYCORRECT and modifications that move a block across the current line are not generated")

P("P37", "Commands do the same however they are given to the interpreter",
  "A sequence of commands prints the same and ends with the same status in a script file, on standard input, after /C or /K (as words, or in %__PBAT_COMMAND__% with @) or with the rest on standard input after /K, whatever the order, grouping and case of the attributes of /A; /C never goes on with standard input and /K always does. "
  "A script is found by its relative or absolute path or through %PATH%, and all parameters after it, even those that look like options, are its own, with %0 its path; EXIT and, outside of subroutines, EXIT /B end the interpreter with their code. "
  "An unknown option, a missing command or a missing script only gives an error message and a status other than 0.",
  ["programs", "configurations"], "all sequences of chains, blocks, IF and FOR, ways of submitting them and command lines",
  "they only run pbat with one script or with text piped to it.",
  ["pbat/pBat.c", "pbat/init/pBat_Init.c", "pbat/core/pBat_Read.c"],
  [("options", "pbat/init/pBat_Init.c (pBat_GetParameters)"), ("main program", "pbat/pBat.c")],
  "model-based and metamorphic property testing: one reference interpretation of the commands for all ways of submitting them",
  "SET /A shows its result outside of scripts; words with blanks after /C, %variables% in /C commands and CMDLYCORRECT are not generated")

P("P40", "External programs get exactly their parameters, environment, folder and streams",
  "An external program receives exactly the parameters written on its line (quotes around a parameter removed, quotes inside kept, carets escaping, delayed expansions never split), the current variables and no others, the current folder and the streams of its place in redirections and pipes, with no other descriptor open. "
  "It is the first regular file found in the current folder and then in the folders of %PATH% (relative ones starting from the current folder), trying in each the extensions of %PATHEXT% in order and then the plain name; names with a / are not looked up in %PATH%. "
  "Its exit status becomes the error level, a death by a signal counts as a failure, and one that writes to a pipe nobody reads any more is ended.",
  ["inputs", "histories", "configurations"], "all parameters, histories of variables and folders, layouts of folders, redirections, statuses and signals",
  "they run no external program but pbat's own tools, with plain parameters.",
  ["pbat/core/pBat_Run.c", "pbat/core/pBat_Exec.c", "pbat/core/pBat_FilePath.c", "pbat/core/pBat_Args.c", "pbat/core/pBat_Env.c"],
  [("parameters", "pbat/core/pBat_Args.c (pBat_GetParamList)"), ("execution", "pbat/core/pBat_Exec.c (pBat_RunFile)"), ("search", "pbat/core/pBat_FilePath.c (pBat_GetFilePath)"), ("environment", "pbat/core/pBat_Env.c (pBat_ApplyEnv)")],
  "model-based property testing with a probe program that shows what it receives",
  "parameters that begin with a quote and go on after the closing one, unpaired quotes and files without execute permission are not generated")

P("P41", "START runs programs, scripts and internal commands as asked",
  "START /WAIT runs its program, script or internal command with exactly the parameters given, in the folder given by /D (an error, with nothing run, if there is none) and waits for it; the error level is then the exit status of the program or script, a quoted title and the display and priority options have no effect, and an internal command works on a copy of the interpreter. "
  "With /B it uses the streams of the script and, without /WAIT, the program runs in the background with the redirections of the command. "
  "A file that is no program is handed to the program named by %PBAT_START_SCRIPT%, followed by its parameters; if there is none, START is an error.",
  ["inputs", "histories"], "all sequences of START commands with all combinations of options, parameters and kinds of commands",
  "none of them uses START.",
  ["pbat/command/pBat_Start.c", "pbat/core/pBat_Exec.c"],
  [("command", "pbat/command/pBat_Start.c"), ("start script", "pbat/core/pBat_Exec.c (pBat_StartFile)")],
  "model-based property testing with a probe program that shows what it receives",
  "new windows need a desktop; without one and without a start script the command runs in the same console; internal commands in the background without /WAIT are not generated")

P("P28", "Echoed lines, prompts and PECHO are displayed, and SET /P reads, exactly",
  "While ECHO is on, each line of a script that is executed (in subroutines and other scripts too, a block as a whole) is displayed before it runs as the prompt followed by its text after the expansion of % and without its indentation, unless it begins with @; labels, comments, blank lines and skipped lines are not displayed, and interactive use shows the prompt before each line read and > before the further lines of a block. "
  "The prompt, set by PROMPT or %PROMPT%, and the text of PECHO show each $ specifier of the manual as described there, whatever its case, with the folder, directory stack and variables of that moment, and all other text as it is. "
  "SET /P shows its question without ending the line, and puts into its variable exactly one line of its input (a file, a pipe or the input shared with the other commands and programs, which get what follows) without interpreting it; an empty line or the end of the input removes the variable and sets an error level.",
  ["inputs", "histories"], "all sequences of statements, ECHO and PROMPT changes, formats and contents of the input",
  "all of them run with echo off and the default prompt; none uses PECHO, PROMPT or SET /P.",
  ["pbat/core/pBat_Run.c", "pbat/core/pBat_Prompt.c", "pbat/command/pBat_Echo.c", "pbat/command/pBat_Pecho.c", "pbat/command/pBat_Set.c", "pbat/core/pBat_Read.c"],
  [("echo of lines", "pbat/core/pBat_Run.c (pBat_RunBatch)"), ("formats", "pbat/core/pBat_Prompt.c (pBat_OutputPromptString)"), ("SET /P", "pbat/command/pBat_Set.c (pBat_CmdSetP)")],
  "model-based property testing: a model of the displayed transcript, of the prompt formats and of the line-wise consumption of the input",
  "$D and $T are not generated; colours show nothing as the output is no terminal here; lines continued with ^ are covered by P01")

P("P29", "The dump of any data shows exactly its elements, addresses and characters",
  "DUMP shows all data of each file (or of the standard input, however it arrives) in order: one value for each element of the chosen type (integers in decimal or, with /H, all types in hexadecimal, floats with enough digits to get them back), the last element completed by zero bytes. "
  "Each line has as many elements as fit in 80 columns; A shows the offset of its first element, C the characters of its bytes (. for the others) in a column, T the name of each file and Q removes the blanks, whatever the order and case of the options. "
  "Absolute paths are never taken for options, and a missing file, a folder or an unknown type gives an error message and a status other than 0.",
  ["inputs", "configurations"], "all data, types, bases, formats, sequences of files and chunked inputs",
  "none of them runs DUMP.",
  ["dump/dump.c"],
  [("dump", "dump/dump.c")],
  "property-based testing against an independent rendering of the data",
  "whether a second /B option cancels Q is not specified; only little-endian machines")

P("P30", "TEA converts documents without losing or changing anything",
  "TEA turns every title, paragraph, list item and block of code of a document, in order, into one block of the output with exactly the words of the source (escaped characters as themselves, comments left out), each emphasis and link marked as the format requires (TEXT, TEXT-PLAIN, TEXT-ANSI, HTML in all flavours, MD), whatever the layout of the source. "
  "Text formats use lines of at most 79 columns, indented by the level of the block, splitting only words longer than a line; code keeps its lines; HTML nests lists by their levels, escapes & < >, completes the targets of local links by an extension, and has the title, encoding and included files in their places. "
  "It terminates on any text; an unfinished title, code or emphasis, a file it cannot open or an unknown format gives a message and a status other than 0.",
  ["inputs", "configurations"], "all documents, layouts, formats and HTML options, and arbitrary texts made of the markup",
  "none of them runs TEA but for the help pages built with it.",
  ["tea/src/Tea_Load.c", "tea/src/Tea_Node.c", "tea/src/Tea_Output.c", "tea/src/out/tea_text_out.c", "tea/src/out/tea_html_out.c", "tea/src/out/tea_md_out.c", "tea/src/out/tea_ansi_out.c"],
  [("blocks", "tea/src/Tea_Load.c"), ("inline markup", "tea/src/Tea_Node.c"), ("lines", "tea/src/Tea_Output.c"), ("formats", "tea/src/out")],
  "property-based testing: documents are generated as trees, written with random layout, and the output is parsed back; plus fuzzing with arbitrary markup",
  "escapes inside of code and of the targets of links, and an emphasis directly after an escaped brace are not generated; a leading blank on a continued line is not an error")

P("P31", "PBATIZE separates glued switches and changes nothing else",
  "PBATIZE copies a script (to the output file or to the standard output) putting a blank before each switch of an internal command which is glued to the command or to another of its switches, in any order, case and number, and leaves every other character as it is, except that a command and its switches may change to upper case. "
  "The result does under pbat what the original means, and converting it again changes nothing; a missing argument or a file it cannot open gives a message and a status other than 0.",
  ["programs"], "all scripts made of commands with glued and separated switches, and other lines",
  "none of them runs PBATIZE.",
  ["pbatize/pbatize.c", "pbatize/pairs.c"],
  [("pairs", "pbatize/pairs.c"), ("conversion", "pbatize/pbatize.c")],
  "property-based testing against the expected text, a behavioural check of the converted scripts, and idempotence",
  "switches with values (/A:H) and text of ECHO lines which looks like a glued switch are not generated")

P("P35", "No script, command line or input makes the programs crash",
  "Whatever the text of a script or command line (malformed, truncated, over-long, not UTF-8, with null bytes), the parameters, the input and the files read, the interpreter, DUMP, TEA and PBATIZE end or go on with an error message or a result; they never crash and never read or write memory they do not own. "
  "Only memory and stack used up by the script itself (endless recursion, values that double for ever) may end them.",
  ["inputs", "programs"], "all texts of scripts and command lines, all parameters, inputs and files",
  "well-formed scripts only.",
  ["pbat", "libpbat", "dump", "tea", "pbatize"],
  [("parsing and execution", "pbat/core"), ("commands", "pbat/command"), ("strings and lines", "libpbat/estr/pBat_Estr.c"), ("tools", "dump, tea, pbatize")],
  "fuzzing with random and mutated scripts (grammar soup, token mutation of the scripts of all the other checks) and with the generated cases of all other checks, run on a build with AddressSanitizer and bounds checks, whose file-changing calls are contained",
  "every case is stopped after 2 s; leaks are not reported; terminal input is not fuzzed", observe=("reports of AddressSanitizer and signals",))

P("P32", "Messages appear in the user's language, and only messages change with it",
  "Messages, help texts, prompts and the words accepted as answers are the translations in DIR/<language>/LC_MESSAGES/pbat.mo, where DIR is the folder last named by LOCALE (at first share/locale beside the program) and the language is that of the locale's message category (also if other categories differ, the locale has no territory, or is named the Windows way, like French_France); messages without translation, language or catalogue stay English. "
  "A damaged catalogue is ignored or yields wrong texts but does no other harm. "
  "Nothing but messages depends on the locale: in every language commands and variables are found, numbers keep the decimal point, and scripts have the same effects.",
  ["configurations", "inputs", "histories"], "all locales and mixtures of categories, all catalogues (also damaged), all sequences of LOCALE and messages",
  "they all run in one locale.",
  ["microgettext/microgettext.c", "pbat/command/pBat_Locale.c", "pbat/init/pBat_Init.c", "pbat/lang", "pbat/errors/pBat_Errors.c"],
  [("lookup", "microgettext/microgettext.c"), ("command", "pbat/command/pBat_Locale.c"), ("locale at start", "pbat/init/pBat_Init.c")],
  "model-based property testing of the catalogue library in process (AddressSanitizer, fault injection into catalogues) and of LOCALE in the interpreter with generated catalogues and locales; metamorphic: the cases of all other checks keep their outcome in other locales",
  "English and locale-independent system texts (reasons of errors) are not translated by the program; locales are those localedef makes here")

P("P42", "/? shows the help of the command and does nothing else",
  "Every internal command but REM, ECHO, PECHO and CHCP, given /? as its first parameter, and COPY, DEL, FIND, MORE, MOVE, RD, TYPE and WC also given /? after the names of existing files, prints a help text with its own usage to the error output (which can be redirected) and nothing to the standard output. "
  "It changes no file, variable, parameter, folder, scope or setting, is no error, and the script goes on with the next command.",
  ["programs"], "all commands with /? with all further parameters, inside all compound commands and redirections",
  "none of them uses /?.",
  ["pbat/lang/pBat_ShowHelp.c", "pbat/command"],
  [("texts", "pbat/lang/pBat_ShowHelp.c"), ("recognition", "pbat/command")],
  "model-based property testing of scripts made of requests for help, with observation of output, state and files",
  "the wording of the texts is not judged beyond the usage naming the command")

P("P45", "HELP builds the manual from its pages and shows exactly the page asked for",
  "HLP /B (and the first HLP or HELP) makes of every page of the manual of the language asked or configured, in whatever subfolder, its text, ANSI and HTML form, exactly as TEA makes them and in the configured charset, and forgets the pages that are gone. "
  "HELP with some text shows the page whose title holds it (in any case of letters) in the configured form by the configured command, offers a menu of all titles when several do and shows the one chosen, says that there is none when none does, and shows the list of commands without a text; /L lists the titles. "
  "The dialogue of the configuration writes exactly what was answered, asking again after wrong answers.",
  ["histories", "inputs", "configurations"], "all sets of pages, languages, configurations and histories of queries, builds and changes of pages",
  "none of them runs HLP.",
  ["scripts/hlp.bat", "tea/src/tea.c", "pbat/core/pBat_Run.c", "pbat/command/pBat_For.c"],
  [("script", "scripts/hlp.bat"), ("HELP", "scripts/pBat_Auto.in")],
  "model-based (stateful) property testing of histories of HLP commands on generated manuals; the pages are compared with those TEA makes when called directly",
  "names of pages have no blanks; HTML pages are shown by TYPE in place of a browser; ANSI pages are not shown by MORE, whose lines count the escape sequences")

P("P46", "The variables pBat provides and its startup scripts are what the manual says",
  "%DATE% and %TIME% give the moment of their expansion in the local time zone, %RANDOM% a number that changes at each expansion, %CD%, %ERRORLEVEL% and %=EXITCODEASCII% the current folder, error level and its character, by % and by !, in any case of letters, in substrings and replacements, and SET does not change them. "
  "%PBAT_PATH%, %PBAT_SHARE%, %PBAT_ETC%, %COMSPEC% and %PATH% follow the folder of the executable, %USERPROFILE%, %USERNAME%, %TMP% and the others describe the user and system, and %PBAT_IS_SCRIPT% tells scripts (and not what the prompt calls) from the prompt. "
  "The startup scripts %PBAT_ETC%/pBat_Auto.bat and %USERPROFILE%/.pbat/pBat_Auto.bat run in this order once whenever pbat is started, and not for pipes, FOR /F and scripts; the variables and procedures they define stay.",
  ["programs", "configurations"], "all folders, time zones, startup scripts and scripts referring to these variables",
  "none of them refers to these variables, and startup scripts are not used.",
  ["pbat/core/pBat_Var.c", "pbat/init/pBat_Init.c", "scripts/pBat_Auto.in", "pbat/pBat.c"],
  [("dynamic variables", "pbat/core/pBat_Var.c"), ("startup", "pbat/init/pBat_Init.c"), ("startup script", "scripts/pBat_Auto.in")],
  "model-based property testing of generated scripts, startup scripts, folders and time zones, with the real clock bracketing the times shown",
  "the distribution of %RANDOM% is not judged; centiseconds may be any; the locale of dates is C")

P("P33", "libpBat's strings, stacks, command lists and searches do what they say",
  "Strings (ESTR), stacks and command lists of libpBat hold exactly what any sequence of operations (copies, concatenations, replacements in either case, lines read from files; pushes and pops; map, add, replace, duplicate, remap) put there, whatever the order and the lengths of the texts, and a command is found by the longest name that begins the line and is followed by a delimiter where it needs one. "
  "Searches give the first or last character or token that is not escaped by '^' nor, for those 'out of quotes', between double quotes, wildcards match a name exactly when they can, and sizes, blanks and files are told as DIR, the parser and IF EXIST need. "
  "Nothing is read or written out of bounds, and threads with a mutex lose no update.",
  ["histories", "inputs"], "all sequences of operations of the library on all texts",
  "the library is exercised only through a few scripts.",
  ["libpbat/estr/pBat_Estr.c", "libpbat/cmdlist/pBat_CmdList.c", "libpbat/cmdlib/pBat_String.c", "libpbat/stack/pBat_Stack.c", "libpbat/dir/pBat_Dir.c", "libpbat/thread/pBat_Thread.c"],
  [("strings", "libpbat/estr/pBat_Estr.c"), ("command lists", "libpbat/cmdlist/pBat_CmdList.c"), ("searches", "libpbat/cmdlib/pBat_String.c"), ("wildcards", "libpbat/dir/pBat_Dir.c")],
  "model-based property testing: generated operation sequences run by a driver linked with libpBat.a under AddressSanitizer, and compared with reference models",
  "a string is not appended to itself; Windows line ends are not used on this system; patterns where * and ? are adjacent, or whose answer depends on backtracking, are not judged")

P("P34", "libcu8 gives Windows programs UTF-8 texts, names and arguments, losing nothing",
  "Through libcu8, a Windows program that works in UTF-8 writes any text to files in the file encoding that it chose (UTF-8, CP850, CP1252, GBK, CP932...), in text or binary mode, by any sequence of whole strings, formatted output or single bytes, also when a character comes in several pieces, and reads it back unchanged with fgets and fgetc of any sizes, the bytes of a character that did not fit coming next; files used side by side do not mix. "
  "libcu8_xconvert and libcu8_convert convert between UTF-8, UTF-16 and the file encoding whatever the length of the text and wherever it is cut, skip bytes that are no character, and keep an incomplete one for the next call. "
  "Opening, creating, renaming, removing, listing and describing files and folders, moving between folders and starting programs work with any Unicode names and arguments, and failures are reported as such.",
  ["inputs", "histories"], "all texts, encodings, ways to write and read them, and sequences of operations on names in Unicode",
  "the tests of libcu8 read and write a handful of fixed texts in one encoding.",
  ["libcu8/src/encoding.c", "libcu8/src/read.c", "libcu8/src/write.c", "libcu8/src/fdio.c", "libcu8/src/dir.c", "libcu8/src/dirent.c", "libcu8/src/spawn.c", "libcu8/src/init.c"],
  [("conversions", "libcu8/src/encoding.c"), ("reading", "libcu8/src/read.c"), ("writing", "libcu8/src/write.c"), ("files", "libcu8/src/fdio.c"), ("folders", "libcu8/src/dirent.c"), ("arguments", "libcu8/src/spawn.c")],
  "model-based property testing: generated operation sequences run by a driver linked with libcu8.a under wine, and compared with Python's codecs, a model of the files, and what Linux sees of them",
  "the console of Windows is left out, as are findfirst (which the header does not declare) and characters that the file encoding cannot represent; code pages are those of wine")

P("P47", "The interpreter built for Windows runs scripts as the one for Linux does",
  "Built for Windows (with libcu8), pbat gives the output, the errors and the exit status that the language asks for, apart from line ends, for scripts that use variables and their expansion, SET, SETLOCAL and ENDLOCAL, SET /A, IF and its expressions, FOR, FOR /L and FOR /F, chains and blocks, GOTO, CALL and EXIT, and DEF. "
  "Programs get there the arguments, the variables, the streams and the folder that the script gives them, and the script their output in order, their input and their exit code.",
  ["programs", "inputs"], "all scripts of these parts of the language, and all arguments, values of variables, redirections, pipes and exit codes of programs",
  "on Windows too, the tests run only five short scripts.",
  ["pbat/core/pBat_Exec.c", "pbat/core/pBat_Read.c", "pbat/core/pBat_Expand.c", "pbat/core/pBat_FilePath.c", "libpbat/libpBat.h", "pbat/init/pBat_Init.c"],
  [("interpreter", "pbat/core"), ("commands", "pbat/command"), ("functions that replace those of Linux", "libpbat")],
  "model-based property testing: the generators and the reference models of the checks of these parts, with the interpreter for Windows under wine",
  "numbers beyond 32 bits (the integers of C on Windows), programs of the system, paths, lists of the environment and the texts of help are left out; wine stands for Windows")

P("P36", "The line editor of a terminal edits, shows, completes and recalls lines exactly",
  "On a terminal, the line read by the prompt or SET /P is exactly what the keys typed make of it: characters (of any width, also combined) are inserted at the cursor, arrows, Home, End, Backspace, Delete and Ctrl-A B E F H D K U W T edit whole characters, Up and Down recall the last 99 lines, and unknown keys and bytes that are no character change nothing. "
  "Tab completes a file name before the cursor by what all matching names have in common, or lists them, leaving the rest of the line alone; at any moment the screen shows the prompt, the line folded at the width of the terminal, and the cursor in its place. "
  "On terminals that cannot be edited on (TERM=dumb), lines are read as the terminal gives them.",
  ["histories", "inputs"], "all sequences of keys over all lines of a session, with all widths of terminal and prompts, and the file names present",
  "none of them has a terminal.",
  ["pbat/linenoise/linenoise.c", "pbat/linenoise/utf8.c", "pbat/linenoise/pBat_LineNoise.c", "pbat/core/pBat_Completion.c"],
  [("editor", "pbat/linenoise/linenoise.c"), ("characters", "pbat/linenoise/utf8.c"), ("completion", "pbat/core/pBat_Completion.c"), ("SET /P", "pbat/command/pBat_Set.c")],
  "model-based (stateful) property testing of key sequences on a pseudo terminal, with an emulated screen",
  "Ctrl-C, Ctrl-L, keys typed ahead of the prompt and the layout of lists of names are left aside; names completed in quotes are those whose closing quote is typed; lines stay below five rows")

P("P38", "MOD loads modules and lists them; BATBOX draws and reads keys and clicks",
  "MOD loads a module once, from %PBAT_PATH%/modules or from an absolute path: from then on its commands run wherever commands can stand, in any case of letters, MOD /L lists it, and loading it again is error 61 unless /Q is given; a file that is missing or no module is an error that names it and changes nothing. "
  "BATBOX on a terminal performs all of its operations in order, with numbers given in any base or by a variable: /D and /A write, /G, /O and /N move the cursor, /C sets the colours, /H shows or hides the cursor, so that the screen shows exactly the drawing. "
  "/K and /L read exactly one key each (with _ only one that is there) into the variable named, or into the error level ending the command, /M and /Y report the place and button of a click or move, and the terminal gets its mode back.",
  ["programs", "histories"], "all scripts loading, listing and running modules, and all sequences of BATBOX operations with the keys and clicks typed at them",
  "none of them loads a module.",
  ["pbat/command/pBat_Mod.c", "modules/batbox/batbox.c", "modules/lib/pBat_Module.c", "libpbat/console"],
  [("modules", "pbat/command/pBat_Mod.c"), ("drawing", "modules/batbox/batbox.c"), ("keys and clicks", "libpbat/console/pBat_Console.c"), ("terminal", "libpbat/console/pBat_ConsoleANSI.c")],
  "model-based (stateful) property testing on a pseudo terminal, with an emulated screen in colour",
  "double clicks and keys without a character given to /L are left aside; BATBOX without a terminal is not run")

P("P43", "COLOR, CLS, TITLE and the colours of prompts and errors paint the terminal",
  "On a terminal, COLOR with one or two digits or . sets the text colour and the background (one digit and . keep the current one, no code restores the default of the terminal) and clears the screen, CLS clears it in the current colours, TITLE sets the title, $X in the prompt changes colours on the way, and errors are shown in bright red on the current background, after which the colours of COLOR are back: every cell of every screen has exactly the text and colours that follow. "
  "A code that is malformed, or gives the same colour twice, is refused with an error and changes nothing. "
  "What is no terminal gets the texts alone, without any control sequence.",
  ["programs", "histories"], "all scripts of colour changes, clearings, titles, prompts, errors and texts, on terminals of all sizes",
  "none of them has a terminal.",
  ["pbat/command/pBat_Color.c", "pbat/command/pBat_Cls.c", "pbat/command/pBat_Title.c", "pbat/core/pBat_Prompt.c", "libpbat/console/pBat_ConsoleANSI.c"],
  [("codes", "pbat/command/pBat_Color.c"), ("sequences", "libpbat/console/pBat_ConsoleANSI.c"), ("prompts", "pbat/core/pBat_Prompt.c"), ("errors", "pbat/errors/pBat_Errors.c")],
  "model-based property testing on a pseudo terminal: an emulated screen in colour against the painting of a reference model",
  "COLOR with redirected output is left aside; wordings of errors come from the program itself, run without a terminal")

P("P44", "PAUSE, TIMEOUT and MORE take the keys they need and leave the terminal alone",
  "On a terminal, PAUSE waits for one key (an arrow or function key counts as one) and takes no other, keys typed ahead included; TIMEOUT waits for its time, which a key cuts short unless /NOBREAK is given, or for a key with -1; from a pipe or file, PAUSE and SET /P take one byte and one line, and what follows stays for the next command, also when it is the script itself that is read from the standard input. "
  "MORE shows 23 lines of its files or input, then for each answer what it stands for: Enter a page, space a line, Pn n lines, Sn a page after skipping n lines, F the next file, ? the help, Q nothing more, with /C each page on a clear screen; no line is lost or shown twice and its question does not stay on the screen. "
  "Line input and echo of the terminal are set as they were whenever a program is started and at the end.",
  ["histories", "inputs", "programs"], "all scripts of PAUSE, SET /P, TIMEOUT and external programs with all keys; all files, options and sequences of answers to MORE",
  "none of them has a terminal.",
  ["pbat/command/pBat_Pause.c", "pbat/command/pBat_Timeout.c", "pbat/command/pBat_More.c", "libpbat/console/pBat_Console.c"],
  [("keys", "libpbat/console/pBat_Console.c"), ("pages", "pbat/command/pBat_More.c"), ("lines from pipes", "pbat/command/pBat_Set.c"), ("TIMEOUT", "pbat/command/pBat_Timeout.c")],
  "model-based (stateful) property testing of key sequences on a pseudo terminal, and of input from pipes",
  "a key that ends TIMEOUT stays to be read; the question of MORE after the last line is allowed but not demanded; = of MORE is not implemented")
