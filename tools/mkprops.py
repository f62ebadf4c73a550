#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable).
import json,os
I='CppLisp/CppLispInterpreter/'; D='CppLisp/CppLispDebugger/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("P01","Independent sessions in one process never influence each other",
"Script sessions that live in the same process are independent however their evaluations interleave, each on its own thread or one after the other: every session produces exactly the results, printed output, trace text, error reports, definitions, macros, imported modules and console input consumption that it produces when it runs alone. This includes interleavings in the middle of a function call, of an assignment, of an import and of a failing evaluation.",
["schedules","programs"],
"For every set of sessions, every script each of them evaluates and every interleaving of their steps (switch points: every function call, allocation, file, clock and console operation).",
"The unit tests run one evaluation at a time and never have two live sessions; state that is accidentally shared (a static, a global cache, a mutable singleton) cannot show.",
[I+"Lisp.cpp",I+"Scope.cpp",I+"Environment.cpp",I+"Interpreter.cpp",I+"Tokenizer.cpp",I+"Variant.cpp",I+"csobject.cpp"],
[("every evaluation works on a scope tree of its own","Lisp::Eval / LispEnvironment::CreateDefaultScope"),("modes (l-value, return, eval) are kept per scope","LispScope")],
["values, output and errors returned by evaluation"])

p("P02","A failed evaluation leaves the session usable and otherwise unchanged",
"When an evaluation in a long-lived session is cut short at any point (a script error, a failing allocation, a debugger stop), every effect completed before that point is kept and nothing else of the session changes. Every later evaluation in that session then behaves exactly as in a session that executed only those completed effects: no mode, module name, output redirection or return state of the failed evaluation survives it.",
["histories","fault_sequences","crash_points"],
"For every history of evaluations in one session and every point at which any of them is cut short.",
"Tests evaluate a fresh session once and look at one result; none continues a session after a failure, and none fails at a chosen point inside an evaluation.",
[I+"Environment.cpp",I+"Interpreter.cpp",I+"Scope.cpp",I+"Lisp.cpp"],
[("modes of a scope are set and restored around nested evaluations","setf_form, RValue, EvalStrFcn, DumpDocumentation"),("scope stack push/pop around calls and imports","fn_form, Import")],
["output and results of evaluations after the failure"],
[("NeedsLValue/IsInReturn/IsInEval/ModuleName","modes of a scope","LispScope")])

p("P03","Faults surface as error values and never take down the host",
"The safe evaluation entry point and the command line runner turn every script error, failed file or console operation and failed allocation (with memory available again when it is reported), at whatever point it occurs, into a reported error: no exception escapes, the process neither crashes nor hangs, a result object is always returned, and every file that was opened is closed again. The next evaluation in the same process works normally.",
["fault_sequences","crash_points","programs"],
"For every script, and every allocation, file or console operation inside its evaluation that fails, alone or in combination.",
"Tests cover a handful of wrong scripts without any failing system call or allocation, and a crash would only end the test program.",
[I+"Lisp.cpp",I+"fuel.cpp",I+"Environment.cpp",I+"csobject.cpp",I+"cstypes.h",I+"Interpreter.cpp"],
[("exceptions are filtered at the safe entry point","Lisp::SaveEval"),("argument checks in builtins","CheckArgs and friends"),("file streams close on unwinding","ReadFileOrEmptyString, WriteTextFile")],
["return value of the safe entry point, process status, open descriptors"])

p("P04","A file write reported as successful is completely in the file",
"Writing a text file from a script reports success only if the operating system accepted the complete content without error, whatever short writes, interrupted calls, full disks or device errors occur; otherwise it reports failure. A write that reported success has exactly the given content afterwards, also when the process dies at any later point, and no write ever touches another file.",
["fault_sequences","crash_points","histories"],
"For every history of writes (any content and size), every disk behaviour and every point of process death.",
"Tests write one small file to a healthy disk; short writes, full disks, errors reported only on close and process death never occur.",
[I+"Environment.cpp"],
[("stream state is examined after writing","WriteTextFile / FileWriteAllText")],
["value returned by the write builtin, bytes of the file"])

p("P05","A file read delivers exactly the file content or an error",
"Reading a text file from a script delivers exactly the bytes of the file, independent of how the operating system chunks, delays or interrupts the read; if the file exists but cannot be read to its end, the script gets an error and never truncated or invented content. A missing file reads as empty text, and the existence test answers true exactly when the file can be opened.",
["fault_sequences","inputs","histories"],
"For every file content and size, every chunking of reads, every interruption and every position of a read or open error.",
"Tests read one small file in one piece; no read is ever short, interrupted or failing.",
[I+"Environment.cpp"],
[("whole-file read through a stream","ReadFileOrEmptyString / FileReadAllText"),("existence test by opening","File_Exists")],
["value returned by the read and existence builtins"])

p("P06","Importing a module is all-or-nothing, retryable, and finds the right file",
"Importing evaluates the first existing candidate of the search order (the name as given, the configured library path, ./Library, ./lib/fuel, the FUELPATH directory) and makes the module's definitions visible only when its evaluation completed: after an import cut short by a script error, read error or failed allocation at any point, none of the module's own (non-global) definitions is visible, and a later import of the repaired or readable module behaves as if the failure had never happened. A module that is found nowhere yields a warning and the importing script continues.",
["fault_sequences","configurations","histories"],
"For every layout of module files over the search path, every module body, every position of a failure in reading or evaluating it and every later retry.",
"Tests import one healthy standard library from one place and never fail or retry an import.",
[I+"Environment.cpp",I+"Scope.cpp"],
[("module evaluated in a scope of its own and registered after success","Import"),("lookup through registered modules","FindFunctionInModules")],
["values and errors of scripts that use module functions"],
[("Modules","registered module scopes","global scope")])

p("P07","The debugger never changes what the program does",
"A program run to completion under the debugger, with any sequence of breakpoints, stops, single steps, stack moves, listings and other inspections, prints the same output, performs the same file operations in the same order and ends with the same result or error as the same program without debugger. Stopping the debugger early leaves a prefix of that behaviour.",
["schedules","programs","histories"],
"For every program and every schedule of debugger commands at every stop.",
"Tests script a few debugger sessions on fixed programs and look at the debugger's own output, not at equivalence with the undebugged run.",
[D+"Debugger.cpp",I+"Interpreter.cpp",I+"Scope.cpp"],
[("the evaluator consults the debugger before each call","LispInterpreter::EvalAst"),("commands operate on scopes read-only","LispDebugger::InteractiveLoop")],
["program output, files, final result"])

p("P08","Steps and breakpoints stop exactly where they promise",
"A single step stops before the next function call that is evaluated, a step over before the next one that is not deeper in the call stack, a step out before the next one that is less deep, and a run before the next one on a line that carries a breakpoint for that module whose condition (if any) holds; nothing else stops. Every stop reports the function, line, source range and module of the call that is about to be executed, and breakpoints set, replaced, listed and cleared by number behave as one list.",
["schedules","programs","histories"],
"For every program (recursion, imports, loops, evaluated text) and every sequence of control commands and breakpoint changes.",
"Tests follow a few fixed command sequences; the stop rule has to hold at every event of every execution.",
[D+"Debugger.cpp",D+"Debugger.h",I+"Interpreter.cpp",I+"Tokenizer.cpp"],
[("stop decision per call event","LispDebugger::NeedsBreak / DoStep / DoStepOver / DoStepOut / DoRun"),("breakpoint list","AddBreakpoint, ClearBreakpoint, HitsBreakpoint")],
["stop lines printed by the debugger"],
[("IsProgramStop, IsStopStepFcn, Breakpoints","pending step mode and breakpoints","LispDebugger")])

p("P09","Interactive loops follow their input and end when it ends",
"The interactive shell and the debugger process every input line exactly once and in order, however the input is chunked, and every loop and prompt ends within a bounded number of steps once the input has ended, whatever commands came before and whatever the debugged program does (including failing scripts). Nothing is re-executed or printed endlessly.",
["histories","schedules","fault_sequences"],
"For every sequence of commands, every chunking, every position at which the input ends or fails, and every debugged program.",
"Tests feed complete, well-formed command scripts that end in an exit command; an endless loop would only hang the suite.",
[D+"Debugger.cpp",I+"cstypes.cpp",I+"fuel.cpp"],
[("empty line or end of input leaves the loop","LispDebugger::InteractiveLoop"),("restart loop","LispDebugger::DebuggerLoop"),("confirmation prompt","ClearBreakpoints")],
["termination, transcript of the interactive loop"])

p("P10","Time reported to scripts is right under any clock behaviour",
"Differences of the tick counter and the measured execution time equal the real time that passed, also when the wall clock is set forward or back meanwhile; a sleep returns no earlier than requested even if it is interrupted; the date-time builtin returns calendar year, month (1-12), day, hour, minute and second of one single instant of local wall clock time.",
["schedules","fault_sequences","histories"],
"For every sequence of time operations, every clock rate and step, every time zone offset, and every interruption of a sleep.",
"Tests only check that the time builtins return something; real clocks do not jump or get interrupted on demand.",
[I+"Environment.cpp",I+"fuel.cpp"],
[("tick counter","GetTickCount / CurrentTickCount"),("sleep","_Sleep"),("calendar conversion","Datetime")],
["values returned by the time builtins, simulated time that passed"])

p("P11","Console input and output are delivered completely, once and in order",
"Text printed by a script reaches the session's captured output and the console completely, once and in program order, also when the console stalls or fails in between (a failing console never loses captured output, changes results or stops the script); the trace buffer holds exactly what was printed by top-level statements while tracing was on. Every input line reaches exactly one read, in order, however the input is chunked, and reads after the end of input deliver empty text.",
["schedules","fault_sequences","histories"],
"For every sequence of prints, flushes, traces and reads and every behaviour of the console streams.",
"Tests print a few lines to a healthy console and read prepared text.",
[I+"cstypes.cpp",I+"Environment.cpp"],
[("writer copies text to capture buffer and console","TextWriter"),("reader","TextReader"),("trace buffer","GetStringRepresentation, TracePrint, GetTracePrint")],
["captured output, console bytes, values returned by readline and gettrace"])

p("P12","Mutable data follows one sequential model and failing operations change nothing",
"Variables, lists, dictionaries and closures behave over any history of operations as one simple sequential model in which lists and dictionaries are shared through every alias (variable, function argument, closure, list element, dictionary value) and scalars are copied. An operation that fails (bad index, wrong type, unknown name) raises an error and leaves all of them as they were; one that is cut short by a failed allocation has taken effect completely or not at all.",
["histories","fault_sequences","crash_points"],
"For every history of definitions, assignments, element assignments, insertions, removals and calls over aliased data, and every failure inside one operation.",
"Tests check single operations on fresh values; aliasing and failure atomicity need long histories and failures at chosen allocations.",
[I+"Environment.cpp",I+"Scope.cpp",I+"Variant.cpp",I+"csobject.cpp",I+"cstypes.h"],
[("element assignment through l-values","First/Last/Nth + setf_form"),("list and dictionary operations","Push, Pop, DictSet, DictRemove ..."),("variable lookup order","LispScope::ResolveInScopes / SetInScopes")],
["printed values of all variables after every step"])

p("P13","Evaluation is reproducible from its inputs alone",
"The same scripts with the same console input, files and clock produce the same results, output, error reports and file contents on every run: nothing depends on memory addresses, on stale contents of reused memory, on the order of allocations or on what the process evaluated before.",
["schedules","programs","configurations"],
"For every program and every memory layout, content of fresh and recycled memory, and history of the process.",
"A test run has one memory layout; a field that is never initialised mostly reads as zero there.",
[I+"Scope.cpp",I+"Scope.h",I+"Variant.h",I+"csobject.h",I+"Token.h",D+"Debugger.cpp"],
[("constructors initialise every field","LispScope, LispVariant, LispToken, LispDebugger"),("ordered containers keyed by value","Dictionary")],
["complete transcript of a run"])

p("P14","Scripts of one command line run in order and independently",
"The scripts given on one command line are executed in the given order, each in a fresh session, and a script that fails, is missing or cannot be read neither stops nor alters the others: each produces the output it produces when it is the only script. Errors are reported on the output at the position of the failing script.",
["fault_sequences","configurations","programs"],
"For every list of scripts, every option combination and every failure while reading or running any of them.",
"Tests run single scripts or fixed pairs without failures.",
[I+"fuel.cpp",I+"Lisp.cpp"],
[("loop over script files","Fuel::MainExtended"),("fresh scope per script","Lisp::SaveEval")],
["captured output of the runner"])

p("P15","Values, modes and scopes survive nested and re-entrant evaluation",
"Nested evaluations (evaluated text, evaluated lists, applied and mapped functions, functions of imported modules, macros, breakpoint conditions and text typed at a debugger stop) run inside the calling evaluation without disturbing it: when they return or fail, the caller continues with its own variables, current module, call stack and return state. A return leaves exactly the function that executes it.",
["histories","programs","fault_sequences"],
"For every nesting of evaluation forms and every place at which a nested evaluation returns early or fails.",
"Tests nest one or two forms and look at the final value only.",
[I+"Environment.cpp",I+"Interpreter.cpp",I+"Lisp.cpp",D+"Debugger.cpp"],
[("scope per call with closure chain","fn_form"),("module name and eval mode restored","EvalStrFcn"),("return flag per scope","Return, do_form, while_form")],
["output of the caller after the nested evaluation"])

# ---- pure functions / other languages: stated for completeness, not decided by simulation
NA=[]
def n(id,title,statement,over,text,why,files,mech):
    p(id,title,statement,over,text,why,files,mech); NA.append(id)
n("N01","Source positions and tokens are exact for every program text",
"Tokenizing any text yields tokens whose line and character range select exactly the token's text, and parsing accepts exactly the balanced programs; comments, strings with escapes and quotes never change the tokens around them.",
["inputs"],"For every program text.","Tests tokenise a few dozen fixed strings.",
[I+"Tokenizer.cpp",I+"Parser.cpp",I+"Token.cpp"],[("tokenizer","LispTokenizer::Tokenize"),("parser","LispParser::Parse")])
n("N02","Arithmetic, comparison and conversion follow the documented semantics",
"Arithmetic on integers, floating point numbers and strings, comparisons and type conversions give the documented value for every combination of argument types, or a script error, never undefined behaviour.",
["inputs"],"For every combination of argument values and types.","Tests sample a few values per operator.",
[I+"Variant.cpp",I+"Environment.cpp"],[("operators","LispVariant operators")])
n("N03","String builtins are right for all inputs",
"Searching, slicing, replacing, trimming, case conversion, formatting and reversing of text give the documented result for every text, position and length, including empty text and positions outside it.",
["inputs"],"For every text and position.","Tests sample a few strings.",
[I+"csstring.cpp",I+"Environment.cpp"],[("string class","csstring")])
n("N04","Macro expansion equals substitution",
"Expanding run-time and compile-time macros, nested or recursive, yields the same program as textual substitution of the arguments, and quasi-quotation inserts exactly the evaluated parts.",
["programs"],"For every macro definition and use.","Tests expand a fixed set of macros.",
[I+"Interpreter.cpp",I+"Environment.cpp"],[("expansion","LispInterpreter::ExpandMacros"),("quasi-quotation","quasiquote_form")])
n("N05","Logical forms evaluate left to right and stop at the deciding operand",
"The logical and/or forms and the conditional evaluate operands left to right, evaluate none after the deciding one, and return the logical value of all operands.",
["programs"],"For every sequence of operands.","Tests evaluate a few constant operand lists.",
[I+"Environment.cpp"],[("short circuit","bool_operation_form, if_form")])
n("N06","Printed data reads back as the same data",
"The textual representation of any list, text, number, truth value or nested combination evaluates (quoted) to an equal value.",
["inputs"],"For every data value.","Tests print fixed values.",
[I+"Variant.cpp",I+"csobject.cpp",I+"Parser.cpp"],[("printing","LispVariant::ToString")])
n("N07","Every builtin is documented with its right signature",
"The documentation listings in text and HTML name every builtin and every documented script function exactly once with its signature.",
["programs"],"For every set of defined functions.","Tests look for a few names.",
[I+"Environment.cpp",I+"Scope.cpp",I+"cstypes.cpp"],[("documentation dump","DumpBuiltinFunctionsHelp...")])
n("N08","The C#, C++ and Haxe implementations agree",
"The same program gives the same output and result in the C#, C++ and Haxe implementations wherever they implement the same builtins.",
["programs"],"For every program.","Each implementation has its own tests.",
["CsLisp/CsLispInterpreter/LispEnvironment.cs","HaxeLisp/src/LispEnvironment.hx",I+"Environment.cpp"],[("parallel implementations","LispEnvironment in each language")])
n("N09","Compiled programs behave like interpreted ones",
"A program translated by the compiler of the C# implementation behaves like the same program when interpreted.",
["programs"],"For every program.","Tests compile a few programs.",
["CsLisp/CsLispCompiler/LispCompiler.cs"],[("translation","LispCompiler")])
n("N10","The standard library keeps its contracts",
"The wrappers of the standard library for files, mathematics, dictionaries, lists and text behave as their documentation says on the native C++ platform.",
["inputs"],"For every argument.","Tests call a part of the library.",
["Library/fuellib.fuel"],[("wrappers","fuellib")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
