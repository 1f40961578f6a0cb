import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PARSE=["expressions.go","parser_stmt.go","parser_decls.go","irbuilder.go","lexer.go"]
p("C01","A compiled program behaves exactly as the B language defines",
 "For every well-formed B program whose meaning does not depend on undefined behaviour, and for every environment it runs in (input bytes, when input ends, how much each read or write transfers), the compiled program performs the same sequence of reads, outputs on each stream and final exit as the B language definition prescribes on 64-bit two's-complement words. This covers every operator, precedence and associativity, lvalues, pointers and vectors, initialised globals, strings, direct, recursive and indirect calls, and all control flow including goto and switch fall-through.",
 ["programs","inputs","fault_sequences"],"all well-defined programs over the implemented language, all standard-input contents, and all legal kernel behaviours for read and write",
 "The tests compile a few dozen fixed programs with at most a handful of constructs each and compare fixed stdout; interactions of precedence, control flow, storage and I/O timing are combinatorial.",
 PARSE+["runtime/"],
 [("precedence-climbing expression code generation","expressions.go parseExpressionWithLevel/parseUnary/parsePostfix/parsePrimary"),("statement and control-flow lowering","parser_stmt.go"),("storage layout of globals, vectors and locals","irbuilder.go DeclareGlobal*, DeclareLocal*"),("character, string, number and escape decoding","lexer.go")],
 ["system calls of the compiled program","exit status"])
p("C02","Optimisation, debug info and build stages never change behaviour",
 "For every well-defined program and environment, the observable behaviour of the executable is the same at -O0, -O1, -O2 and -O3, with or without -g, and whether it was built in one step or through separately requested LLVM IR, assembly or object files that blang was then given back.",
 ["programs","configurations","inputs"],"all well-defined programs, all optimisation/debug combinations, all staged build routes, all environments",
 "Tests compare one or two fixed programs at some levels; undefined behaviour in the emitted IR or a calling-convention slip only shows when a particular program meets a particular optimisation.",
 PARSE+["driver.go","runtime/start.c"],
 [("emitted IR avoids LLVM undefined behaviour","irbuilder.go, expressions.go"),("flag forwarding per stage","driver.go buildClangArgs, compileToExecutable")],
 ["system calls and exit status of the executables built by each route"])
p("C03","Separate compilation is transparent",
 "Dividing a program's functions and external variables among any number of source files in any order, with extrn declarations where a file uses what another defines, and building the files in one command or separately and linking their .b, .ll, .s, .o or .a forms in any mixture, yields an executable that behaves exactly as the same program in a single file. Each external variable is one shared cell or vector initialised as its definition says, including the runtime's own variables such as fout.",
 ["programs","configurations"],"all partitions of all well-formed programs into files, all orders, all mixtures of intermediate forms",
 "The tests link at most two small fixed files; which file defines, which declares, and in which order decides whether storage is shared.",
 ["irbuilder.go","parser_stmt.go","parser_decls.go","driver.go"],
 [("extrn lowering to module-level symbols","parser_stmt.go parseExtrn"),("symbol naming with the b. prefix","irbuilder.go globalName"),("auto-declaration of undefined functions","irbuilder.go GetOrDeclareFunction"),("link step for mixed inputs","driver.go compileToExecutable")],
 ["link status","behaviour of the linked executable"])
p("C04","Output reaches its stream exactly once, in order and unbuffered",
 "Every byte a program prints with write, writeb, printf, printd or printo is delivered to the stream selected by fout (0 standard output, 1 standard error) exactly once, in program order, and before the printing call returns, however the kernel splits the transfers. If a stream starts failing permanently, exactly the bytes before the failure are delivered, the other stream is unaffected and the program still runs to its end.",
 ["fault_sequences","inputs","programs"],"all output sequences, all word values formatted, all patterns of partial writes and all points of permanent failure on either stream",
 "The tests write small strings to a pipe that always accepts everything; partial writes, full disks and broken pipes never occur in them.",
 ["runtime/write.c","runtime/writeb.c","runtime/printf.c","runtime/printd.c","runtime/printo.c"],
 [("direct system calls per item","runtime/write.c, writeb.c, nwrite.c"),("digit and format generation","runtime/printd.c, printo.c, printf.c")],
 ["write system calls: descriptor, bytes, accepted count"],
 [("fout","selects the stream for every printing function","runtime/writeb.c")])
p("C05","read() consumes standard input one byte at a time and reports its end",
 "Successive read() calls return successive bytes of standard input in order without losing, repeating or consuming ahead of the byte returned, so that nread on descriptor 0 continues exactly where read() stopped. A byte outside 1..127 is returned as 0, and at end of input or on an input error read() returns 4, every time it is called again until data is available.",
 ["inputs","fault_sequences","histories"],"all byte streams, all interleavings of read and nread, all positions of end-of-file and of transient or permanent input errors",
 "Tests feed short ASCII strings through a pipe; they never place an error, a NUL or a high byte, or a raw read between character reads.",
 ["runtime/read.c","runtime/nread.c"],
 [("one-byte read system call","runtime/read.c b_read")],
 ["read system calls and the values the program computes from them"])
p("C06","nread and nwrite are exact single-attempt system calls",
 "nread(fd, buf, n) and nwrite(fd, buf, n) make exactly one transfer attempt on exactly that descriptor, buffer and count, touch no memory beyond the bytes transferred, and return the kernel's count, or its negative error, unchanged.",
 ["inputs","fault_sequences"],"all descriptors, buffers, counts, and all kernel results: full, partial, zero and every error",
 "The tests check one successful nwrite and one nread; partial counts and errors never occur.",
 ["runtime/nread.c","runtime/nwrite.c","runtime/x86_64.h"],
 [("argument pass-through to the system call","runtime/nread.c, nwrite.c, x86_64.h")],
 ["arguments and results of system calls; memory of the program"])
p("C07","A program ends exactly when and how it says, and does nothing else",
 "A program ends when exit() is called, with status 0, or when main returns, with the low eight bits of main's value (0 if main falls off its end or returns without a value); everything executed before has taken effect, nothing is executed after, and no input, end-of-file or I/O failure makes it crash or hang. A program interacts with the system only through the reads, writes and the single exit it asked for.",
 ["programs","histories","fault_sequences"],"all programs, all paths by which they end (nested calls, loops, dead code after return), all environments",
 "Tests observe a few exit codes; they cannot see stray system calls, statements executed after a return, or behaviour when I/O fails just before the end.",
 ["runtime/start.c","runtime/exit.c","parser_stmt.go","irbuilder.go"],
 [("entry point","runtime/start.c b_start"),("return lowering","parser_stmt.go parseReturn, irbuilder.go EndFunction"),("exit","runtime/exit.c")],
 ["complete system-call trace of the program"])
p("C08","Stack use is bounded by call depth, not by running time",
 "However many iterations a loop makes, whether by while or by goto, and however often control passes over an auto declaration, string, vector or call, the memory a program uses depends only on the functions currently active. A program that runs for any number of steps at bounded call depth never exhausts its stack.",
 ["histories","programs","inputs"],"all loops, all iteration counts, all placements of declarations inside loops, all input lengths",
 "The tests loop a few times; per-iteration leakage of a few bytes needs very long histories to show.",
 ["irbuilder.go","parser_stmt.go"],
 [("placement of stack allocations","irbuilder.go DeclareLocal, DeclareLocalArray, StartFunction")],
 ["stack pointer at system calls","termination under a small stack"])
p("C09","Every activation gets its own parameters and fresh locals",
 "Each call binds the arguments to the parameters by position for any number of parameters, ignoring extra arguments, and gives that activation its own scalars initialised to zero and its own vectors, unaffected by other activations of the same or other functions, direct, mutual or indirect, and independent of whatever the stack, registers or uninitialised memory held before.",
 ["programs","histories","inputs"],"all call graphs and recursion depths, all parameter counts, all prior contents of stack and registers",
 "Tests make a few calls on a fresh process whose stack happens to be zero; leftovers from earlier calls and many-parameter, recursive and indirect combinations are not reached.",
 ["irbuilder.go","expressions.go"],
 [("variadic parameter unpacking","irbuilder.go StartFunction, DeclareFunction"),("call lowering","expressions.go parsePostfix"),("zero initialisation of locals","irbuilder.go DeclareLocal")],
 ["outputs of the program when started with arbitrary stack and register contents"])
D=["driver.go","main.go"]
p("C10","The compiler's exit status tells the truth",
 "Under any sequence of file-system errors, full disks and tool failures, blang exits 0 only if every output the command line asked for exists with exactly the content a fault-free run gives; otherwise it exits nonzero and prints a diagnostic beginning 'blang: error:' on standard error. A fault-free run on valid input exits 0.",
 ["fault_sequences","configurations","inputs"],"all output modes, option combinations and input sets; every file operation and tool invocation failing in every way",
 "Tests never make a write, close, read or tool run fail in the middle; ignoring one error return passes all of them.",
 D+["lexer.go","parser_decls.go","parser_stmt.go","expressions.go"],
 [("error propagation through the driver","driver.go Compile*, main.go main"),("error propagation through lexer and parser","lexer.go, parser_*.go, expressions.go")],
 ["exit status","stderr","file system after the run"])
p("C11","A failed run leaves no torn output",
 "When blang exits with a failure, no file it was asked to produce is left truncated, partial or mixed: each is either absent, complete and correct, or exactly as it was before the run.",
 ["fault_sequences","inputs","configurations"],"every failing file operation, every failing tool run, every defective source, with and without a pre-existing output",
 "Tests check that errors are reported, not what is left on disk when a write or close fails half-way.",
 D,[("parse completely before creating the output","driver.go compileToIR"),("handling of write and close errors","driver.go compileToIR")],
 ["file system after a failing run"])
p("C12","Intermediate files are removed, or kept exactly as documented",
 "After any run that was not killed, successful or failing, no intermediate file remains unless --save-temps was given. With --save-temps a successful run leaves each intermediate LLVM IR file, complete, under its documented name: <output>.tmp.ll for a single source, <basename>.tmp.<index>.ll for each .b source when several inputs are linked.",
 ["fault_sequences","configurations","inputs"],"all modes and input sets, failures at every step of the run, with and without --save-temps",
 "Tests look for leftovers after a few successful runs only; clean-up on each failure path is untested.",
 D,[("temporary naming and clean-up","driver.go compileToAssembly, compileToObject, compileToExecutable")],
 ["file system after the run"])
p("C13","blang touches only its own outputs",
 "No run of blang, successful, failing or killed, ever creates, modifies, truncates, renames or deletes any file other than the outputs requested on its command line and its own intermediate files; in particular its input files and the files of other runs keep their content.",
 ["fault_sequences","crash_points","configurations"],"all command lines, all faults, all kill points, any population of other files in the working, source and output directories",
 "Tests check the presence of expected files, never that all others are unchanged, and never under failures.",
 D,[("derivation of output and temporary names","driver.go"),("clean-up only of own temporaries","driver.go")],
 ["every mutating file operation","file system before and after"])
p("C14","Concurrent invocations do not interfere",
 "Any number of blang processes running at the same time in the same directory, on the same or different sources and with different output files, each finish with the same status and outputs as if run alone, for every interleaving of their file operations and tool runs, as happens under a parallel make.",
 ["schedules","configurations"],"all interleavings of the file and process operations of two or more invocations with distinct outputs",
 "Tests run one invocation at a time in private directories.",
 D,[("intermediate file naming","driver.go compileToExecutable tmp names"),("private state per invocation","driver.go")],
 ["status and outputs of each process under a chosen interleaving"])
p("C15","Killing and re-running blang converges",
 "If blang is killed at any point and the same command is run again to completion, the result - exit status, outputs and remaining files - is the same as if the first run had never happened, apart from outputs the killed run had already completed; leftovers of a killed run are never mistaken for input or output.",
 ["crash_points","histories","configurations"],"every kill point in every run of every mode, repeated kills, followed by a complete run",
 "Tests never interrupt the compiler.",
 D,[("outputs and temporaries are recreated from scratch","driver.go os.Create, fixed temporary names")],
 ["file system and status after the completing run"])
p("C16","The compiled source is the whole source, however it is delivered",
 "The result of compiling depends only on the bytes of the source file, not on how the operating system delivers them; if reading the source fails at any point, blang fails, and never succeeds with output for a truncated or altered program.",
 ["fault_sequences","inputs"],"all sources, all partitions of the byte stream into reads, read errors at every offset and with every error kind",
 "Tests read small complete files in which every read succeeds.",
 ["lexer.go","parser_decls.go","parser_stmt.go","expressions.go","driver.go"],
 [("byte delivery to the lexer","lexer.go runeReaderAdapter, ReadChar"),("distinguishing end of file from read errors","lexer.go, parser_*.go, expressions.go")],
 ["exit status and output under each delivery"])
p("C17","Compilation is reproducible",
 "The same source bytes always give byte-identical LLVM IR: independent of run-to-run variation such as map iteration order and memory addresses, of file name and working directory, of environment, verbosity, optimisation level and requested output kind, and of whatever else is compiled in the same command or at the same time.",
 ["schedules","configurations","histories"],"all sources; all iteration orders, directories, option sets, companions and repetitions",
 "A test run uses one arbitrary iteration order and one directory; a dependence on either shows only in other runs.",
 ["irbuilder.go","driver.go","parser_stmt.go"],
 [("a fresh compiler per unit","driver.go compileToIR"),("counters instead of addresses or map order for names","irbuilder.go")],
 ["bytes of the generated IR"])
p("C18","Damaged sources never crash, hang or yield invalid code",
 "For any bytes whatever presented as a source - in particular a valid source truncated, or with bytes lost, duplicated, flipped or spliced at any position - blang terminates promptly without an internal crash, either rejecting it with a 'blang: error:' diagnostic and failure status, or accepting it and producing a module that LLVM's verifier accepts.",
 ["inputs","fault_sequences"],"all byte strings, biased to damaged versions of valid sources",
 "The tests try about thirty hand-written erroneous snippets.",
 PARSE+["driver.go"],
 [("diagnostics in the parser","parser_*.go, expressions.go"),("well-formed blocks and types in generated IR","irbuilder.go, parser_stmt.go")],
 ["exit status, stderr, LLVM verifier result"])
p("C19","The toolchain is driven exactly as the command line says",
 "For each output, blang runs clang exactly as the options ask, wherever the options are placed on the command line: assembling or compiling without linking, or linking statically without the system libraries, all inputs in the order given; with the requested optimisation level and debug flag and no other; with the default library directories that exist followed by each -L directory in order, then the B runtime library, then each -l library in order. IR mode never runs it, and any failure of it (missing, error status, killed) makes blang fail.",
 ["configurations","fault_sequences"],"all combinations and placements of options and inputs, default directories present or absent, every tool outcome",
 "Tests try about twenty option combinations on success paths and cannot see what the tool was asked to do.",
 D+["options.go"],
 [("clang argument construction","driver.go buildClangArgs, compileToExecutable"),("option parsing and defaults","main.go main")],
 ["argument vectors of simulated clang processes"])
p("C20","Inputs named together are compiled as if alone",
 "Compiling several sources in one command gives, for each of them, the same output as compiling it by itself, in whatever order they are listed and whatever the others contain; outputs land in the current directory under the source's base name with the extension of the mode; and if one of them is defective or unreadable the command fails, whatever the outcome for the others.",
 ["configurations","histories","fault_sequences"],"all lists of sources in all orders, any subset of them defective or failing, all modes without -o",
 "The tests pass at most two well-formed inputs.",
 D+["irbuilder.go"],
 [("a fresh compiler per input","driver.go compileSingleTo"),("output naming","driver.go")],
 ["outputs and status of multi-input runs"])
p("C31","White space and comments never change meaning",
 "Inserting, removing or replacing white space and comments between tokens of a program never changes whether it is accepted or what it does.",
 ["inputs"],"all programs and all placements of white space and comments","Tests use one layout per program.",
 ["lexer.go"],[("white-space skipping","lexer.go Whitespace")],["IR"])
p("C32","Static errors are diagnosed",
 "Every use of an undeclared variable, duplicate local, misplaced case, missing delimiter or similar static error is rejected with a diagnostic that names it.",
 ["inputs"],"all statically erroneous programs","Tests cover selected snippets.",
 ["parser_stmt.go","expressions.go","parser_decls.go"],[("diagnostics","parser_*.go")],["stderr"])
p("C33","Help, version and usage output",
 "-h and -V print help and version and succeed; running with no arguments prints usage and fails; neither touches any file.",
 ["configurations"],"all command lines containing these options","Covered by fixed tests for the plain cases.",
 ["main.go"],[("usage","main.go usage")],["stdout, stderr, status"])
p("C34","The runtime behaves alike on every supported platform",
 "The runtime library gives the same results on Linux x86_64, ARM64 and RISC-V and on macOS x86_64 and ARM64.",
 ["configurations"],"all supported platforms","Tests run on the host platform only.",
 ["runtime/"],[("per-architecture system-call wrappers","runtime/x86_64.h, aarch64.h, riscv64.h")],["system calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
