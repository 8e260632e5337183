#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay editable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, state, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning="internal state the property depends on", where=files[0]) for n in state], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs, hook_needed=hook)))

p("C01", "scc: integer expressions compute the C value in 16 bits",
  "For every expression over int, unsigned and char operands (constants, locals, parameters, globals, statics, array elements, struct members, pointer targets, calls) built from scc's operators (arithmetic, bitwise, shift, relational, equality, && || !, ?:, comma, =, compound assignment, ++/--, casts to int types, sizeof), the compiled program computes the value and performs exactly the side effects that C prescribes with 16-bit two's-complement int and 8-bit char (signed unless unsigned; a call argument is passed as int). Precedence, associativity, short-circuiting and the sequencing points of C hold. It depends on nothing C leaves unread: not on stale registers or CPU flags, and not on whether an operand is a constant, a variable or a nested expression.",
  ["inputs", "programs"], "every well-defined integer expression (no division by zero, no shift count outside 0..15, no unsequenced side effects), nested to any depth the compiler accepts, with every operand value",
  "The tests run a few fixed programs; a wrong code path for one operand shape, type, constant or nesting (BX cached or spilled, constant folded, right operand an lvalue) is only seen when exactly that shape is compiled and run on values that tell the difference.",
  ["scc.c"], ["CurrentType", "CurrentVal", "Pending", "RegUse", "IsUnsignedOp", "LastZFInst"],
  [("binary operator code generation", "scc.c:ParseExpr1, DoBinOp, DoRhsConstBinOp, DoRhsLvalBinOp, DoConstBinOp"),
   ("unary, postfix, cast", "scc.c:ParseUnaryExpression, ParseCastExpression, DoIncDecOp"),
   ("register caching and spilling", "scc.c:FlushPushAx, GetStoredVal, Pending/RegUse")],
  ["values the compiled .com prints or stores when run", "CPU flags consumed by branches"])

p("C02", "scc: control flow follows C and leaves the stack level right",
  "For every function built from if/else, while, do, for, switch (case groups, default anywhere, fall-through, nested), break, continue, goto with labels, return and blocks with local declarations, the compiled program executes exactly the statements C prescribes in that order. Every path into a statement, by fall-through or jump, arrives with the stack pointer and frame the code there expects, however long the jumps are and whatever follows them.",
  ["programs", "inputs"], "every structured or goto-based control-flow graph within scc's limits (labels, nesting, cases), with short and long jump distances and code after jumps",
  "Tests fix a handful of control-flow shapes; the jump fix-up optimiser (short/long/fused/threaded/elided jumps), dead-code tracking and switch chaining depend on distances and combinations of neighbouring statements that only varied programs hit.",
  ["scc.c"], ["Labels", "IsDeadCode", "LastFixup", "BStackLevel", "CStackLevel", "NextSwitchCase", "NextSwitchStmt", "SwitchDefault"],
  [("jump emission and fix-ups", "scc.c:EmitJcc, EmitJmp, EmitLocalLabel, DoFixups"),
   ("statements", "scc.c:ParseStatement, DoLoopStatements, EnsureSwitchStmt")],
  ["trace of markers printed by the compiled program", "SP/BP at every call and return"])

p("C03", "scc: pointers, arrays, structs and unions address the right bytes",
  "For every combination of arrays (any number of dimensions), structs, unions and pointers (up to scc's indirection levels) that scc accepts, reading or writing through [], *, &, ., ->, pointer arithmetic, pointer comparison and difference, ++/-- and compound assignment on pointers, struct assignment and array decay touches exactly the object C designates, scaled by the element size, and no neighbouring byte. sizeof gives C's size for scc's packed layout (char 1, int and pointers 2, no padding; union = largest member), and this holds equally for global, static, local and parameter objects.",
  ["programs", "inputs"], "every nesting of arrays/structs/unions/pointers within scc's table limits, every index and access path, for globals, statics, locals and parameters",
  "A mis-scaled index, an offset added to the wrong base or a one-byte-too-wide store is only visible for particular shapes and storage classes; tests use few shapes and seldom look at neighbouring bytes.",
  ["scc.c"], ["ArrayDecls", "StructDecls", "StructMembers", "CurrentTypeExtra"],
  [("indexing, member access", "scc.c:ParsePostfixExpression"), ("type sizes", "scc.c:SizeofType"),
   ("array bounds rotation", "scc.c:ParseDeclarator"), ("struct assignment, pointer arithmetic", "scc.c:ParseExpr1")],
  ["memory contents dumped by the compiled program after each access"])

p("C04", "scc: calls, recursion, function pointers and varargs obey the ABI",
  "Every call evaluates each argument once and delivers argument i at [BP+4+2*i] of the callee for any argument count, direct or through a function pointer, nested inside other calls and expressions; va_start/va_arg walk the same layout. The callee returns to its call site with SP and BP as before the call and the value in AX, and live intermediate values of the caller survive. Functions may be called before their definition, recursively and mutually.",
  ["programs", "inputs"], "every call graph, argument count (including over 4 and over 8 chunks), argument expression, nesting of calls in expressions, and recursion depth the stack allows",
  "Stack adjustment is deferred (Pending) and arguments are moved in chunks; whether the stack is balanced and saved values survive depends on the surrounding expression, which tests vary little.",
  ["scc.c"], ["LocalOffset", "Pending", "RegUse", "Args"],
  [("call sequence", "scc.c:ParsePostfixExpression case '('"), ("prologue/epilogue", "scc.c:ParseExternalDefition, ParseStatement TOK_RETURN"),
   ("varargs", "scc.c:HandleVarArg")],
  ["argument values seen by callees", "shadow call stack: return address, SP and BP at every CALL/RET"])

p("C05", "scc: declarations give names the right object, lifetime and initial value",
  "In every accepted program each use of a name refers to the declaration C's scope rules select (locals, parameters, block scopes, enumerators, typedefs, tags, statics, globals, implicit and forward-declared functions, labels). Every object has storage of its own for its lifetime: globals and statics keep their value between calls, uninitialised ones lie in [_SBSS,_EBSS) and initialised ones start with their declared value, and local initialisers run each time their block is entered.",
  ["programs"], "every arrangement of declarations, shadowing and storage classes within scc's limits",
  "Name lookup is a chain of redefinitions unwound at scope exit and statics are moved into the global table late; an overlap or a lookup of the wrong object needs a particular nesting and order of declarations.",
  ["scc.c"], ["VarDecls", "VarLookup", "Scopes", "IgnoreRedef", "BssSize"],
  [("scopes", "scc.c:PushScope, PopScope, AddVarDecl, AddLateGlobalVar"), ("declarations", "scc.c:ParseDeclSpecs, ParseDeclarator, ParseExternalDefition"),
   ("BSS layout", "scc.c:main")],
  ["values and addresses printed by the compiled program", "the .map file"])

p("C06", "scc: image and map file are complete, consistent and reproducible",
  "For every accepted program the .com image starts with a jump to _start, holds every function, initialised object and string literal exactly once, and extends exactly to _SBSS; the .map file next to it lists each function and global exactly once with the address the running program uses for it, in increasing order, ending with _EBSS. All references (calls, addresses, jumps) are resolved to those addresses. Compiling the same text again, under another file name or directory, gives byte-identical image and map.",
  ["programs", "configurations"], "every accepted program with any mix of forward and backward references, and every choice of input/output file names",
  "Fix-up chains are threaded through the output; a lost link or a wrong map entry shows up only for particular reference patterns and the tests never read the map.",
  ["scc.c"], ["CodeAddress", "BssSize", "VarDecls[].Ref", "MapFile", "Output"],
  [("fix-ups", "scc.c:AddFixup, DoFixups, EmitGlobalLabel, EmitGlobalRef"), ("output", "scc.c:main, MakeOutputFilename, OpenOutput")],
  ["bytes of .com and .map", "call targets and object addresses observed at run time"])

p("C07", "scc: tokens mean the same however they are laid out",
  "Integer, character and string literals have their C value (decimal, octal, hex, escapes, adjacent strings), identifiers are distinguished by all their characters, operators are split by longest match. White space, comments, '#' lines and line breaks between tokens, and where tokens fall relative to the compiler's 512-byte input buffer, never change the generated image.",
  ["inputs"], "every token sequence of an accepted program, every layout of it (any spaces, tabs, CR/LF, comments) and every alignment to the input buffer",
  "The tokenizer refills its buffer inside hand-inlined loops; an error appears only when a particular character of a particular token lands on the boundary, which fixed test files do not move.",
  ["scc.c"], ["InBuf", "InBufPtr", "CurChar", "Line"],
  [("buffer refill", "scc.c:NextChar, SkipWhitespace"), ("tokens", "scc.c:GetToken, GetNum, Unescape, GetStringLiteral")],
  ["bytes of the generated image for re-laid-out sources", "reported line numbers"])

p("C08", "scc: no input makes the compiler corrupt memory or hang",
  "For every input file (nesting of expressions and statements bounded by the stack it runs on) the compiler terminates, either with exit status 0, an image and no message, or with a diagnostic and exit status 1; it never reads or writes outside its objects, executes undefined behaviour that changes results, or loops forever. Programs that exceed a built-in limit (identifiers, declarations, labels, members, arrays, arguments, scopes, output size, identifier text) are rejected, and programs at the limit are compiled correctly.",
  ["inputs", "programs"], "every byte string as input, and every accepted program at, just below and just above each table limit",
  "Limits are checked by hand at each table; tests never reach them and use no sanitizer, so an off-by-one write goes unnoticed.",
  ["scc.c"], ["VarDecls", "IdBuffer", "IdText", "Labels", "NamedLabels", "StructMembers", "ArrayDecls", "Args", "Scopes", "Output"],
  [("limit checks", "scc.c:MakeLabel, GetNamedLabel, AddVarDecl, PushScope, GetToken, ParseDeclarator, EmitChecks, GetStringLiteral"),
   ("fail-stop", "scc.c:Fatal, Fail, Unexpected")],
  ["sanitizer reports", "exit status, diagnostics and run time"])

p("C09", "Tools built for DOS agree with the host build and scc reproduces itself",
  "scc.com, scpp.com and sas.com, compiled by scc and run on an 8086, produce byte-for-byte the output (.com/.map, .i, .com), the same accept/reject decision and the same diagnostics (numbers as 16-bit values, assertion texts aside), as the host builds of the same sources on every input within the DOS memory limits whose #if values fit 16 bits. In particular scc compiled by scc compiles scc to the identical image (fixpoint), and the DOS tools run without corrupting their stack or code.",
  ["inputs", "configurations"], "every input file that fits, for each of the three tools, under any initial memory and register contents",
  "The tests self-compile only the fixed sources on zeroed memory; a 16-bit/32-bit or signed-char discrepancy needs other inputs.",
  ["scc.c", "scpp.c", "sas.c"], ["all compiler state"],
  [("mini library", "scc.c:DosCall..ParseArgs (the __SCC__ part), scpp.c, sas.c"), ("the compilers", "scc.c, scpp.c, sas.c")],
  ["output files and exit status of host and DOS runs", "monitors on the DOS run (stack, code, flags)"])

p("C10", "scc: wrong programs are refused, at their line, without a program being written",
  "A program that cannot be compiled is refused: scc ends with status 1 and a diagnostic, and leaves the output file as it was. This holds for syntax errors in the statements and expressions of functions (a token missing, doubled or too many), for characters no token starts with, and for the errors scc documents by its checks: assigning to or taking the address of what is no object, dereferencing or indexing what is no pointer, members that do not exist or of what is no struct, calling what is no function, undefined names and labels, break, continue, case and default outside of their statements, constants that are not constant or divide by zero, incomplete types whose size is needed, redefinitions of functions and of initialised variables, malformed literals, declarations and declarators. The line in the diagnostic is, for unknown characters, the line they are on, and otherwise a line of the wrong piece or of the first token after it (for undefined functions and labels and unclosed comments and blocks: any line up to the end).",
  ["inputs", "programs"], "every accepted program with one wrong piece put in, at every place",
  "Accepted wrong programs compile to nonsense; the tests hold a few dozen wrong programs of one line each. Errors interact with what is around them: nesting, dead code, line counting in comments and across buffers.",
  ["scc.c"], ["token stream", "Line", "CurrentType", "BreakLabel, ContinueLabel, Switch"],
  [("syntax", "scc.c:GetToken, Expect, ParsePrimaryExpression, ParseStatement, ParseDeclSpecs, ParseDeclarator, ParseExternalDefition"), ("refusal", "scc.c:Fatal, Fail, Unexpected, Check, main")],
  ["exit status, diagnostics", "output file before and after"])

p("P01", "scpp: macro expansion follows the C rules it implements",
  "For every sequence of object-like and function-like #define, #undef and uses, the output is the token sequence C prescribes: arguments are fully expanded before substitution except next to # and ##, # makes the right string literal, ## pastes, a macro is not re-expanded inside its own expansion, rescanning sees the rest of the input, a function-like name without '(' is left alone, and #undef or redefinition takes effect from that point on.",
  ["inputs", "programs"], "every set of macro definitions and invocations within scpp's limits (nesting, tokens, arguments), including recursion, nested and multi-line invocations",
  "Expansion state is a stack of token sources with hide-bits; interactions of nesting, arguments and rescanning are combinatorial, the 64 test files are fixed.",
  ["scpp.c"], ["Macros", "token pool", "input stack"],
  [("expansion", "scpp.c macro expansion functions"), ("define/undef", "scpp.c directive handling")],
  ["tokens of the .i file compared with a reference preprocessor"])

p("P02", "scpp: conditional directives select exactly the right lines",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif, exactly the lines of the groups selected by C's rules are processed and no directive in a skipped group has any effect. #if/#elif expressions (defined, integer constants, macros, other identifiers as 0, !, the binary operators * / % + - < <= > >= == != & ^ | && ||, ?: and parentheses) evaluate to the C value with C precedence, as far as it fits an int. A malformed expression or an unbalanced directive in a processed group is refused with a diagnostic and a failure status.",
  ["inputs", "programs"], "every nesting within the limit and every constant expression over the implemented operators",
  "Tests evaluate a few expressions and nestings; a wrong operator, precedence or else-state is only visible for particular values or orders of groups.",
  ["scpp.c"], ["condition stack"], [("conditions", "scpp.c #if handling"), ("expression evaluator", "scpp.c:EvalExpr*")],
  ["selected lines in the .i file compared with a reference"])

p("P03", "scpp: #include, __FILE__, __LINE__ and #error",
  "An included file is processed in place of the directive with its own line numbers and name, and processing resumes after the directive with the includer's state (conditions, line number, file name) intact, to any depth allowed; macros defined in it stay defined. __LINE__ and __FILE__ always name the current physical position. #error in a processed group ends the run with a failure status and a diagnostic naming file and line, a missing include file with one naming that file, and an unterminated group is diagnosed too; in a skipped group none of them has an effect.",
  ["inputs", "configurations"], "every include tree within the file limit, every position of directives, comments and line continuations",
  "Line counting across comments, multi-line invocations and nested files is only probed at a few places by the tests.",
  ["scpp.c"], ["file stack", "line counter"], [("include stack", "scpp.c include handling"), ("line counting", "scpp.c input functions")],
  ["__LINE__/__FILE__ tokens in the .i file, diagnostics and exit status"])

p("P04", "scpp: text that is not a directive or macro passes through unchanged",
  "Every token sequence without macros or directives reaches the output with the same tokens in the same order (literals byte for byte), tokens never merge or split, comments become white space, lines continued between tokens are joined, and the line structure that remains keeps tokens of different lines apart. This holds wherever tokens fall relative to scpp's 512-byte buffers and whatever line endings are used, and the preprocessed source compiles to the same program.",
  ["inputs"], "every token sequence, layout, line ending and buffer alignment",
  "Buffer boundaries fall at fixed places in the fixed test files.",
  ["scpp.c"], ["input and output buffers"], [("tokenizer", "scpp.c token reading"), ("output", "scpp.c output functions")],
  ["tokens of .c and .i compared"])

p("P05", "scpp: token storage is conserved, limits and bad input fail cleanly",
  "No input makes scpp read or write outside its objects, corrupt its token pool or loop forever: it ends with status 0 and no message, or with a diagnostic (a failed assertion included) and a failure status; input within the built-in limits is never refused. Token storage is conserved: after a use of a macro all its temporary tokens and text are free again, so any number of uses exhausts nothing, and #undef frees the tokens of the definition.",
  ["inputs", "histories"], "every byte string as input and every history of define/use/undef operations",
  "Leaks and double frees need long histories or particular orders; the tests are short and run without sanitizers.",
  ["scpp.c"], ["token pool free list", "macro table", "string buffers"], [("pool", "scpp.c token list allocation/free"), ("limits", "scpp.c fatal checks")],
  ["sanitizer reports, exit status, long histories that must not run out of tokens"])

p("S01", "sas: every instruction is encoded with the operands written",
  "For every instruction form sas accepts, the emitted bytes disassemble on an 8086 to the mnemonic and operands in the source: same operation, registers, addressing mode, displacement, immediate and size, segment prefixes and repeats as written. Instruction length is what following labels assume.",
  ["inputs", "programs"], "every mnemonic, operand combination, displacement and immediate value sas accepts, in any letter case",
  "The tests assemble a few fixed sources; a wrong ModRM, sign-extended immediate or displacement size shows only for particular operands.",
  ["sas.c"], ["operand descriptors"], [("encoders", "sas.c:OutputMR, instruction handlers"), ("operand parser", "sas.c operand parsing")],
  ["bytes of the .com compared with independent assembler/disassembler (nasm, ndisasm)"])

p("S02", "sas: labels and fix-ups resolve to the addresses C of the program text",
  "Every reference to a label, before or after its definition, global or local (.name, scoped to the preceding global label), in jumps, calls, immediates, displacements and data, receives the address of that label: ORG plus the bytes emitted before it. A reference that cannot be represented (short jump out of range, undefined or duplicate label) is diagnosed with a non-zero exit, never silently encoded wrong.",
  ["inputs", "programs"], "every arrangement of labels and references within the limits, every distance",
  "Fix-up lists and local-label scopes interact; range overflow needs distances the tests do not have.",
  ["sas.c"], ["Labels", "Fixups", "CurrentAddress"], [("labels", "sas.c label handling"), ("fix-ups", "sas.c fix-up lists")],
  ["bytes of the .com compared with a reference assembler; exit status"])

p("S03", "sas: data directives and constant expressions emit the right bytes",
  "DB, DW, EQU, ORG, RESB and RESW with numbers (decimal, hex, character), strings, labels, $ and $$-style positions as sas accepts them, and expressions over its operators, emit exactly the bytes they denote in order, and reserved space takes its size. Comments, blanks, letter case and line ends do not matter.",
  ["inputs"], "every accepted operand list and constant expression",
  "Tests use few expressions.", ["sas.c"], ["expression evaluator"], [("directives", "sas.c directive handlers"), ("expressions", "sas.c expression evaluation")],
  ["bytes of the .com compared with nasm"])

p("S04", "sas: no input corrupts memory or hangs; errors are reported",
  "For every input file sas terminates, with status 0, an image and no message, or with a diagnostic (a failed assertion included) and a failure status (the line a diagnostic names is that of the erroneous statement or of the token after it); it never accesses memory outside its objects. Input beyond a built-in limit (identifiers, fix-ups, output size, strings) is rejected.",
  ["inputs"], "every byte string as input, and inputs at each table limit", "Tests contain only valid, small inputs and use no sanitizer.",
  ["sas.c"], ["Ids", "Fixups", "StringBuf", "Output"], [("limits", "sas.c table insertions"), ("fatal", "sas.c:Fatal")],
  ["sanitizer reports, exit status, run time"])

p("M01", "sim86: every implemented instruction has the 8086's effect",
  "For every instruction sim86 implements, registers, memory, the flags it models (carry, zero, sign, overflow) and the next instruction executed are those of an 8086 wherever the 8086 defines them, for every operand value, addressing mode, segment and wrap-around; instructions it does not implement stop the run with a diagnostic and non-zero status.",
  ["inputs", "programs"], "every implemented opcode, every operand and flag value, in any program",
  "Tests run two programs; the simulator keeps wider-than-16-bit registers internally, so errors depend on how a value was produced.",
  ["sim86.c"], ["reg", "sreg", "ip", "flags", "mem"], [("decode and execute", "sim86.c:main"), ("ALU", "sim86.c:DoOp, DoIncDec"), ("addressing", "sim86.c:ModRM")],
  ["register/flag/IP trace (-v) compared step by step with a reference 8086", "output of the simulated program"])

p("M02", "sim86: DOS services, program set-up and exit status",
  "A simulated program sees what DOS gives it: command tail, PSP, stack and load address; character output reaches standard output unchanged; create/open/read/write/close act on the named host file with exact byte counts, results and carry flag; termination by INT 20h, RET or AH=4Ch ends sim86 with the program's exit code. Unsupported services end the run with a diagnostic and status 1.",
  ["inputs", "histories"], "every sequence of service calls with any handles, sizes, file states and command lines",
  "Tests use a few successful calls; failing opens, end of file, zero and large counts are not covered.",
  ["sim86.c"], ["flags", "reg"], [("services", "sim86.c:INT, HandleOpen, ReadToMem, WriteFromMem"), ("PSP", "sim86.c:main")],
  ["files, output and results as printed by the simulated program compared with a reference DOS model"])

p("M03", "sim86: tracing and profiling do not change the simulated program",
  "With -v, -p or both, the simulated program performs the same computation, file output and exit status as without; the -v trace names every executed instruction at its address, in order, with the state after it, and the -p report counts exactly the memory accesses of each executed address and attributes them to the right symbol of the map.",
  ["configurations", "programs"], "every program and combination of options",
  "Tests never use the options.", ["sim86.c"], ["verbose", "do_profile", "counts", "total_cycles", "addrtext"],
  [("tracing", "sim86.c:PrintState, main"), ("profiling", "sim86.c:DoExit, RecordStack, main")],
  ["files and exit status with and without options", "trace and profile text compared with an independent count"])

p("M04", "sim86 built for DOS behaves as on the host",
  "sim86.com, compiled by scpp and scc and run on an 8086, runs any .com program it has memory for with the same output, files and exit status as the host build, including programs that are themselves the toolchain.",
  ["programs"], "every program within the simulator's scope", "Only one nesting is exercised by the tests.",
  ["sim86.c", "lib.h", "scc.c"], ["memseg"], [("far access", "lib.h:FarPeek, FarPoke; sim86.c:ReadToMem")],
  ["output and files of nested and direct runs"])

p("M05", "sim86: no program can corrupt or kill the simulator",
  "Whatever bytes the .com file, the .map file and the command line hold, sim86 never accesses memory outside its objects, has no undefined behaviour and never dies of a signal: the simulated program ends it, an unsupported instruction or service ends it with a diagnostic and status 1, or the program runs on. Exit status, output and files depend only on the simulated program and its input, not on how sim86 was built nor (output aside) on -v and -p.",
  ["inputs", "programs", "configurations"], "every byte string as program and map, every command line and option",
  "Tests run well-formed programs in one build without a map, options or sanitizers.",
  ["sim86.c"], ["mem", "reg", "sreg", "counts", "entries", "insttext", "rmtext", "max_stack"],
  [("memory", "sim86.c:MAKEADDR, Read*/Write*"), ("traces", "sim86.c: insttext, PrintState"), ("profile", "sim86.c:RecordStack, DoExit"), ("services", "sim86.c:INT, ReadAsciiz")],
  ["sanitizer reports, exit status, output and files of differently built simulators"])

p("F01", "File operations that fail are reported; status 0 means the output is complete",
  "Whichever operation on a file fails in whichever tool - opening or reading the source or an include file, creating or writing an output, at any point, for any reason (missing, unreadable, a directory, full disk, I/O error) - scc, scpp and sas end with a diagnostic and a failure status, on the host and as DOS programs; status 0 means that every output file is there and complete. How many bytes a single read delivers changes nothing. sim86 reports a program it cannot open or read with status 1 and hands every other failure on to the simulated program (carry or a short count), which lib.h's open, read and write report as -1 or the count.",
  ["faults", "inputs"], "every file operation of every run, each kind of failure", "No test lets a file operation fail.",
  ["scc.c", "scpp.c", "sas.c", "sim86.c", "lib.h"], ["InBufEnd", "BufSize", "InBufSize", "flags"],
  [("reading", "scc.c:NextChar, scpp.c:ReadChar, sas.c:ReadChar"), ("writing", "scc.c:EmitGlobalLabel, main; scpp.c:OutputStr, main; sas.c:main"), ("DOS calls", "sim86.c:HandleOpen, INT; lib.h:open, read, write")],
  ["exit status, diagnostic and output files under injected and real faults"])

p("L01", "lib.h: programs behave the same on the host and under scc",
  "A program that includes lib.h and uses its functions (string and memory functions, printf family with the supported conversions, putchar/puts, open/read/write/close, exit, assert, main's arguments) prints the same output, writes the same files and exits with the same status whether compiled for the host or with scpp and scc for DOS (new-line translation aside).",
  ["programs", "inputs"], "every use of the functions lib.h offers on both sides within 16-bit values",
  "No test compares lib.h functions with their C meaning over argument ranges.", ["lib.h"], ["argv area", "_SBSS/_EBSS"],
  [("mini libc", "lib.h (the __SCC__ part)")], ["output, files and exit status of the two builds"])

p("W01", "swar: the game stays inside video memory and leaves cleanly",
  "Whenever the game is started and whatever keys are pressed, the game writes only to its own data, stack and the CGA frame buffer, never runs off its code, keeps stack and calls balanced, and on exit (Esc, or a key after a hit) restores the previous video mode and ends with status 0.",
  ["histories", "inputs"], "every sequence and timing of key presses", "The game has no tests at all.",
  ["swar.c", "lib.h"], ["frame buffer", "game objects"], [("drawing and clipping", "swar.c drawing functions"), ("input and loop", "swar.c main loop")],
  ["memory writes, video mode and exit observed on the reference 8086"])

p("W02", "swar: the screen always shows the state the rules give",
  "For every start time and every history of keys, the picture shown is exactly the one the rules give: ground of heights 20 to 180 with steps of at most 3 and two tanks standing on it; left and right turn the turret (0 to 180 degrees, wrapping around), up and down change the power (0 to 100), Page Up and Page Down set it to 100 and 0, Enter or Space fires, the shell flies from the turret with that angle and power under gravity, is invisible above the screen and knocks one pixel out of the ground it hits; then it is the other player's turn, whose angle and power the information line shows in that player's colour. Hitting a tank ends the game with the other player as winner. No other key changes anything, no key is lost while fewer than 16 wait, in the DOS and the Windows version.",
  ["histories", "inputs"], "every start time, history and timing of key presses", "The game has no tests at all.",
  ["swar.c", "lib.h"], ["frame buffer", "struct Tank"], [("rules", "swar.c main, Fire, UpdateTurrent"), ("drawing", "swar.c PutPixel, DrawTurret, DrawStr"), ("Windows key buffer and picture", "swar.c WindowProc, ScreenUpdate")],
  ["frame buffer at every key taken on the reference 8086, every picture of the Windows version"])

for x in P:
    assert len(x["title"]) <= 80, x["id"]
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
