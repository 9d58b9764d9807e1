import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
B="stdout and exit status of the compiled program under qemu-arm and qemu-riscv32"
p("C01","Operators compute 32-bit two's-complement C values for every operand",
"Every unary, binary and compound-assignment operator on int values yields exactly the 32-bit two's-complement C result (truncating division and remainder, arithmetic right shift, 0/1 comparisons and logical results) for every operand pair for which C defines it. The result is the same whether the operands are literals the compiler folds, variables held in registers, or values loaded from memory, and with software or hardware multiply/divide.",
["inputs","programs","configurations"],"all operators x all 32-bit operand values (boundary values enumerated exhaustively, others sampled) x operand forms (literal, local, global, element, field) x target x +m",
"The suite evaluates a few dozen fixed operand pairs; the value space is 2^64 per operator and each operand form takes a different path (folding, immediate encoding, software division loop).",
["src/ssa.c","src/arm-codegen.c","src/riscv-codegen.c","src/arm.c","src/riscv.c","src/parser.c","src/peephole.c"],
[("constant folding","src/ssa.c:eval_const_arithmetic"),("instruction selection and div/mod emulation","src/arm-codegen.c, src/riscv-codegen.c:emit_ph2_ir"),("algebraic fusion","src/peephole.c:insn_fusion"),("literal parsing","src/parser.c:read_numeric_param")],obs=[B])
p("C02","Expressions group, short-circuit and order side effects as C prescribes",
"An expression is evaluated with C's operator precedence and associativity whatever parentheses are or are not written; && and || evaluate their right operand only when needed and yield 0 or 1; ?: evaluates exactly one branch. Every function call and ++/-- in an expression takes effect exactly once, calls in the order C's sequence points fix.",
["programs","inputs"],"all expression trees of the supported grammar (all operator pairs and triples enumerated, larger trees sampled), with observable calls as operands",
"Tests fix a few operator combinations; grouping errors only show for particular operator triples and operand values, and the shunting-yard/logical-block construction has many interacting cases.",
["src/parser.c","src/lexer.c"],[("operator priority stack","src/parser.c:read_expr"),("short-circuit blocks","src/parser.c:read_logical, finalize_logical"),("ternary","src/parser.c:read_ternary_operation"),("deferred side effects","src/parser.c:perform_side_effect")],obs=[B])
p("C03","Structured control flow executes the statements C prescribes, in order",
"For every nesting of if/else, while, do-while, for, switch (with fall-through and default), break, continue, return, blocks and empty statements, the compiled program executes exactly the sequence of observable actions the C abstract machine prescribes. Loops terminate exactly when their condition first fails or a break/return leaves them.",
["programs","inputs"],"all well-formed nestings (exhaustive for small statement trees, sampled for larger), all branch outcomes",
"Tests contain isolated loops and switches; wrong edges in the control-flow graph appear only for particular nestings (e.g. continue in a switch in a for, return-only branches, empty bodies).",
["src/parser.c","src/ssa.c","src/reg-alloc.c"],[("CFG construction","src/parser.c:read_body_statement"),("block ordering and jumps","src/ssa.c:build_rpo; src/reg-alloc.c:reg_alloc"),("branch elimination","src/ssa.c:dce_sweep")],obs=[B])
p("C04","Calls pass every argument, preserve the caller and return the right value",
"For every call, direct, recursive, mutually recursive or through a function pointer, with zero to eight arguments of any expression form, the callee receives exactly the argument values in order, the caller receives exactly the returned value, and every caller variable the callee does not legitimately modify has the same value after the call as before. This holds at any recursion depth the stack can hold.",
["programs","inputs","histories"],"all call graphs, arities 0..8, argument expressions (nested calls included), recursion depths, live values across the call",
"Tests call a few functions with few live values; clobbered registers or argument shuffles need particular combinations of argument expressions and live variables.",
["src/reg-alloc.c","src/parser.c","src/arm-codegen.c","src/riscv-codegen.c"],[("argument registers and spilling","src/reg-alloc.c:reg_alloc OP_push/OP_call/OP_indirect"),("prologue/epilogue","src/*-codegen.c OP_define/OP_return"),("function pointers","src/parser.c:read_indirect_call")],obs=[B])
p("C05","Pointers, arrays, structs and chars behave as one consistent memory",
"A load through any access path (variable, pointer dereference, subscript, member, nested member of a pointed-to struct, pointer arithmetic) returns the value most recently stored to that object through any path, truncated to the object's width; stores never change another object. Distinct live objects never overlap, and struct members and array elements sit at fixed disjoint offsets within the object's size.",
["programs","histories","inputs"],"all sequences of loads and stores over aliased scalars, arrays, structs, nested pointers, in locals, globals and heap",
"Aliasing bugs (stale registers after a store through a pointer, wrong element scaling, overlapping slots) depend on the history of stores, of which tests sample very few.",
["src/parser.c","src/ssa.c","src/reg-alloc.c"],[("lvalue address computation","src/parser.c:read_lvalue"),("common-subexpression elimination of loads","src/ssa.c:cse"),("spill before store","src/reg-alloc.c:spill_alive"),("stack and global slot layout","src/reg-alloc.c OP_allocat")],obs=[B])
p("C06","Globals, initialisers, enums and sizeof have their declared values",
"Before main runs every global scalar holds its constant initialiser's C value, or zero when it has none; enum constants take their given or successive values; sizeof of a type is the size actually used for layout and pointer scaling. A store to a global is visible to every later read in any function.",
["programs","histories"],"all global declarations and constant initialiser expressions of the supported form, enum lists, struct/typedef types, and read/write histories across functions",
"Constant evaluation at global scope is a separate evaluator from the one used in functions; tests fix a handful of initialisers.",
["src/parser.c","src/reg-alloc.c","src/arm-codegen.c","src/riscv-codegen.c"],[("global constant evaluator","src/parser.c:read_global_assignment, eval_expression_imm"),("type table","src/parser.c:read_global_statement"),("start-up initialisation code","src/*-codegen.c:code_generate")],obs=[B])
p("C07","Every identifier denotes its innermost visible declaration",
"A use of a name refers to the innermost enclosing declaration visible at that point - block local, loop variable, parameter, global, enum constant, function - however many functions, variables and blocks the program declares and whatever their names hash to. A shadowing declaration never changes the value of the variable it shadows.",
["programs"],"all nestings of scopes and shadowings; programs with hundreds of functions and names of any spelling up to the documented length",
"Tests declare few names; wrong resolution needs shadowing combined with SSA renaming, or hash collisions among many functions.",
["src/globals.c","src/ssa.c","src/parser.c"],[("scope chain lookup","src/globals.c:find_local_var, find_var"),("function hash map","src/globals.c:hashmap_get/put"),("phi insertion limited to scope","src/ssa.c:var_check_in_scope"),("renaming","src/ssa.c:rename_var")],obs=[B])
p("C08","Optimisation and register allocation never change a variable's value",
"However many variables are live at once, however large the frame, and however values flow through branches, loops and joins, each read of a variable yields the value of its last assignment on the executed path. Constant propagation, common-subexpression and dead-code elimination, phi resolution, spilling and peephole fusion are unobservable.",
["programs","inputs"],"all functions: number of live variables beyond the register count, frames beyond every immediate range, loop nests, swaps and cyclic copies, constant operands 0 and 1",
"Only particular interference patterns trigger a spill or fusion bug; the tests and the self-compilation exercise one pattern each.",
["src/ssa.c","src/reg-alloc.c","src/peephole.c"],[("liveness","src/ssa.c:liveness_analysis"),("phi insertion and unwinding","src/ssa.c:solve_phi_insertion, unwind_phi"),("linear-scan allocation","src/reg-alloc.c"),("fusion","src/peephole.c"),("folding/CSE/DCE","src/ssa.c:optimize")],state=[("REGS","variable held by each register","src/globals.c")],obs=[B])
p("C09","Both targets and both multiply/divide modes behave identically",
"For every source program whose behaviour C defines, the executables produced for ARM and RISC-V, with and without the hardware multiply/divide option, produce the same output bytes and exit status.",
["programs","configurations","inputs"],"all supported programs x {arm, riscv} x {default, +m} - including frames, globals, string data and code large enough to leave every immediate and branch range",
"The suite runs the same small programs on each target and never uses +m on the test programs; range-dependent encodings are not reached.",
["src/arm-codegen.c","src/riscv-codegen.c","src/arm.c","src/riscv.c"],[("instruction selection and offset accounting","src/*-codegen.c:update_elf_offset, emit_ph2_ir"),("encoders","src/arm.c, src/riscv.c")],obs=[B])
p("C10","Every bootstrap stage and run emits the same bytes for the same source",
"For every source file and option set, the natively built compiler, the compiler it builds of itself and the compiler that one builds in turn emit byte-identical executables, and repeating a compilation in any working directory, environment or over an existing output file gives the same file. Asking for an IR dump does not change the executable.",
["programs","configurations","histories"],"all sources (accepted ones) x stages 0,1,2 x targets x options x output-file history",
"The bootstrap test compares the stages on one input only, the compiler itself.",
["src/main.c","src/globals.c","lib/c.c","src/elf.c"],[("self-hosting","Makefile: bootstrap"),("libc used by stage 1/2","lib/c.c"),("output writing","src/elf.c:elf_generate")],obs=["bytes of the output file of each stage"])
p("C11","Preprocessor conditionals and macros select and expand what C prescribes",
"Of the groups guarded by #if/#ifdef/#ifndef/#elif/#else/#endif exactly the first whose condition holds (or the #else group when none does) is compiled, with #define/#undef taking effect in textual order only inside compiled groups; text in skipped groups has no effect. Uses of object-like and function-like macros, variadic ones included, behave as their expansion with each argument evaluated as written.",
["programs","histories"],"all sequences of directives and code lines (exhaustive for short ones), condition expressions, macro definitions, redefinitions after #undef, argument expressions",
"Tests contain a handful of directive sequences; the state machine (matched flag, skipping) is history dependent.",
["src/parser.c","src/lexer.c","src/globals.c"],[("directive state machine","src/parser.c:read_preproc_directive, cppd_control_flow_skip_lines"),("constant conditions","src/parser.c:read_constant_infix_expr"),("alias table","src/globals.c:find_alias, remove_alias"),("macro expansion","src/parser.c:read_expr_operand, read_body_statement")],state=[("preproc_match","a group of the current conditional was taken","src/lexer.c")],obs=[B])
p("C12","Tokenisation is maximal-munch and independent of layout and comments",
"The meaning of a source depends only on its token sequence: inserting, removing or exchanging blanks, tabs, newlines, comments and line splices between tokens never changes the emitted executable, and adjacent characters form the longest C token. Every decimal, octal and hexadecimal constant, character constant and string literal denotes exactly its C value or bytes.",
["inputs","programs"],"all token pairs x all separators, all literals (values to 2^31-1 / 0xffffffff, every supported escape, strings up to the documented token length)",
"Tests are written in one formatting style; lexer errors show only for unusual adjacency such as a minus sign before a negative operand or a comment ending in two asterisks.",
["src/lexer.c","src/parser.c"],[("lexer","src/lexer.c:lex_token_internal, skip_whitespace, read_char"),("numeric literals","src/parser.c:read_numeric_param, read_numeric_constant")],obs=["emitted executable bytes","program output"])
p("C13","Ill-formed programs are rejected with a diagnostic and no executable",
"A source that violates the supported grammar or uses an undeclared identifier, type or function, or triggers #error, makes the compiler stop with a non-zero status after printing a diagnostic, and leaves no (new or modified) output file. It never hangs, crashes with a memory fault, or silently emits code.",
["inputs","programs"],"single-fault mutations (missing or extra punctuation, undeclared names, misplaced keywords, unterminated comments and literals, #error) of well-formed programs",
"The suite has about ten erroneous programs; every rejection path depends on parser state.",
["src/parser.c","src/lexer.c","src/globals.c","src/main.c"],[("error reporting","src/globals.c:error"),("token expectations","src/lexer.c:lex_expect, lex_ident")],obs=["exit status, stdout and output file of the compiler"])
p("C14","Every emitted file is a well-formed ELF executable with consistent layout",
"For every accepted source the output is a 32-bit little-endian ELF executable for the chosen machine whose header, program header and section table describe the file exactly: tables lie inside the file, the loadable segment covers all code and data at the addresses the code uses, the entry point is inside it, sections do not overlap, names resolve. String literals are found in the data region, NUL-terminated, at the addresses the code loads.",
["programs","configurations"],"all accepted sources (code and data of any size, any number of literals) x targets x options",
"Tests only run programs; the loader tolerates inconsistent section tables and misplaced data, and layout arithmetic depends on code and data sizes.",
["src/elf.c","src/arm-codegen.c","src/riscv-codegen.c"],[("header and sections","src/elf.c:elf_generate_header, elf_generate_sections"),("offset accounting","src/*-codegen.c:cfg_flatten, update_elf_offset")],obs=["bytes of the output file"])
p("C15","On every path emitted code keeps stack, link and register discipline",
"Along every control-flow path of every emitted function - whatever the branch outcomes - each branch and call lands on an instruction of the right function, the stack pointer and return address are restored at return, the globals base register is never altered, stack accesses stay inside the frame, and no instruction reads a register that holds no defined value (in particular one a preceding call may have overwritten).",
["programs","inputs"],"all paths of all functions of every emitted executable, library functions and the compiler itself included",
"Running a program covers one path per input; a stale register or unbalanced stack on a path no test takes stays invisible.",
["src/reg-alloc.c","src/arm-codegen.c","src/riscv-codegen.c"],[("allocation and spilling around calls","src/reg-alloc.c"),("prologue/epilogue and branch offsets","src/*-codegen.c")],obs=["disassembled control-flow graph of the emitted .text"])
p("C16","The heap hands out disjoint, intact, writable blocks for every call history",
"For every sequence of malloc, calloc and free, a returned block of the requested size is fully readable and writable, disjoint from every other live block, zero-filled if from calloc, and keeps its contents until freed; non-positive sizes and free(NULL) are harmless. Freeing an already freed block is detected and aborts the program.",
["histories","inputs"],"all histories of allocation calls (exhaustive for short ones over size classes, long random ones), sizes around every rounding boundary, all free orders",
"The suite has three or four fixed malloc/free sequences; overlap or corruption depends on the free-list history.",
["lib/c.c"],[("best-fit free list","lib/c.c:malloc"),("unlink and freed mark","lib/c.c:free"),("zeroing","lib/c.c:calloc")],state=[("__alloc_head/__alloc_tail","allocated chunk list","lib/c.c"),("__freelist_head","free chunk list","lib/c.c")],obs=[B])
p("C17","String and memory functions honour their C contracts",
"strlen, strcmp, strncmp, strcpy, strncpy and memcpy return the C-specified result (comparison results by sign) and write exactly the C-specified bytes - terminators, zero padding and nothing outside the destination range - for every argument, including empty strings, zero lengths and characters of every value.",
["inputs"],"all string contents and lengths (exhaustive over small alphabets and lengths, sampled beyond), all counts",
"Hardly any test exercises these functions' edge cases (zero length, exact fit, embedded differences at the boundary).",
["lib/c.c"],[("implementations","lib/c.c:strlen..memcpy")],obs=[B])
p("C18","Formatted output writes exactly the text the format prescribes",
"printf, sprintf and snprintf produce exactly the characters C prescribes for the supported conversions (d, x, o, c, s, %%) with width, zero padding and alternate form, for every argument value, and return the count they produced; snprintf never writes past the given size and always terminates a non-empty buffer. Bytes of the buffer beyond the result are untouched.",
["inputs"],"all conversion specifications x widths x flags x argument values (boundary values exhaustively), format strings mixing conversions, all snprintf sizes",
"Tests format about twenty fixed values; the digit generation, padding and sign cases combine.",
["lib/c.c"],[("conversion","lib/c.c:__format, __str_base8/10/16"),("format interpretation and bounds","lib/c.c:__format_to_buf")],obs=[B])
p("C19","File functions read back exactly what was written, byte for byte",
"For every history of fopen, fputc, fgetc, fgets and fclose on files, reads return exactly the file's bytes in order (all 256 values), then end-of-file; fgets stops after a newline, at its size limit or at end-of-file, always terminates the buffer and never writes past it; a file written with fputc contains exactly the bytes written.",
["histories","inputs"],"all file contents and call histories (exhaustive for short ones), buffer sizes from 1 up, files with and without final newline",
"No test uses files except the compiler itself, which reads and writes one well-behaved shape of file.",
["lib/c.c"],[("byte I/O over system calls","lib/c.c:fgetc, fputc, fopen, fclose"),("line reading","lib/c.c:fgets")],obs=[B,"bytes of the files written"])
p("C20","Programs start, receive arguments, exit and call the system as specified",
"A program starts at main with argc and argv as passed by the operating system; its exit status is main's return value or the argument of exit, modulo 256, whichever happens first, from any call depth; abort reports abnormal termination with a failure status. System calls receive their arguments unchanged and return the kernel's result, with and without the embedded library.",
["programs","inputs","configurations"],"all argument vectors, exit values and exit points, programs with any amount of global data, --no-libc builds",
"Tests pass no arguments and use small exit codes; start-up code depends on the size of the globals area.",
["src/arm-codegen.c","src/riscv-codegen.c","lib/c.c","src/main.c"],[("start/exit/syscall stubs","src/*-codegen.c:code_generate"),("exit","lib/c.c:exit, abort")],obs=[B])
p("C21","Including a file is equivalent to pasting its text",
"Splitting a source over any tree of quoted #include files, in any directories relative to the including file, yields the same executable as the single pasted source; directives and declarations in included files take effect in place and in order.",
["programs","configurations"],"all include trees (depth, fan-out, directory layout, position of the directive, long lines, missing final newline)",
"The suite compiles single files only (the compiler's own includes are one fixed layout).",
["src/parser.c"],[("recursive loading","src/parser.c:load_source_file")],obs=["emitted executable bytes"])
p("C22","The dumped first-phase IR is a faithful account of the program",
"For every accepted program the IR printed by --dump-ir, executed by the IR's own semantics (README), performs the same observable actions as the source and as the emitted executable; every label it jumps to is defined exactly once and every operand is defined before use.",
["programs"],"all accepted programs, all functions",
"Tests discard the dump; snapshots cover two programs.",
["src/parser.c","src/globals.c"],[("IR construction","src/parser.c"),("dump","src/globals.c:dump_ph1_ir")],obs=["stdout of --dump-ir"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
