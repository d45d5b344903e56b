#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, script=None, level="exploration", tech="", note="", na=None, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, script=script, level=level, tech=tech, note=note, na=na, state=state or []))


EX = "bounded exhaustive exploration on the real compiler"
prop("C01", "Integer expressions evaluate as C requires",
     "For every integer operator, operand type pair and operand value for which C17 defines the result, a compiled program computes exactly that result: usual arithmetic conversions, promotions, wrap-around of unsigned types, signed/unsigned division and comparison, shifts, and conversions on assignment, compound assignment, ++/--, casts, arguments and returns. Storing the result changes no other object.",
     ["inputs", "programs"], "all operators x all pairs of integer types x all boundary value pairs, in every context a value is used",
     "Tests use a few types and values per operator; signedness, width and boundary interactions are a product space they barely touch.",
     ["src/parser/expression.c", "src/parser/expression_to_ir.c", "src/ir/ir.c", "src/codegen/codegen.c", "src/codegen/binary_operators.h", "src/types.c", "src/arch/x64.c"],
     [("convert_arithmetic / promote", "src/parser/expression.c"), ("ir_binary_op selection", "src/ir/ir.c"), ("instruction tables", "src/codegen/binary_operators.h")],
     ["values computed by compiled functions"], "intops", tech=EX + " (operator x type x value product) against an exact model cross-checked with gcc",
     note="Exhaustive over the stated operator/type/context product and boundary value sets; trusts the gcc reference and the Python integer model (both must agree). Values outside the boundary sets are not explored.")
prop("C02", "Floating-point expressions evaluate per IEEE-754",
     "For every float/double operator, comparison and conversion, including signed zeros, infinities, NaNs, denormals and conversions to and from every integer type, the compiled program computes the correctly rounded IEEE-754 result in the type C prescribes. Conditions, logical operators and _Bool conversions treat -0.0 as false and NaN as true.",
     ["inputs", "programs"], "all operators x operand type pairs x boundary values incl. special values",
     "Tests exercise a handful of ordinary values; NaN, signed zero, 2^63 boundaries and rounding are not sampled.",
     ["src/codegen/codegen.c", "src/codegen/binary_operators.h", "src/parser/expression_to_ir.c", "src/ir/ir.c"],
     [("IR_FLT_* operators", "src/codegen/binary_operators.h"), ("variable_cast", "src/parser/expression_to_ir.c")],
     ["bits of computed values"], "floatops", tech=EX + " against gcc's IEEE evaluation, bit for bit",
     note="Exhaustive over operators x types x special/boundary values; reference is gcc -O0 on the same hardware.")
prop("C03", "Constants folded at compile time equal run-time results",
     "Every constant expression accepted in a constant context (static initialisers, enumerators, array sizes, bit-field widths, case labels, _Static_assert) has exactly the type and value C gives it, identical to the same expression evaluated at run time. Every spelling of an integer or floating literal has the value and type C prescribes, and address constants denote the right object and offset.",
     ["inputs", "programs"], "all operators x type pairs x boundary values as constants, all literal spellings, all address-constant forms, in every constant context",
     "Tests check a few folded values; the folding code is a second implementation of every operator and can disagree with the code generator anywhere.",
     ["src/ir/operators.c", "src/arch/x64.c", "src/parser/expression.c", "src/codegen/rodata.c", "src/parser/function_parser.c"],
     [("operators_constant, simple_cast, constant_from_string", "src/ir/operators.c, src/arch/x64.c"), ("evaluate_constant_expression", "src/parser/expression.c")],
     ["static data and switch behaviour of compiled programs"], "constexpr", tech=EX + " against an exact integer model and gcc",
     note="Exhaustive over the stated product; undefined operations are excluded by the model.")

prop("C04", "Expressions parse and type-check as the C grammar says",
     "Every expression is grouped according to C's precedence and associativity and its value has the type the standard gives it, so that _Generic, sizeof, pointer scaling and signedness decisions agree with C. Evaluated results of unparenthesised operator sequences are those of the C parse.",
     ["programs", "inputs"], "all operator pairs/triples without parentheses x all type pairs",
     "Tests contain only expressions somebody thought of; the precedence table and the type rules are products over all operators and types.",
     ["src/parser/expression.c", "src/precedence.c", "src/types.c", "src/parser/declaration.c"],
     [("parse_pratt and the precedence table", "src/parser/expression.c, src/precedence.c"), ("calculate_type", "src/parser/expression.c")],
     ["_Generic/sizeof results and values of compiled expressions"], "exprs", tech=EX + " (all operator triples, all type pairs) against gcc",
     note="Exhaustive over the listed operator sequences and types with one value assignment per sequence chosen to distinguish groupings.")
prop("C05", "Struct, union and array layout follow the platform ABI",
     "sizeof, _Alignof and every member's offset of a struct, union or array type, with bit-fields, anonymous members, nesting, _Alignas, and #pragma pack, equal what the platform ABI (as implemented by the system compiler) prescribes. Data laid out by this compiler can therefore be shared with separately compiled code.",
     ["programs", "configurations"], "all member sequences up to a length over an alphabet of member kinds, x packing",
     "Layout depends on the whole member sequence; tests cover a few fixed structs.",
     ["src/arch/x64.c", "src/types.c", "src/parser/declaration.c", "src/preprocessor/directives.c"],
     [("calculate_offsets", "src/arch/x64.c"), ("#pragma pack", "src/preprocessor")],
     ["offsets seen from both compilers"], "layout", tech=EX + " of member sequences; layout compared with gcc",
     note="Exhaustive over member sequences up to the stated length and packings; gcc's layout is the reference.")
prop("C06", "Bit-field reads and writes touch exactly their bits",
     "Reading a bit-field yields the value last stored in it, reduced to its width and sign, and writing one (by =, op=, ++/-- or initialisation) changes no other member. The value of the assignment expression itself is the stored, reduced value.",
     ["programs", "histories"], "all two-field neighbourhoods of width/type/offset x all short operation sequences x boundary values",
     "Correctness depends on width, offset, type and signedness combinations and on the order of writes; tests sample a few.",
     ["src/parser/expression_to_ir.c", "src/ir/ir.c", "src/arch/x64.c", "src/codegen/rodata.c"],
     [("ir_get_bits/ir_set_bits", "src/ir/ir.c"), ("EE_BITFIELD_POINTER", "src/parser/expression_to_ir.c")],
     ["object bytes and member values"], "bitfields", tech=EX + " of field shapes x operation sequences, against gcc",
     note="Exhaustive over the stated shapes, values and sequences.")
prop("C07", "Initialisers give every element its C value",
     "For every form of initialiser (nested and elided braces, designators that skip, repeat or override, strings, partial lists, compound literals, unknown-bound arrays), each element of an object of static or automatic storage has exactly the value C assigns and everything not mentioned is zero. Arrays of unknown bound get the right length.",
     ["programs"], "all initialiser lists up to a size over an alphabet of element/designator/brace tokens x object types x storage",
     "Initialiser semantics depend on the cursor history through nested aggregates; tests have a few fixed initialisers.",
     ["src/parser/declaration.c", "src/codegen/rodata.c", "src/parser/expression_to_ir.c"],
     [("initializer parsing and brace elision", "src/parser/declaration.c"), ("codegen_initializer_recursive", "src/codegen/rodata.c")],
     ["object contents"], "inits", level="model_checking", tech="explicit enumeration of every initialiser tree of an executable model of C17 6.7.9, each replayed on the real compiler (static, automatic, run-time and compound-literal objects); the model is cross-checked against gcc",
     note="Exhaustive over token sequences up to the stated length for each object type.")
prop("C08", "Control flow executes exactly the C path",
     "For every combination of if/else, switch/case/default, while, do, for, break, continue, goto/labels, return, ?:, && and ||, a compiled function performs the same sequence of observable actions and ends with the same variable values as the C abstract machine. Optimisation and scheduling (promotion of variables to registers/phis, code motion, dead code removal) never change this.",
     ["programs", "inputs", "histories"], "all statement trees up to a size x all input values that steer them",
     "Control-flow bugs depend on nesting of constructs and on data flow across joins; tests have hand-written shapes only.",
     ["src/parser/function_parser.c", "src/parser/expression_to_ir.c", "src/ir/ir.c", "src/ir/dominator_tree.c", "src/ir/global_code_motion.c", "src/optimize/mem2reg.c", "src/optimize/peephole.c", "src/optimize/remove_dead.c"],
     [("jump_blocks", "src/parser/function_parser.c"), ("mem2reg phi placement", "src/optimize/mem2reg.c"), ("global code motion", "src/ir/global_code_motion.c")],
     ["traces printed by compiled functions"], "control", level="model_checking",
     tech="explicit-state model of the C abstract machine (all statement trees up to a size), every model trace replayed on the compiled code",
     note="All statement trees up to the stated depth and size; traces computed by an explicit small-step model and every one is replayed on the compiled code.")
prop("C09", "Side effects, lvalues and pointers behave as in C",
     "Every side effect happens exactly once, on the right object and in an order C allows; pointer arithmetic, comparison, indexing, member access, struct copies and aliasing through pointers read and write the objects C says. Values live across calls and other expressions are not disturbed.",
     ["programs", "inputs"], "all combinations of lvalue form x operator x operand form up to a depth",
     "Tests show individual lvalue forms; the interaction of lvalue form, operator, operand with side effects and aliasing is a product.",
     ["src/parser/expression_to_ir.c", "src/ir/ir.c", "src/optimize/mem2reg.c", "src/optimize/peephole.c", "src/codegen/codegen.c"],
     [("expression_evaluate", "src/parser/expression_to_ir.c"), ("peephole rules", "src/optimize/peephole.c")],
     ["final memory state"], "effects", level="model_checking",
     tech="explicit-state model of an aliased C memory (all statement sequences up to 3) and of allowed evaluation orders, every model trace replayed on compiled code; lvalue/operator/type products against gcc",
     note="All statement sequences and expression trees up to the stated size; every model trace is replayed and the complete memory image compared. The model is cross-checked with gcc.")
prop("C10", "Calls follow the System V AMD64 ABI in both directions",
     "Functions compiled by this compiler and by the system compiler can call each other, with any mix of integer, pointer, floating, struct and union parameters and results and with variable arguments: every argument and result arrives unchanged, callee-saved registers are preserved and the stack is 16-byte aligned and balanced. va_start/va_arg/va_copy deliver variable arguments of all these kinds in order.",
     ["programs", "configurations"], "all signatures up to a length over an alphabet of parameter kinds x return kinds x caller/callee compiler",
     "Register exhaustion, struct classification and stack passing depend on the whole signature; tests call few signatures and mostly with both sides compiled by this compiler.",
     ["src/abi/sysv.c", "src/abi/abi.c", "src/arch/calling.c", "src/codegen/codegen.c"],
     [("classification and register assignment", "src/abi/sysv.c"), ("call stack allocation", "src/codegen/codegen.c")],
     ["argument bytes seen by the callee", "return values", "registers and stack pointer around calls"], "sysv",
     tech=EX + " of call signatures, both directions, linked with gcc-compiled counterparts",
     note="Exhaustive over signatures up to the stated length; gcc is the reference implementation of the ABI.")
prop("C11", "Calls follow the Microsoft x64 ABI with -fabi=ms",
     "With -fabi=ms, functions compiled by this compiler interoperate with any other implementation of the Microsoft x64 convention, in both directions and for any mix of integer, pointer, floating and struct parameters and results and variable arguments: every argument and result arrives unchanged and callee-saved registers are preserved.",
     ["programs", "configurations"], "all signatures up to a length x caller/callee compiler",
     "The tests run the Microsoft ABI only where wine is available and then with few signatures.",
     ["src/abi/microsoft.c", "src/abi/abi.c", "src/arch/calling.c"],
     [("ms calling convention", "src/abi/microsoft.c")],
     ["argument bytes seen by the callee", "return values"], "msabi",
     tech=EX + " of call signatures, both directions, against gcc's ms_abi functions",
     note="Exhaustive over signatures up to the stated length; gcc's __attribute__((ms_abi)) is the reference.")
prop("C12", "The built-in assembler encodes the same code as -S",
     "For any program the object code produced directly (-c) is equivalent, instruction by instruction and byte of data by byte, to what the system assembler makes of the assembly text produced by -S for the same program. Every operand combination the code generator can emit encodes to the instruction it names.",
     ["programs", "inputs"], "all instructions x operand forms (registers, displacements, scales, immediates at size boundaries) and all generated programs",
     "Tests run each program through one path; encodings depend on register numbers and displacement/immediate sizes that few programs reach.",
     ["src/assembler/assembler.c", "src/assembler/encode.c", "src/assembler/instructions.h", "src/codegen/codegen.c"],
     [("encode / instruction table", "src/assembler/encode.c, src/assembler/instructions.h")],
     ["disassembly of both objects"], "asm", tech=EX + " (all instruction table entries x operand alphabets on the real encoder; programs both ways) against GNU as",
     note="Exhaustive over table entries x operand alphabet; GNU as/objdump is the reference.")
prop("C13", "Object files bind symbols, linkage and relocations correctly",
     "Any combination of definitions, tentative definitions, extern/static/inline declarations and references spread over several translation units links, with the system linker and with other compilers' objects, to one object or function per C entity with the right initial contents, size, alignment and addend. Names with internal linkage are never visible to other units.",
     ["programs", "histories"], "all declaration sequences up to a length x second translation unit",
     "Linkage is a function of the sequence of declarations; tests fix a few.",
     ["src/parser/declaration.c", "src/parser/symbols.c", "src/codegen/rodata.c", "src/linker/elf.c", "src/linker/object.c", "src/assembler/assembler.c"],
     [("tentative definitions and linkage", "src/parser/symbols.c"), ("ELF writer", "src/linker/elf.c")],
     ["symbol tables, relocation results, contents at run time"], "objects", level="model_checking",
     tech="explicit-state model of C linkage (all declaration sequences), every sequence replayed on the compiler and linked",
     note="All declaration sequences up to the stated length; model states enumerated exhaustively and each trace replayed on the real compiler and linker.")
prop("C14", "The built-in linker produces equivalent executables",
     "An executable made by the built-in linker from any set of this compiler's objects behaves like the one the system linker makes from the same objects, whatever the order of the objects and the cross references between their code and data. Unresolved references are reported and no executable that runs wrong code is produced.",
     ["programs", "configurations"], "all reference graphs between up to 3 objects x symbol kinds x link orders",
     "Tests link single objects; relocation across objects depends on order and layout.",
     ["src/linker/linker.c", "src/linker/elf.c", "src/linker/object.c", "src/main.c"],
     [("linker_link", "src/linker/linker.c")],
     ["behaviour of the linked program"], "linker", tech=EX + " of reference graphs and link orders against GNU ld",
     note="Exhaustive over graphs/orders up to three objects with the listed symbol kinds.")
prop("C15", "Macro expansion follows the C preprocessor rules",
     "For every set of object-like and function-like macros (including variadic ones, #, ##, empty arguments, nested and self-referential invocations, #undef and redefinition) the token sequence after preprocessing is the one the C standard defines.",
     ["programs", "histories"], "all definition/invocation combinations up to a size over a small token alphabet",
     "Expansion is a rewriting system; interactions of painting, prescan, pasting and placemarkers cannot be sampled by a few tests.",
     ["src/preprocessor/macro_expander.c", "src/preprocessor/string_set.c", "src/preprocessor/token_list.c", "src/preprocessor/directives.c"],
     [("hide-set expansion", "src/preprocessor/macro_expander.c"), ("sets of macro names", "src/preprocessor/string_set.c")],
     ["-E output"], "macros", tech=EX + " of macro programs against the system preprocessor",
     note="Exhaustive over token sequences up to the stated sizes; unspecified cases are excluded; reference is gcc -E.")
prop("C16", "Conditional directives select exactly the C groups",
     "For every sequence of #if/#ifdef/#ifndef/#elif/#else/#endif, #define, #undef and text lines, precisely the groups C selects are processed, skipped groups have no effect, and unbalanced sequences are rejected. #if expressions evaluate with the preprocessor's 64-bit integer arithmetic, defined and macro replacement.",
     ["histories", "inputs"], "all directive sequences up to a length; all operators x boundary operands in #if",
     "The directive machine's state is a stack of conditionals; tests visit few of its reachable states.",
     ["src/preprocessor/directives.c", "src/preprocessor/preprocessor.c"],
     [("conditional stack", "src/preprocessor/directives.c"), ("#if evaluation", "src/preprocessor/directives.c")],
     ["-E output and exit status"], "conds", level="model_checking",
     tech="explicit-state search of a directive-machine model; every explored sequence replayed on the compiler",
     note="All directive sequences up to the stated length (model states and transitions counted), each replayed on the real preprocessor.")
prop("C17", "Source text is split into the tokens C prescribes",
     "Comments, line splices, string and character literals with every escape sequence and prefix, numbers, identifiers and punctuators are recognised by maximal munch exactly as C prescribes, wherever they meet. The bytes of every string and the value of every character constant are the specified ones.",
     ["inputs"], "all character sequences up to a length over a lexically critical alphabet; all escapes",
     "Tokenisation is a finite automaton whose transitions tests visit sparsely.",
     ["src/preprocessor/tokenizer.c", "src/preprocessor/input.c", "src/escape_sequence.c", "src/utf8.c", "src/preprocessor/string_concat.c"],
     [("tokenizer", "src/preprocessor/tokenizer.c"), ("escape sequences", "src/escape_sequence.c")],
     ["-E token stream, bytes of literals"], "tokens", tech=EX + " of character sequences against the system compiler's tokenisation",
     note="Exhaustive over strings up to the stated length over the critical alphabet.")
prop("C18", "Declarations and scopes bind names as in C",
     "Every declarator denotes the type the C grammar gives it, and each use of an identifier refers to the innermost visible declaration in the right name space (ordinary, tag, label, member), whatever the shadowing by blocks, parameters, typedef names, enumerators and tags. Leaving a scope restores the outer meaning.",
     ["programs", "histories"], "all declarators up to a size; all scope/declaration sequences up to a length",
     "Name resolution is a function of a history of declarations and scopes; tests have few nestings.",
     ["src/parser/declaration.c", "src/parser/symbols.c", "src/parser/expression.c"],
     [("symbol scopes", "src/parser/symbols.c"), ("declarator parsing", "src/parser/declaration.c")],
     ["values and types selected by compiled code"], "scopes", level="model_checking",
     tech="explicit-state model of scopes and name spaces, all event sequences up to a depth replayed on the compiler; all declarators compared with gcc",
     note="All scope event sequences up to the stated length, each replayed; declarators exhaustive up to the stated size.")
prop("C19", "Each file compiles alone and reproducibly",
     "The output for a source file is a function of that file, its includes and the options only: it does not depend on which other files precede it in the same invocation, nor vary between runs, nor with the output path. Includes, include guards, #pragma once, __FILE__, __LINE__, __COUNTER__-like predefined macros and -MD dependency output name the right files and lines.",
     ["histories", "configurations"], "all sequences of files up to a length over a set of state-carrying files, all include graphs up to a size",
     "State leaking from one translation unit to the next depends on the history of files; tests compile one file per run.",
     ["src/main.c", "src/preprocessor/preprocessor.c", "src/preprocessor/input.c", "src/preprocessor/string_concat.c", "src/codegen/rodata.c", "src/parser/symbols.c"],
     [("reset between files", "src/main.c")],
     ["object and -E output bytes"], "multifile", tech=EX + " of file sequences; each output compared with a fresh process",
     note="All file sequences up to the stated length over the alphabet; fresh-process output is the oracle.")
prop("C20", "Invalid programs are rejected, valid ones are not",
     "A translation unit that violates a syntax rule or constraint this compiler checks is reported with a non-zero exit status and no output presented as success, and a valid one is never rejected. Whatever the token sequence, the compiler ends by itself with a diagnosis or a result: it neither crashes on a signal nor hangs.",
     ["inputs"], "all token sequences up to a length over an alphabet, all single-token edits of valid programs",
     "Error paths are entered by the unbounded set of malformed inputs, of which tests hold a few.",
     ["src/parser", "src/preprocessor", "src/common.c", "src/main.c"],
     [("ERROR/ICE/TEXPECT", "src/common.c")],
     ["exit status"], "reject", tech=EX + " of short token sequences and single-token edits; acceptance compared with gcc",
     note="Exhaustive over sequences/edits within bounds. Over-acceptance is judged only for categories listed in DESIGN.md.")
prop("C21", "Local storage: sizes, alignment and lifetimes are right",
     "Every automatic object, including variable length arrays, over-aligned objects and objects in loops, nested blocks and recursion, has its declared size and alignment, does not overlap any other live object, and keeps its value during its lifetime, whatever the frame size or the calls made meanwhile.",
     ["programs", "histories"], "all sequences of block entries, declarations, calls up to a length x object sizes",
     "Overlap and misalignment depend on combinations of sizes and nesting depth that tests do not vary.",
     ["src/codegen/codegen.c", "src/ir/ir.c", "src/parser/function_parser.c", "src/parser/declaration.c"],
     [("stack frame allocation, IR_VLA_ALLOC", "src/codegen/codegen.c")],
     ["addresses and contents of live objects"], "stack", tech=EX + " of declaration/scope sequences with overlap monitors",
     note="Exhaustive over sequences up to the stated length and the size alphabet.")
prop("C22", "Windows targets: the LLP64 data model and COFF objects",
     "With -fabi=ms -fmingw-workarounds the compiler follows the data model of Windows (long has 32 bits, wchar_t 16, size_t and ptrdiff_t 64) in every type, size, layout, conversion, literal and constant, and the COFF objects it writes link with those of the mingw tools, in any number of symbols and relocations, into programs that behave as C defines.",
     ["programs", "configurations"], "operators x types x values; struct member sequences; declaration sequences; call signatures; counts of symbols and relocations, compiled for Windows",
     "The tests compile a few dozen programs for Windows and check only that they exit with 0; a type that is wrong only where long and int have one size, or a table that overflows, shows in none of them.",
     ["src/linker/coff.c", "src/abi/microsoft.c", "src/arch/x64.c", "src/parser/expression.c", "src/preprocessor/string_concat.c"],
     [("COFF writer: sections, symbols, relocations, string table", "src/linker/coff.c"), ("abi_info and sizes of simple types", "src/abi/microsoft.c")],
     ["results, sizes and types computed by programs run under wine", "symbols and references after linking with the mingw linker"], "windows",
     tech=EX + " of expressions, types, layouts, declaration sequences and call signatures compiled for Windows and run under wine, against the mingw compiler and a model of C's arithmetic",
     note="Exhaustive within the stated bounds; the mingw compiler is the reference, wine stands for Windows.")

prop("C23", "Input and output that fails is an error, never wrong output",
     "Whichever file operation of a run fails, in whatever way (a file that can't be opened, read or written, a full disk, a torn write, an error at close, a truncated object given to the linker), the run ends with a non-zero exit status and a message, not by a signal, or its outputs are exactly those of the run without the failure; short transfers change nothing.",
     ["crash points", "fault histories"], "every file operation of a run x every kind of fault, singly and in pairs, x stream buffer sizes x modes (-c, -S, -E, -MD, linking) and programs; every prefix of an object",
     "No test makes an operation fail; a build that goes on with an object cut short by a full disk gives programs that are wrong without any message.",
     ["src/common.c", "src/linker/elf.c", "src/linker/coff.c", "src/assembler/assembler.c", "src/preprocessor/input.c", "src/preprocessor/directives.c", "src/main.c"],
     [("file_open, file_close, file_write", "src/common.c"), ("input_create", "src/preprocessor/input.c"), ("elf_read, elf_write", "src/linker/elf.c")],
     ["exit status, messages and output files"], "faults",
     tech="model checking of the implementation by fault injection: exhaustive enumeration of the positions and kinds of failing file operations in every run (LD_PRELOADed cookie streams); outcome compared with the fault-free run",
     note="Exhaustive over operations and kinds of faults, up to two per run, for the stated programs, modes and buffer sizes.")


prop("C24", "Non-local jumps keep every object that C says they keep",
     "However longjmp is reached (directly, from callees of any depth, from inside argument lists, expressions, blocks with variable length arrays or another setjmp's frame), control comes back as if setjmp had returned the value given (1 for 0), in every form of expression that C allows setjmp in, and every object has the value C defines: volatile, static and unmodified automatic objects and parameters keep theirs, any number of times.",
     ["programs", "histories"], "objects x forms of setjmp x ways to longjmp x all sequences of decisions (end, jump, what is changed before, value given)",
     "A local kept where longjmp does not restore it is wrong only after a jump that follows a change; no test calls longjmp.",
     ["src/optimize/mem2reg.c", "src/parser/declaration.c", "src/abi/sysv.c", "src/codegen/codegen.c"],
     [("mem2reg: which objects may leave memory", "src/optimize/mem2reg.c"), ("saved registers and stack pointer", "src/abi/sysv.c")],
     ["values of objects and of setjmp after every return"], "nonlocal",
     tech="model checking of the implementation: exhaustive enumeration of jump histories (depth-first over decision sequences) of generated programs, monitored by a model of the objects",
     note="Exhaustive over decision sequences up to the stated depth and the program alphabet.")
prop("C25", "Accesses to volatile objects are those of the abstract machine",
     "Every read and write of a volatile object that the source program makes is made by the compiled one, exactly once, with the width of the object and in an order that C's sequencing rules allow, in every expression, statement, initialiser and control structure; no other access to it is made.",
     ["programs", "executions"], "volatile lvalues x operations x contexts; all sequences of statements; expression trees; loops, with the accesses observed by page faults",
     "An access made twice, left out or moved changes no result that a test prints, only what a device or a signal handler sees.",
     ["src/parser/expression_to_ir.c", "src/ir/ir.c", "src/ir/global_code_motion.c", "src/optimize/mem2reg.c", "src/codegen/codegen.c"],
     [("evaluation of lvalues, assignments and conditions", "src/parser/expression_to_ir.c"), ("IR_LOAD, IR_STORE, state edges", "src/ir/ir.c")],
     ["the sequence of memory accesses to volatile objects"], "volat", level="model_checking",
     tech="model checking: a partial order model of the accesses of every program; every observed trace of the compiled code (protected pages, single steps) must be one of the model's linear extensions; the model is validated against another compiler's traces",
     note="Exhaustive over the stated programs; every trace is decided against all orders of the model.")


def emit():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["script"] and os.path.exists("%s/checks/%s.py" % (V, p["script"])):
            checks.append({"property": p["pid"], "quick_cmd": "python3 checks/%s.py" % p["script"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["script"],
                           "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["tech"],
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["pid"], "reason": p["na"] or "no check built yet"})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": "Every check builds the compiler from /repo/src's working tree (into /verif/build, keyed by content) and explores a bounded space exhaustively. No hooks in /repo are needed."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    emit()
