HEAD = """# Static verification of the Headerless C Compiler (hlc)

(Generated by tools/mkdesign.py from tools/design.py, tools/props.py, known_findings.json and seeded/.)

## 1. What is analysed, and how

hlc is one translation unit (`src/main.c` includes every other file). What a user relies on is that the machine code, the data and
the diagnostics it produces are the ones the C standard and the Microsoft x64 ABI prescribe, for every program. The test suite
compiles about 380 programs. The properties C01 to C27 cut the path from source text to machine code at the interfaces between its
passes (tokens, typed intermediate code, bytes of machine code, type and initializer records) and state for each pass that
its output means what its input means, for all values, types, operators, places and layouts.

Everything is decided from the source: no code of /repo is executed, neither concretely nor by an instruction emulator, and no path
condition is handed to a solver.

*Engine* (`engine/absint.cpp`, built by setup.sh against LLVM 18). It is an abstract interpreter for LLVM IR. `lib/sa.py` compiles
/repo's current `src/main.c` with clang to LLVM IR (nothing is linked or run), together with a small harness from
`harness/` that names the abstract inputs (symbolic values with ranges, unknown pointers, token templates) and the facts to report
(`__sa_obs`). The domain is a product of: constants and symbolic terms (hash-consed, normalised), known bits, intervals, pointers to abstract objects
with symbolic offsets, and guarded values at joins: when control flow joins, states are merged, values become selections over the branch
condition, and the condition under which a report is made is kept as a term. Loops are followed while their exit conditions are decided
by the state, with a budget; everything outside the domain becomes *unknown* and an unknown that reaches a reported fact makes the obligation
*undecided*, never *violated*. Calls are followed (to recursion depth 14), functions named in a job's `prune` list end the path and are
reported with their guard (this is how "an error is diagnosed" is observed), functions in `skip` have no effect, and `stub` replaces a
function by an abstract summary from the harness.

*Judging* (`lib/sx.py`, `lib/exprcheck.py`, `lib/tysem.py`, `lib/initsem.py`, `lib/besem.py`). The reported terms are compared with a specification written for this
purpose: first by normal form; where normal forms differ, both terms are compared on the boundary classes of their variables (0, 1, -1, the limits
and neighbours of every width involved, halfway cases of floats, all bit-field widths, ...). A difference at one class is a violation, with the site,
the template and the class; agreement on the classes counts as decided *on these classes* and is reported as such in the evidence, and is the main soundness limit (see 7).

*Machine code* (`engine/disasm.cpp`, LLVM's MC disassembler; `lib/x86sem.py`). For the back end the reported fact is the byte
sequence that the code generator appends for one template of IR operations, with symbolic displacements and immediates. The bytes are decoded, and the
effect of the instructions on registers, flags and memory is derived by a semantic table as terms, which are compared with the meaning of the IR.

A check exits 0 when every obligation is decided as holding or undecided (the undecided ones are counted and sampled in the evidence), 1 with a
VIOLATION line for a definite difference, and 2 when an anchor has vanished (a function that is to be analysed does not exist, or a template class has no
instances): then the analysis does not apply to the tree and says so.

## 2. Trusted base

clang's front end and LLVM's disassembler; the engine; the C, ABI and instruction semantics written in `lib/` (the layout rules were compared
with clang's Microsoft record layout on 8,000 generated records when they were written); the stand-ins in `harness/`, each named in the assumptions of the evidence file.
"""
E = "C11 rules written in lib/cspec.py and lib/irsem.py (conversions, promotions, result types, value of each IR operation)"
B = "meaning of the IR operations (lib/irsem.py, lib/besem.py), x64 semantics of the decoded instructions (lib/x86sem.py)"
HOW = {
"C01": ("parse_expression and everything it calls (folding, promotions, push_cast) on every operator template over literals with symbolic values", E, "one to three operators; long double excluded; division by zero and negative float to unsigned are diagnosed by design", "20 s"),
"C02": ("parse_expression on every operator and pair of operand types; the emitted IR is read back from the arena as a term", E, "one operator with casts; operands are variables, loads and constants", "20 s"),
"C03": ("parse_expression on every assignment operator and pair of types", E, "variables as destinations (bit-fields: C07, pointers: C06, memory: C10)", "15 s"),
"C04": ("parse_expression on casts, unary operators, conditional expressions", E, "nesting two", "20 s"),
"C05": ("parse_expression on all pairs of operators, with symbolic operands", "the C grammar: the grouping is derived from the precedence table of the standard", "two operators, unary combinations, ?: and assignment contexts", "15 s"),
"C06": ("parse_expression, handle_pointer_arithmetic on pointer operands with element sizes 1 to 4097", E, "flat 64 bit addresses", "10 s"),
"C07": ("parse_expression on bit-field members, all widths and positions", E, "single member access per operation", "20 s"),
"C08": ("the cases of the IR operations in emit_x64.c with operands in registers, stack slots, globals, constants, behind pointers", B, "one to three operations per template; register pressure sampled", "90 s"),
"C09": ("comparison, conversion and truth operations of emit_x64.c", B, "as C08", "100 s"),
"C10": ("stores, compound assignments, increments, bit-field and atomic stores of emit_x64.c", B + "; footprint of every memory access", "as C08", "150 s"),
"C11": ("operand encoding, member, subscript and copy operations of emit_x64.c, displacements symbolic within each encoding class", B, "struct sizes 1 to 257", "40 s"),
"C12": ("call, return, prolog and epilog code of emit_x64.c", "Microsoft x64 calling convention (lib/besem.py)", "0 to 9 arguments, struct sizes to 257; unwind data not decided", "60 s"),
"C13": ("jump, switch and conditional value code of emit_x64.c", B + "; the set of (condition, target) pairs must partition as the IR prescribes", "up to 4 cases per switch, back edges cut at the label", "30 s"),
"C14": ("static_if_evaluate (preprocess.c) on token templates with symbolic literals", "C11 6.10.1: the same operator rules in intmax_t/uintmax_t", "up to four operators; macro expansion and defined() outside", "10 s"),
"C15": ("the literal parsers and escape conversion of preprocess.c and the literal cases of parse_expression, with symbolic digits and bytes", "C11 6.4.4 and 6.4.5 for a 16 bit wchar_t, utf-8 source", "spelling lengths fixed per template", "70 s"),
"C16": ("parse_declaration_specifiers, parse_declarator on token templates; the resulting type records are walked", "C11 6.7 (tysem.Reader.report)", "five type words, declarator depth three", "50 s"),
"C17": ("struct and union definitions in parse_declaration_specifiers, with symbolic widths and array lengths", "Microsoft record layout (tysem.Reader.compound)", "nesting depth three, 16 literals", "50 s"),
"C19": ("worker_parse_function, parse_statement, parse_imperative_scope, parse_declaration_list and the declaration tables, on function bodies given as tokens (parse_expression replaced by single names and literals)", "an independent reader of C statements (lib/stmtsem.py); simulation of the two control flow graphs along all paths", "nesting depth about 12; 3250 bodies quick, some 30000 thorough", "30 s"),
"C18": ("parse_initializer, parse_initializer_list, evaluate_static_initializer on generated types and initializers with symbolic values", "C11 6.7.9 (lib/initsem.py)", "24 values, nesting depth three", "60 s"),
"C20": ("the whole preprocessor (tokenize_raw, handle_directive, expand_define, file_tokenize_and_preprocess; only file access, formatting and reservation of memory replaced) on generated units", "C11 6.10.3 (class Reader in lib/preproc.py)", "units up to 1500 bytes", "35 s"),
"C21": ("as C20, on units of conditional groups, inclusions and definitions over up to four files", "C11 6.10.1, 6.10.2 (class Reader and cond in lib/preproc.py)", "units up to 1500 bytes, nesting depth four", "55 s"),
"C22": ("tokenize_raw with its tables and vectorised loops on texts of up to 2000 bytes", "maximal munch (lines_of in lib/preproc.py)", "all punctuation triples; random texts", "20 s"),
"C23": ("the whole program as LLVM IR: every function that can record an error, every test and store of the error flags, every CreateFile for writing, every exit", "the rules in checks/check_C23.py: no path carries a pending error past the end of its work item or phase, none opens an output with the flag unchecked, reporters set the flag on every path", "all paths (no bound; calls summarised)", "3 s"),
"C24": ("the whole program as LLVM IR, functions reachable from the thread procedure", "locksets, publication states and primitive shapes (checks/check_C24.py)", "all paths (no bound; places told apart by global and field)", "3 s"),
"C25": ("print_coff (coff_writer.c) on program tables (harness/lk.c): objects of every kind with symbolic contents and references with symbolic offsets; the bytes given to WriteFile are read back", "an independent PE loader (lib/imgsem.py: headers, sections, rights, imports, exports, TLS, base relocations, unwind data)", "nine program shapes, images up to 64 KiB", "25 s"),
"C26": ("print_obj (obj_writer.c) on program tables (harness/lk.c), the codeview emission replaced; the bytes given to os_write_file are read back", "an independent COFF reader (check_object in lib/imgsem.py: sections, symbols, relocations with addends, unwind data)", "eight program shapes, files up to 64 KiB", "10 s"),
"C27": ("ar_parse_file, ar_lookup_symbol and lookup_declaration_in_libraries (harness/lb.c; file access, messages and extraction from objects replaced) on archives given as bytes with symbolic ordinals", "the archive builder and Case.expect in lib/libsem.py, made from the format, not from the code", "56 sets of libraries, a third of them malformed; reads outside of a file show as unreadable values", "2 s"),
}
CAUGHT = {}
BUGS = """
Each bug was confirmed with tools/plant.sh (applies, builds, the 381 stable tests pass, demo fails with it and passes without) and the check named exits 1 with it.
Besides these, mutants of the anchored functions (one token changed, tools/mutate.py) that pass all tests were run against the checks to find blind spots.
"""
TAIL = """
Recorded and not repaired (known_findings.json, status "known"; printed as KNOWN-FINDING): the truth of -0.0 held in memory and the conversion of a float of at least 2^63 to
unsigned 64 bit (C09). Both need a new code sequence in the code generator.

Noticed, outside of the checked statements: `static` data race when the type table grows while another thread sleeps on it; `//` comments continued by a backslash;
a designator that overrides a whole subobject does not reset the rest of it; the address of a function declared inside a function is rejected in static
initializers; object files: the handlers of `__try` have no relocations and functions inside functions are not written; a wide string may share the odd-aligned bytes of a narrow one
in executables; qualifiers after `*` are ignored; `\\U` beyond 10FFFF in a wide string fails an assertion.

## 7. False alarms corrected, limits

- Terms that differ syntactically were first reported; now only a difference on a value class counts.
- Two planted bugs turned out to change no behaviour (c12_big_return_argument_area, c15_utf8_three_byte_mask) and were removed.
- C17 first counted an unnamed bit-field's alignment in unions as Microsoft's compiler does; clang's layout differs there, so the statement leaves it open.
- C18 treats as open what compilers accept with a warning (integers for pointers, strings among several initializers of an array).
- Agreement on value classes is not a proof for all values: a bug that concerns a single value far from every boundary would be missed where the normal forms differ.
- Templates are small: interactions of many live values (spilling), whole-function effects (jump distance, stack size) and the linker are outside of what is decided.
"""
