AI = "abstract interpretation of the compiler's own LLVM IR (constant/known-bits/symbolic-value domain) on every operator/type template, against the C conversion and operator rules"
AIN = "Terms are compared by normal form; where the normal forms differ, on the boundary classes of the operand types. Templates have one to three operators; larger expressions are composed by the same code."
BE = "abstract interpretation of the code generator's own LLVM IR on one template per IR operation, operand place and type; the bytes it appends are decoded and their effect on registers, flags and memory is compared with the meaning of the IR operations"
BEN = "The decoded instructions are judged by a table of x64 semantics written for this purpose; terms are compared by normal form, else on boundary classes of the values. Templates contain one or a few operations; spilling under register pressure is sampled."
PROPS = [
 dict(id="C01", title="Constant expressions mean what C says and never trap the compiler",
  statement="Whatever values the operands have, an operator, cast or conditional applied to integer and floating point constants is replaced by a constant of the type C prescribes with the value the operation would have at run time. The compiler rejects such an expression only when its value is undefined (a division by zero, an out of range shift, a negative floating point constant converted to an unsigned type), and evaluating it never divides in a way that traps in the compiler.",
  over=["inputs", "programs"], quant="all binary, unary, cast and conditional operators, all pairs of arithmetic types, all operand values",
  why="The tests fold a few dozen literal values; wrap-around, sign changes and trapping divisions sit at particular values of particular type pairs.",
  files=["src/parse.c"], mech=[("constant folding of integers", "src/parse.c perform_integer_operation"), ("constant folding of floats", "src/parse.c perform_float_operation"), ("conversion of constants", "src/parse.c push_cast"), ("unary and shift folding", "src/parse.c parse_expression")],
  technique=AI, note=AIN),
 dict(id="C02", title="Binary operators select the typed operation C prescribes",
  statement="A binary arithmetic, bitwise, shift, comparison or logical operator with at least one variable operand is given the type C prescribes, and the intermediate operations handed to code generation (conversions of both operands, the operator's width and signedness, short-circuit jumps) compute the C value for all values of the operands. Its operands are not modified, and no valid operand combination is rejected.",
  over=["inputs", "programs"], quant="all operators, all pairs of arithmetic types, variable/variable, variable/constant and constant/variable operands, all values",
  why="Tests sample some type pairs; the conversion tables have an entry for each pair and operator.",
  files=["src/parse.c", "src/ir.h", "src/main.c"], mech=[("usual arithmetic conversions", "src/parse.c perform_usual_arithmetic_conversions, maybe_insert_arithmetic_conversion_casts"), ("integer promotions", "src/parse.c maybe_insert_integer_promotion_cast"), ("operator selection", "src/parse.c parse_expression"), ("cast selection table", "src/parse.c push_cast")],
  technique=AI, note=AIN),
 dict(id="C03", title="Assignments and compound assignments store the value C prescribes",
  statement="For a variable of any arithmetic type, =, op=, ++ and -- store exactly the value C prescribes (the operation performed in the common converted type of both operands, then converted to the type of the variable) and yield the stored value, or the old one for the postfix forms. The compiler rejects such an expression only for a constant zero divisor, a negative floating point constant assigned to an unsigned variable, or arithmetic compound assignment to _Bool.",
  over=["inputs", "programs"], quant="all assignment operators, all pairs of arithmetic types, variable and constant right hand sides, all values",
  why="Shortcuts that compute in the type of the left hand side agree with C for most values; the tests contain few mixed-signedness or mixed-size cases.",
  files=["src/parse.c"], mech=[("compound assignment selection", "src/parse.c parse_expression, AST_*_assignment"), ("general form of compound assignment", "src/parse.c punt_compound_assignment"), ("increment and decrement", "src/parse.c parse_expression")],
  technique=AI, note=AIN),
 dict(id="C04", title="Casts, unary operators and ?: on variables are typed and lowered as in C",
  statement="A cast between any two arithmetic types, a unary + - ~ ! and a conditional expression with operands of any arithmetic types has the type C prescribes, and the intermediate operations handed to code generation compute its C value for every value of its operands. Only the selected branch of a conditional expression provides the value, after conversion to the common type.",
  over=["inputs", "programs"], quant="all pairs of arithmetic types, constant and variable conditions and branches, all values",
  why="Tests sample a few casts; the selection is a table of one entry per type pair.",
  files=["src/parse.c"], mech=[("cast selection table", "src/parse.c push_cast"), ("conditional expressions", "src/parse.c parse_expression, AST_conditional_expression"), ("unary operators", "src/parse.c parse_expression")],
  technique=AI, note=AIN),
 dict(id="C05", title="Operators group by C precedence and associativity",
  statement="In an expression of two binary operators, or a unary and a binary operator, or a binary operator in the condition of ?:, the operators are applied in the grouping that C's precedence and associativity rules prescribe, for constants and for variables. The whole expression is consumed.",
  over=["programs"], quant="all pairs of binary operators, all unary/binary pairs on either side",
  why="There are several hundred operator pairs; the tests use a small part of them and most pairs agree for common values.",
  files=["src/parse.c"], mech=[("precedence stack", "src/parse.c parse_expression, operator_precedence and ast_stack handling")],
  technique=AI, note=AIN),
 dict(id="C06", title="Pointer arithmetic scales, compares and subtracts as in C",
  statement="Adding an integer of any type to a pointer, or subtracting it, moves the pointer by that many elements (whether the pointer or the integer is a constant or a variable, including negative integers); ++ and -- move it by one element. The difference of two pointers is the signed number of elements, comparisons are unsigned comparisons of the addresses with an int result, and logical operators test for the null address.",
  over=["inputs", "programs"], quant="all integer types, constant and variable operands, element sizes 1 to 4097 bytes, all values",
  why="Negative differences, unsigned indices and constant base addresses are rare in the tests.",
  files=["src/parse.c"], mech=[("pointer plus integer", "src/parse.c handle_pointer_arithmetic"), ("pointer differences and comparisons", "src/parse.c parse_expression")],
  technique=AI, note=AIN),
 dict(id="C07", title="Bit-fields are read, written and converted as in C",
  statement="Reading a bit-field yields its sign- or zero-extended value in the promoted type, and assignment, compound assignment, ++ and -- store the C value truncated to the field and leave all other bits of the storage unit unchanged, in the intermediate operations handed to code generation. This holds for every operand value.",
  over=["inputs", "programs"], quant="bit-fields of all base types, 23 positions and widths; all assignment operators; integer right hand sides; all values",
  why="Tests use a handful of fields and small positive values.",
  files=["src/parse.c"], mech=[("bit-field loads", "src/parse.c maybe_insert_cast_from_special_int_to_int"), ("compound assignment", "src/parse.c punt_compound_assignment"), ("stores", "src/parse.c parse_expression")],
  technique=AI, note=AIN),
 dict(id="C08", title="Generated machine code computes arithmetic, bitwise and shift operations correctly",
  statement="For every intermediate arithmetic, bitwise, shift, negate, not and floating point operation, and for operands in every place the compiler supports (locals near and far, parameters in registers and on the stack, globals, dllimports, thread locals, dereferenced pointers, members, array elements, constant addresses, literals, computed values), the emitted x64 instructions compute the value the operation denotes. They change no variable, callee-saved register or other memory.",
  over=["inputs", "programs"], quant="all operations, operand types and pairs of operand places, all operand values",
  why="The operand places, sizes and literal encodings combine to thousands of instruction selections; tests run a few of them with few values.",
  files=["src/emit_x64.c"], mech=[("instruction selection", "src/emit_x64.c emit_binary_op__internal, emit_divide_or_mod_or_multiply__internal, emit_code_for_function__internal"), ("addressing", "src/emit_x64.c emit_get_location..., emit__bytes"), ("register allocation", "src/emit_x64.c allocate_register, emit_load_gpr")],
  technique=BE, note=BEN),
 dict(id="C09", title="Generated machine code compares, tests and converts values correctly",
  statement="For every comparison, logical not, conversion to _Bool, conditional jump and conversion between arithmetic types, for operands in every place, the emitted instructions produce the C result for all values, including NaN, infinities, negative zero, and values at the limits of each type. This holds whether the result is used as a value or as the condition of a jump, with either sense.",
  over=["inputs", "programs"], quant="all comparison and conversion operations, types, operand places and uses of the result; all values",
  why="Unordered floats, signed against unsigned limits and byte registers matter only for particular values and places.",
  files=["src/emit_x64.c"], mech=[("comparisons", "src/emit_x64.c emit_compare..., COMP_*"), ("conditional jumps", "src/emit_x64.c IR_jump_if_true, IR_jump_if_false"), ("conversions", "src/emit_x64.c IR_cast_*")],
  technique=BE, note=BEN + " Two known findings: the truth of -0.0 in memory, and float to unsigned 64 bit conversions from 2^63."),
 dict(id="C10", title="Generated machine code stores exactly the assigned object",
  statement="Stores, compound assignments, increments, decrements and bit-field stores, for destinations in every place and values from every place, write exactly the bytes (or bits) of the destination with the value the operation denotes and no other memory, and yield the value C prescribes when the result is used. Operations on atomic objects are single locked instructions or locked sequences.",
  over=["inputs", "programs"], quant="all store operations, types, destination and value places, bit-field positions, uses of the result; all values",
  why="A wrong operand size or displacement overwrites a neighbour that tests rarely look at.",
  files=["src/emit_x64.c"], mech=[("stores", "src/emit_x64.c emit_store, IR_store"), ("compound assignments", "src/emit_x64.c emit_compound_assignment__internal and related"), ("increments", "src/emit_x64.c IR_preinc_*, IR_postinc_*"), ("bit-fields", "src/emit_x64.c emit_load_bitfield, emit_store_bitfield"), ("atomics", "src/emit_x64.c emit_store_atomic_integer")],
  technique=BE, note=BEN),
 dict(id="C11", title="Generated machine code addresses objects, members and elements exactly",
  statement="For objects in every place, and for chains of members, subscripts and dereferences with constant and variable indices, the emitted code accesses exactly the address that the C expression denotes, whatever the displacement and the element size. Struct copies, initializers and compound literals copy every byte of the object and nothing else.",
  over=["inputs", "programs"], quant="all object places, displacements around every encoding limit, element sizes 1 to 4097, index kinds, struct sizes 1 to 257; all values of pointers and indices",
  why="Displacement and scale encodings change at particular offsets and sizes that tests seldom hit.",
  files=["src/emit_x64.c"], mech=[("operand encoding", "src/emit_x64.c emit_register_relative__internal"), ("members and subscripts", "src/emit_x64.c IR_member, IR_member_deref, IR_array_subscript, IR_pointer_subscript"), ("struct copies", "src/emit_x64.c emit_memcpy, emit_store"), ("initializers", "src/emit_x64.c IR_initializer, IR_compound_literal")],
  technique=BE, note=BEN),
 dict(id="C12", title="Generated calls, entries and exits follow the x64 Windows calling convention",
  statement="A call passes every argument (integers, floats, pointers, structs of any size, variable arguments, also the implicit address of a returned struct) in the register or stack slot the Microsoft x64 convention assigns to it, with the callee's shadow space below and a 16 byte aligned stack pointer, evaluates the callee and arguments before the call, and takes the result from where the convention puts it. A function finds its parameters there, returns its value there and preserves all callee-saved registers. Values that live across a call keep their value.",
  over=["inputs", "programs"], quant="argument counts 0 to 9, all argument types and positions, struct sizes 1 to 257, places of arguments and callees; all values",
  why="The convention has many type, size and position combinations; the tests call mostly functions compiled by the same compiler, where a consistent mistake is invisible.",
  files=["src/emit_x64.c"], mech=[("calls", "src/emit_x64.c IR_function_call"), ("prolog and epilog", "src/emit_x64.c emit_code_for_function"), ("returns", "src/emit_x64.c IR_return"), ("spilling over calls", "src/emit_x64.c spill_all_allocated_volatile_registers")],
  technique=BE, note=BEN),
 dict(id="C13", title="Generated jumps, switches and conditional values keep control flow and live values",
  statement="For conditional and unconditional jumps in both directions, switch statements over every integer type with cases at any constants, and the value-producing conditional operations (&&, ||, ?: as lowered by the parser), the emitted code reaches exactly the label the operations select for every value of the controlling expression, stores nothing on the way, and every value computed before is intact on each path.",
  over=["inputs", "programs"], quant="all controlling types and places, numbers of cases, case constants around every encoding limit, fall-through and back edges; all values",
  why="A wrong immediate width or a register saved on one path only shows for specific case constants or register loads.",
  files=["src/emit_x64.c"], mech=[("switches", "src/emit_x64.c IR_switch, IR_case"), ("jumps", "src/emit_x64.c IR_jump, IR_jump_if_true, IR_jump_if_false, IR_jump_label"), ("values over joins", "src/emit_x64.c IR_temp, spill_all_allocated_volatile_registers")],
  technique=BE, note=BEN),
 dict(id="C14", title="#if and #elif expressions are evaluated as C prescribes",
  statement="The controlling expression of #if and #elif is evaluated in 64 bit signed and unsigned arithmetic with C's operators, precedence, associativity and signedness rules, for all operand values; it is rejected only for a division by zero or a syntax error, all of its tokens are consumed, and evaluating it never traps in the compiler.",
  over=["inputs", "programs"], quant="all unary, binary and conditional operators, all pairs and many triples of operators with parentheses, all literal suffixes and value classes",
  why="The tests contain a few dozen #if expressions, nearly all with small positive values.",
  files=["src/preprocess.c"], mech=[("evaluation stack", "src/preprocess.c static_if_evaluate")],
  technique=AI, note="Templates contain up to four operators; identifiers, defined and macro expansion are outside."),
 dict(id="C15", title="Integer, character and string literals have the value and type C prescribes",
  statement="Every decimal, octal, hexadecimal and binary literal has the value of its digits (overflow is diagnosed exactly when it occurs) and the type its suffix and value select; every character constant and string literal, with any prefix, escape sequence or utf-8 character, has the elements, terminator, length and element type C and the target's 16 bit wchar_t prescribe, also where adjacent strings are joined and where a character constant stands in #if.",
  over=["inputs", "programs"], quant="all digit values at lengths up to the overflow limit and beyond, all suffixes, all escapes with all digit values, all code points, all prefixes",
  why="Limits and encodings fail for single digit positions or code point ranges; the tests contain few of them.",
  files=["src/preprocess.c", "src/parse.c"], mech=[("numbers", "src/preprocess.c parse_base10_literal, parse_hex_literal, parse_octal_literal, parse_binary_literal"), ("escapes and encodings", "src/preprocess.c escape_and_convert_string_array, parse_character_literal"), ("types", "src/parse.c parse_expression literal cases")],
  technique=AI, note="Digits and bytes are symbolic within a spelling of fixed length; the tokenizer's delimiting of literals is outside."),
 dict(id="C16", title="Declarations give every name the type C prescribes",
  statement="For every sequence of declaration specifiers (storage class, qualifiers, sign and size words in any order, typedef names, _Atomic, __declspec, structs, unions and enums) and every declarator (pointers, arrays, functions and parentheses in any nesting, abstract or named) the declared name gets exactly the type, size and alignment the C rules prescribe: parameters of array and function type are adjusted, array lengths and enumerators have their constant values, enumerators continue from their predecessor. Sequences that form no type are rejected, and valid ones never are.",
  over=["inputs", "programs"], quant="all combinations of up to five type words, all declarator shapes of nesting depth three, symbolic array lengths and enumerator values",
  why="There are thousands of combinations of type words and declarator operators; a test uses a handful.",
  files=["src/parse.c", "src/main.c"], mech=[("specifiers", "src/parse.c parse_declaration_specifiers"), ("declarators", "src/parse.c parse_declarator"), ("array sizes", "src/main.c patch_array_size"), ("enums", "src/parse.c parse_declaration_specifiers, TOKEN_enum")],
  technique=AI, note="At most 158 tokens; constant expressions and typedef lookup are replaced by stand-ins."),
 dict(id="C17", title="Structures, unions and bit-fields have the layout of the Microsoft x64 ABI",
  statement="Size and alignment of every struct and union, and offset, type, first bit and width of every member (also members of nested anonymous structs and unions, unnamed and zero-width bit-fields, arrays, under #pragma pack, __declspec(align) and packed) are those of the Microsoft x64 ABI, so that objects can be shared with code of other compilers. Bit-fields wider than their type are rejected.",
  over=["inputs", "programs"], quant="all pairs of member types under every packing, all pairs of bit-field types with all widths, generated definitions up to nesting depth 3; symbolic widths and array lengths",
  why="Layouts depend on the combination of neighbouring members and widths; both sides of a test compiled by the same compiler agree on a wrong layout.",
  files=["src/parse.c", "src/main.c"], mech=[("member placement", "src/parse.c parse_declaration_specifiers, struct and union"), ("members of anonymous members", "src/main.c register_compound_member"), ("array sizes", "src/main.c patch_array_size")],
  technique=AI, note="Left open: alignment of unions with bit-fields, explicit alignment below the natural one or inside packed types, empty structs."),
 dict(id="C18", title="Initializers give every subobject the value C prescribes",
  statement="For every object type and every initializer (nested braces and left out braces, designators of any depth in any order, members of anonymous structs and unions, strings, bit-fields, arrays of unknown length, objects of struct type) each value is assigned to exactly the subobject that the C rules select, converted to its type, arrays of unknown length get the right length, and static objects contain exactly the bytes and addresses these assignments give with everything else zero. Initializers with too many values or wrong designators are rejected.",
  over=["inputs", "programs"], quant="generated types up to nesting depth 3 with initializers of up to 24 symbolic values, automatic and static objects",
  why="The current object after a designator or a left out brace depends on the whole type; tests contain few combinations.",
  files=["src/parse.c", "src/main.c"], mech=[("current object", "src/parse.c parse_initializer_list"), ("whole initializers", "src/parse.c parse_initializer"), ("static objects", "src/main.c evaluate_static_initializer")],
  technique=AI, note="Left open: a subobject initialized twice in different ways, flexible array members, integers as initializers of pointers."),
 dict(id="C19", title="Statements run in the order and under the conditions C prescribes; names denote the innermost declaration",
  statement="For every function body made of expression statements, declarations, blocks, if, while, do, for, switch with case and default labels (anywhere inside it), break, continue, goto, labels and return, the references, branches and jumps handed to code generation follow, along every path, the order C prescribes: loops test and step where they should, break and continue leave or continue the innermost loop or switch, cases are selected by their value converted to the promoted type of the operand and fall through, main returns 0 at its end. Every name denotes the object, enumerator or type of the innermost declaration that is in scope at that point (a declaration is in scope in its own initializer, parameters and the declaration of a for statement included, extern declarations denote the global), however many names a scope has. Bodies that C forbids (break, continue, case, default, else out of place, duplicate cases, defaults or labels, undefined labels or names, missing punctuation) are rejected and valid ones are not. Automatic objects of a function occupy disjoint, aligned storage inside its frame.",
  over=["inputs", "programs"], quant="all nestings of two compound statements around every way out, selected bodies about scopes and labels, several thousand generated bodies and damaged variants of them",
  why="Combinations of nested loops, switches, labels and shadowed names are unlimited; the tests contain a few dozen.",
  files=["src/parse.c", "src/main.c"], mech=[("statements", "src/parse.c parse_statement, parse_imperative_scope"), ("function bodies, labels and gotos", "src/main.c worker_parse_function"), ("scopes", "src/main.c lookup_declaration, parser_register_declaration_in_scope, lookup_compound_type"), ("storage", "src/main.c parser_emit_memory_location")],
  technique="abstract interpretation of the compiler's own LLVM IR on function bodies given as tokens; the control flow of the resulting intermediate code is compared by simulation along all paths with that of an independent reader of C statements", note="Left open: declarations as sub-statements, the same name twice in one scope, __try, inline assembler, nested functions."),
 dict(id="C20", title="Macro replacement gives the tokens C prescribes",
  statement="For every translation unit the preprocessor accepts, the tokens handed to the parser are those of C11 6.10.3: object-like and function-like macros are replaced once, arguments are collected across parentheses and lines and fully expanded unless they are operands of # or ##, # gives a string with the spelling of the argument and white space as single blanks, ## joins exactly its two operands (empty arguments included), __VA_ARGS__ stands for the remaining arguments, no macro is replaced within its own expansion, __LINE__ and defined work, and wrong definitions or invocations (arity, ## at an end, duplicate parameters, differing redefinition) are rejected. Every token keeps the kind, file and line it comes from.",
  over=["inputs", "programs"], quant="some 900 generated units of macro definitions and uses in random white space, and a hundred selected ones, each followed through the whole preprocessor",
  why="Macros that invoke, paste and stringify each other combine without limit; the tests hold a few dozen combinations.",
  files=["src/preprocess.c"], mech=[("expansion", "src/preprocess.c expand_define, stringify_and_return_string, push_define_replacement"), ("definitions", "src/preprocess.c handle_directive")],
  technique="abstract interpretation of the compiler's own LLVM IR on source texts, compared with an independent reader of C11 6.10.3", note="Left open: pastes that give no valid token, directives inside invocations, __LINE__ within invocations over several lines, the extension ',##__VA_ARGS__'."),
 dict(id="C21", title="Conditional groups, inclusion and #undef take effect exactly where C says",
  statement="For every source file the preprocessor accepts, exactly the groups selected by #if, #ifdef, #ifndef, #elif and #else are kept, conditions being evaluated as C integer constant expressions after macro replacement; what stands in skipped groups has no effect; #include replaces the line by the tokens of the file, at most once with #pragma once, each token keeping its file and line; #define and #undef hold from their line to the next change; and unbalanced conditionals, misplaced #else or #elif, #error in a kept group and unknown directives are rejected.",
  over=["inputs", "programs"], quant="more than 1300 generated units of nested groups, definitions and inclusions",
  why="The nesting of groups, files and definitions is unlimited; the tests sample a few.",
  files=["src/preprocess.c"], mech=[("directives", "src/preprocess.c handle_directive"), ("conditions", "src/preprocess.c static_if_evaluate"), ("files", "src/preprocess.c file_tokenize_and_preprocess")],
  technique="abstract interpretation of the compiler's own LLVM IR on source texts, compared with an independent reader of C11 6.10.1 and 6.10.2", note="The search for include files on disk is replaced by a table. Left open: junk after a complete condition, #pragma other than once, #line."),
 dict(id="C22", title="The source text is split into the longest possible tokens, each with its kind, place and extent",
  statement="For every source text, the tokenizer yields the C tokens by maximal munch - identifiers, constants of each form, strings and characters with their prefixes and escapes, punctuators - each with its kind, its exact extent, the hash of its name, and the line and column where it starts, whatever white space, comments, continuation lines and line endings surround it; lines end where directives have to end; unterminated comments and literals and stray bytes are rejected.",
  over=["inputs"], quant="every sequence of at most three punctuation characters, every keyword, every form of constant and literal, and 160 long random mixtures",
  why="The tokenizer scans with tables and vector instructions whose behaviour depends on neighbouring bytes; every tool on top (diagnostics, debug lines) depends on the places it reports.",
  files=["src/preprocess.c"], mech=[("tokenizer", "src/preprocess.c tokenize_raw"), ("tables", "src/preprocess.c punctuation and character tables")],
  technique="abstract interpretation of the compiler's own LLVM IR on source texts, compared with an independent maximal-munch tokenizer", note="Left open: numbers that are no valid constant, continued line comments, literals over several lines."),
 dict(id="C23", title="A program in which an error was found gets no output file, and the exit status tells so",
  statement="Whenever the compiler reports an error for a translation unit, whichever phase finds it (command line, predefined macros, preprocessing, parsing, patching of sizes, static initializers, inline assembler, code generation, linking) and whichever thread, the error is recorded for the whole run before that thread takes other work or the phase ends; no object, executable, library or program database is opened for writing after an error was recorded, and the process then ends with a nonzero status. Reports of several threads do not run into each other: every report that is begun is ended on every path.",
  over=["inputs", "schedules"], quant="every path of the compiler's call graph from a report of an error to the files written and to the exit of the process, for every distribution of the work over threads",
  why="There are several hundred places that report an error, each reached by an input of its own; a lost error gives a wrong program silently, and a test of one place says nothing about the others.",
  files=["src/main.c", "src/diagnostic.c", "src/cli.c"], mech=[("recording", "src/diagnostic.c report_error and its users; src/main.c worker_work"), ("stopping", "src/main.c main, tests of an_error_has_occurred"), ("output", "src/main.c main; src/coff_writer.c; src/obj_writer.c")],
  technique="interprocedural dataflow over the compiler's LLVM IR: pending-error and flag-known-zero typestate along all paths from every reporter to every output file and exit", note="Failures of the operating system while writing the output are outside."),
 dict(id="C24", title="What the worker threads share changes only atomically, under its lock, or before it is published",
  statement="The compiler's threads share tables and lists. Every location that more than one thread can reach is written only by atomic operations, by the holder of the spin lock or ticket lock that guards it, by the only thread that runs in that phase, or before the object was published to other threads; each atomic primitive is one indivisible operation; locks taken are released on every path and not taken twice; work is counted before it can be taken and counted as done only when its results are visible; an object that is visible while it is being filled is marked as done after its last write, and other threads wait for that mark before they use it.",
  over=["schedules"], quant="every function the worker threads can reach, all instructions that touch shared locations",
  why="The tests run under one arbitrary schedule each; a lost update appears in one run in thousands.",
  files=["src/main.c", "src/std.c", "src/windows.c", "src/preprocess.c", "src/parse.c"], mech=[("primitives", "src/std.c, src/windows.c atomic_*"), ("tables", "src/main.c ast_table_*, src/std.c"), ("work queues", "src/main.c work_queue_push, worker_work"), ("locks", "src/main.c begin_error_report, sleeper tables, lock-free lists")],
  technique="lockset, publication and typestate analysis over the compiler's LLVM IR, from the call graph of the worker threads", note="The order of plain reads against table growth (a recorded limitation) is outside; hardware order is that of x86."),
 dict(id="C25", title="Executables are loadable images in which every object is placed and every reference leads to what it names",
  statement="For every program, the executable or dynamic library written for it is a well-formed PE image: its headers and section table agree with its contents and the file's size; every reachable function, variable, string and floating point literal has its bytes (and zeroes for what is not initialized) in a place of its own with the rights its kind needs and its alignment; every reference to one of them, from code, from data or from another section, holds the address (relative, absolute or in the section) of what it names plus its offset, wherever the page boundaries fall; the base relocations are exactly the absolute addresses; every imported function is named by library and name or ordinal and reached through its slot; exports are sorted and lead to their functions; thread-local data is described by the TLS directory; every function has an exception entry in order of address, whose unwind codes undo its prolog.",
  over=["inputs"], quant="programs of functions, initialized and zero variables, strings, floating literals, imports, exports and thread-locals of given sizes and alignments, with symbolic offsets of references and symbolic contents, for executables, libraries, EFI images, fixed and relocatable",
  why="Layouts meet only in particular combinations (a relocation on the last slot of a page, an odd number of them, a section that is empty, two strings that differ in the width of their characters); the tests link small programs of one shape.",
  files=["src/coff_writer.c", "src/main.c"], mech=[("placing", "src/coff_writer.c print_coff, the emission loops of the sections"), ("references", "src/coff_writer.c print_coff, patches and base relocations"), ("imports, exports, TLS, unwind", "src/coff_writer.c print_coff")],
  technique="abstract interpretation of print_coff over program tables with symbolic offsets and contents; an independent PE loader reads the abstract image", note="Debug information (.pdb) and resources are outside; sizes and numbers of objects are those of nine program shapes."),
 dict(id="C26", title="Object files define every symbol where its bytes are and relocate every reference to what it names",
  statement="For every program, the object file written for it is a well-formed COFF object: headers, sections, symbol table and string table agree with the file; every reachable function and variable has a symbol of its name, visible to other objects exactly if it is not static, at its bytes in a section with the rights and the alignment its kind and its declaration need (or undefined if it is only declared or imported); every reference from code or data has exactly one relocation, of the right type, in the section of the place it is written to, to the symbol of what it names, with the addend that gives its offset; there are no other relocations; exported names are in the directives; every function has an exception entry for its range whose unwind codes undo its own prolog.",
  over=["inputs"], quant="programs of functions, variables, strings, floating literals, imports, exports, thread-locals and selectany variables of given sizes and alignments, with symbolic offsets of references and symbolic contents",
  why="No test links an object file with another linker; an error shows only when an exception passes the second function, a variable needs more than 16 bytes of alignment, or a name has more than eight characters.",
  files=["src/obj_writer.c"], mech=[("sections and symbols", "src/obj_writer.c print_obj"), ("relocations", "src/obj_writer.c print_obj, the patches of .text, .data, .tls$ and selectany sections"), ("unwind data", "src/obj_writer.c push_unwind_information_for_function")],
  technique="abstract interpretation of print_obj over program tables with symbolic offsets and contents; an independent COFF reader compares the abstract file with the program", note="Debug information, static libraries and more than 65535 relocations are outside; sizes and numbers of objects are those of eight program shapes."),
 dict(id="C27", title="A name found in a library is resolved to the member its index names",
  statement="For every set of libraries and every name that is declared but not defined, the name is resolved to the member that the index of the first suitable library names for exactly this name (an import for names declared dllimport, else whichever is first), if need be through the declared alternate names; an import carries the dll, the name or the ordinal of its member, is listed once under its dll, and every dll is listed once; a name no library offers is an error. A library whose index contradicts itself or the size of the file is rejected, a member whose index, offset, size or header does is not used, and nothing outside of the file is read.",
  over=["inputs"], quant="archives of up to twelve members with arbitrary ordinals, names that are prefixes of each other, shared names in several libraries, alternate names, and archives whose counts, indices, offsets, sizes or ends are wrong",
  why="Tests link with a few names of two system libraries; a wrong step of the search, an import by ordinal, an alias, or a truncated library concerns other names and files.",
  files=["src/ar.c", "src/explain.c"], mech=[("index of names", "src/ar.c ar_parse_file"), ("search and validation of members", "src/ar.c ar_lookup_symbol"), ("resolution", "src/explain.c lookup_declaration_in_libraries")],
  technique="abstract interpretation of ar_parse_file and lookup_declaration_in_libraries on archives with symbolic ordinals and on malformed ones; the resolved imports are compared with the members the archives were made of", note="Names of members that are imported without prefix or undecorated, and code taken from objects in libraries, are outside."),
]
NA = [
 dict(id="N01", title="The output does not depend on the schedule of the worker threads",
  statement="For every program, the bytes of the emitted file are a function of the input files and the command line, whatever order the worker threads take their work in.",
  over=["schedules"], quant="all interleavings of up to 64 worker threads", why="A test observes one schedule.",
  files=["src/main.c"], mech=[("work queues", "src/main.c worker_work"), ("ordering of the emitted functions", "src/main.c main, after emit")],
  reason="The property compares the results of two runs over heap contents (order of lists, of hash table slots, serial numbers); a static argument needs a relational invariant over every list of the program for which no analysis in reach gives a bound. What can be decided (shared state changes only in a disciplined way) is C24."),
 dict(id="N02", title="Compilation ends, within bounded stack and memory",
  statement="For every finite input the compiler ends, and neither nesting of expressions, statements, macros and declarators nor the size of the input overflows the thread's stack.",
  over=["inputs"], quant="all inputs", why="A test has one size.",
  files=["src/parse.c", "src/preprocess.c", "src/std.c"], mech=[("recursive descent", "src/parse.c parse_expression, parse_statement, parse_declarator"), ("arenas", "src/std.c push_struct and friends")],
  reason="Depth of recursion and number of loop iterations are bounded only by the input; the compiler sets no limit of its own, so that no static bound exists to be verified, and termination needs ranking arguments over lists built at run time."),
 dict(id="N03", title="Debug information describes the program",
  statement="The PDB or CodeView records tell a debugger the line of every instruction, and type and place of every variable in scope.",
  over=["programs"], quant="all programs", why="The tests never start a debugger.",
  files=["src/coff_writer.c", "src/obj_writer.c"], mech=[("PDB streams", "src/coff_writer.c print_coff, pdb streams"), ("CodeView", "src/obj_writer.c print_obj")],
  reason="The records are laid out by several thousand lines that write through one cursor with sizes known only at run time (names, numbers of symbols), against an undocumented format for which no independent reader is available here; the analysis cannot follow stream offsets that depend on lengths of lists."),
]
