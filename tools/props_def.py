ASM = 'src/compiler/codegen/asm/asm_codegen.c'
UNIT = ('The language tests are two float-comparison cases and the standard library tests exercise a handful of inputs; none runs ')

P('A01', 'Integer arithmetic is exact at every width',
  'For every integer type of the language, the value a compiled program computes with any of the arithmetic, bitwise, shift, comparison and conversion operators is the mathematically defined one: operands are converted to the type of the operation, results wrap to its width, signed and unsigned types divide, shift and compare as signed and unsigned numbers.',
  ['programs', 'inputs'], 'every operator, every pair of integer types, all operand values (boundary values and random ones are sampled), nested expressions of bounded depth',
  UNIT + 'integer arithmetic across types and boundary values; there are about 64*20 operator/type combinations and 2^128 operand pairs.',
  [ASM, 'src/compiler/parser/typechecker.c', 'src/compiler/parser/validator.c', 'src/compiler/ast/types.c'],
  [('instruction selection per operator and type', ASM + ' asm_gen_expr'), ('cast table', ASM + ' cast_table'), ('expression typing', 'src/compiler/parser/typechecker.c')])

P('A02', 'Control flow follows the structured meaning of every statement',
  'Every statement form (if/else, while, do-while, do-unless, for, range for, loop, match with every comparison mode, break, continue, return, defer, with, noop, nested blocks) executes exactly the statements its structured meaning prescribes, in that order, however the forms are nested.',
  ['programs'], 'all programs composed of the statement forms nested to a bounded depth, with every placement of break, continue and return',
  UNIT + 'nested control flow; jumps out of nested loops and matches depend on compiler state that only combinations exercise.',
  [ASM, 'src/compiler/parser/parser.c', 'src/compiler/parser/validator.c'],
  [('label allocation and nesting of break/continue targets', ASM + ' asm_gen_stmt'), ('scoping of statements', 'src/compiler/parser/parser.c')])

P('A03', 'A call passes, keeps and returns exactly its values',
  'A call of a function, function pointer, lambda, custom operator or pipe delivers every argument of every type unchanged to its parameter and the result unchanged to the caller, and leaves every other variable, temporary and pending argument of the caller as it was, for any number and mix of arguments and any depth of recursion or nesting.',
  ['programs', 'inputs'], 'all signatures over integers, floats, pointers and small to large structs in any order and number; all nestings of calls inside argument lists; recursion',
  UNIT + 'calls with mixed register/stack arguments, struct arguments and results, or calls nested in argument lists.',
  [ASM, 'src/compiler/parser/parser.c'],
  [('register and stack assignment of arguments', ASM + ' asm_push_args, asm_pop_args'), ('struct classification', ASM + ' has_flonum1/2, asm_copy_ret_buffer'), ('stack frame layout', ASM + ' asm_assign_lvar_offsets')])

P('A04', 'Memory holds what was last stored, and nothing else changes',
  'A variable, array element, struct or union member or dereferenced pointer always yields the value last stored to that location, stores change no other location, aggregates are copied by value, pointer arithmetic moves by whole elements, and lengths, negative and backward indices and default initialisation denote what the type says.',
  ['programs', 'inputs'], 'all compositions of structs, unions, arrays, C arrays and pointers to a bounded depth; all assignment and copy paths between locals, globals, arguments and heap-like buffers',
  UNIT + 'aggregates nested in one another or pointer arithmetic over them; overlapping locations only show with particular layouts.',
  [ASM, 'src/compiler/parser/typechecker.c', 'src/compiler/ast/types.c'],
  [('address computation', ASM + ' asm_gen_addr'), ('loads and stores', ASM + ' asm_load, asm_store'), ('frame and member offsets', ASM + ' asm_assign_lvar_offsets')])

P('A05', 'Floating-point computation is IEEE 754',
  'Floating-point literals, the four operations, negation, comparisons, truth values, increments and conversions between floating-point and integer types give the correctly rounded IEEE 754 result in single and double precision, including signed zeros, subnormals, infinities and not-a-number.',
  ['programs', 'inputs'], 'all operators and conversions of f32 and f64 on special, boundary and random values; random nested expressions',
  'Two tests compare a few float constants; special values, roundings and conversions at the limits of the integer types are not reached.',
  [ASM, 'src/compiler/lexer/lexer.c', 'src/compiler/parser/parser.c'],
  [('SSE instruction selection', ASM + ' asm_gen_expr'), ('cast table', ASM + ' cast_table'), ('literals', 'src/compiler/parser/parser.c')])

P('A07', 'Every subexpression chosen is evaluated exactly once',
  'Evaluating an expression runs each chosen subexpression exactly once and no other: && and || and else-expressions skip the right operand when the left decides, a conditional runs one branch, a pipe, compound assignment, increment, index, call, literal or closure evaluates each operand and each target address once, and every side effect is visible afterwards.',
  ['programs'], 'all nestings, to a bounded depth, of operators over operands that record that they ran and change the variables other operands read',
  UNIT + 'expressions whose operands have side effects.',
  [ASM, 'src/compiler/parser/parser.c', 'src/compiler/parser/validator.c'],
  [('short-circuit jumps and branches', ASM + ' asm_gen_expr ND_AND, ND_OR, ND_TERNARY, ND_ELSE_EXPR'), ('compound assignment and increments', 'src/compiler/parser/parser.c parse_assignment'), ('address evaluation', ASM + ' asm_gen_addr')])

P('A08', 'Expressions group by precedence and associativity',
  'An expression written without parentheses has the value of the expression grouped by the operator precedence table: postfix, prefix, multiplicative, additive, shift, comparison, equality, bitwise and/xor/or, logical and/or, conditional, assignment and pipe levels bind in that order, binary operators of one level group to the left, and parentheses, casts and closures group what they enclose.',
  ['programs'], 'all pairs and random longer sequences of operators in every position, with operand values that tell the groupings apart',
  UNIT + 'sequences of mixed operators.',
  ['src/compiler/parser/parser.c'],
  [('precedence climbing', 'src/compiler/parser/parser.c expr_infos, parse_expr')])

P('A09', 'A method call runs the implementation of the value\'s own type',
  'A value of a type `dyn I` is made from a pointer to any type with functions `dyn(I)` and can be kept in variables, globals, structs, arrays, passed, returned and copied; `v.m(...)` runs the function m written for the type the value was made from, with the data the pointer points to as its first argument and the other arguments and the result unchanged, whatever the order in which the implementation and the interface list their functions, however many interfaces a type implements and types an interface has; taking a function out of a value gives the same function. This holds for programs compiled by the assembly and by the C code generator.',
  ['programs'], 'interfaces with one to five functions of random signatures, implemented for one to six types in any order, and random sequences of conversions, copies and calls',
  'No test uses an interface.',
  ['src/compiler/ast/vtable.c', 'src/compiler/parser/typechecker.c', 'src/compiler/parser/validator.c', ASM, 'src/compiler/codegen/transpiler/c_codegen.c'],
  [('tables of functions', 'src/compiler/ast/vtable.c; ' + ASM + ' asm_gen_vtable'), ('conversion to and from dyn', 'src/compiler/parser/typechecker.c implicitly_castable, implicit_cast; ' + ASM + ' asm_gen_expr ND_DYNCAST, ND_DYNUNCAST'), ('the receiver as an argument', 'src/compiler/parser/validator.c validate_call')])

IP = 'src/compiler/interpreter'
P('A06', 'Constants have the values the same expressions have at run time',
  'A global constant or variable whose initialiser is a constant expression (any operator, conversion, conditional, enum member, sizeof, earlier constant or call of a [constexpr] function, over any integer, boolean, character or floating-point type) starts with exactly the value that expression has when a compiled program evaluates it, converted to the type of the global.',
  ['programs', 'inputs'], 'all constant expressions over the scalar types to a bounded depth; constexpr functions with loops, branches, matches and recursion',
  UNIT + 'constant initialisers; the evaluator is an interpreter of its own with about as many operator/type cases as the code generator.',
  [IP + '/interpreter.c', 'src/compiler/parser/validator.c', 'src/compiler/parser/typechecker.c', ASM],
  [('constant evaluation of initialisers', 'src/compiler/parser/validator.c iter_leave_global, eval_constexpr'), ('operators and calls of the evaluator', IP + '/interpreter.c'), ('emission of initial values', ASM + ' asm_gen_data')])

P('B02', 'The interpreter runs a program as the compiled program runs',
  'For programs in the subset the interpreter accepts (scalars, pointers to variables, globals, functions and recursion, conditionals, loops, match, pipes, casts, all operators), running the program with the interpreter back end ends with the same exit status as the language semantics prescribes for the compiled program.',
  ['programs', 'inputs'], 'all programs of the interpreted subset to a bounded size',
  'No test runs the interpreter on a program at all.',
  [IP + '/interpreter.c', IP + '/value.c', IP + '/stack.c'],
  [('statement and expression evaluation', IP + '/interpreter.c'), ('operators', IP + '/interpreter.c eval_*'), ('variable storage', IP + '/stack.c')],
  note=MACHINE_NOTE + ' The interpreter cannot print, so each program folds what it computes into its exit status (8 bits); many programs make up for the narrow window.')

P('B01', 'The C code generator preserves the meaning of programs',
  'A program that is compiled through generated C code (-b C) produces the output and exit status the language prescribes, as one compiled through assembly does: all operators and conversions over the integer, boolean, character and floating-point types, wrap-around of signed integers, literals (including strings with escape sequences, infinities and not-a-number), the conditional operators and the assigning operators with any target (each evaluated once), statements (if, match, loops of every kind, break and continue, with), functions with any number of arguments, function pointers, recursion, pipes, closures, constants and constexpr functions, macros, imports, namespaces, local names that hide global ones, custom operators, and functions run before and after main.',
  ['programs'], 'random programs of the arithmetic, floating-point, control-flow, call, operator-grouping and constant families, and random program texts of every accepted family (macros, imports, names, lexical form, grouping, statements, starting and ending)',
  'The test suite is compiled through assembly only: no test looks at generated C code.',
  ['src/compiler/codegen/transpiler/c_codegen.c', 'src/compiler/codegen/codegen_utils.c'],
  [('expressions', 'src/compiler/codegen/transpiler/c_codegen.c c_gen_expr'), ('statements', 'src/compiler/codegen/transpiler/c_codegen.c c_gen_stmt'), ('declarations and types', 'src/compiler/codegen/transpiler/c_codegen.c c_gen_type_prefix, c_gen_type_suffix, c_gen_globals'), ('names', 'src/compiler/codegen/codegen_utils.c gen_identifier')])

P('B03', 'Optimisation does not change what a program does',
  'A program compiled with the optimiser and the same program compiled without it (-0) both behave as the language semantics prescribes: a function, global or type that is needed from anywhere (expression, statement, initialiser, table of functions, lambda, macro, directive) is kept, and removing what nothing needs changes nothing.',
  ['programs'], 'functions and globals that are needed from exactly one place of every kind; random programs of every other family built without optimisation',
  'The tests are built one way only, and each needs most of its functions from several places.',
  ['src/compiler/optimizer/optimizer.c', ASM],
  [('reachability of objects', 'src/compiler/optimizer/optimizer.c remove_dead_code, unused_remover')])

# ------------------------------------------------ the standard library
LIB = 'TLA+ state machine of the library part; TLC validates recorded operation histories of the real library, and generates the short histories exhaustively'
LIB_NOTE = ('The specification is exact about every result; TLC generates every history of a few small operations, and longer histories are seeded random, so the '
            'assurance is bounded by the histories generated. A CSpydr program built from the working tree performs the operations with the real library. '
            'Trusts TLC, the driver program and the compiler that builds it.')
P('S01', 'Memory handed out is the caller\'s own until it is given back',
  'Every block from std::memory or a std::arena keeps exactly the bytes stored in it until it is freed (or its arena reset), whatever is done to other blocks; calloc blocks start as zeros, realloc keeps the common prefix, copy, move, set, zero change exactly the addressed bytes (move also when the ranges overlap, copy refuses those), and eq, is_zero and ptr_overlap tell the truth.',
  ['histories'], 'all histories of allocations, reallocations, releases, stores and block operations; sizes from 0 past a page; both arena back ends',
  'The tests do one call per function on one small block; they never hold several blocks at once or change a size.',
  ['src/std/memory.csp', 'src/std/arena.csp'],
  [('allocation and reallocation', 'src/std/memory.csp alloc, realloc, free'), ('block operations', 'src/std/memory.csp copy, move, eq, set, zero'), ('regions', 'src/std/arena.csp alloc, reset, free')], tech=LIB, note=LIB_NOTE)

P('S02', 'A vector is a sequence',
  'After any history of vec operations on values of any type, vec_size, indexing, vec_last and vec_foreach show exactly the sequence obtained by performing the pushes, pops, insertions, erasures, removals and assignments in order, through every growth of the buffer, and a copy is independent of its original.',
  ['histories'], 'all histories of the vector operations over elements of 1 to 24 bytes, with sizes around every growth boundary',
  'The tests do not exercise vectors; growth boundaries and interleaved insertions and erasures need histories.',
  ['src/std/vec.csp', 'src/std/memory.csp'],
  [('growth', 'src/std/vec.csp reallocate, has_space'), ('element operations', 'src/std/vec.csp __internal_*')], tech=LIB, note=LIB_NOTE)

P('S03', 'A hash map is a map',
  'After any history of hashmap_put, hashmap_get returns the value last put for an equal key (strings compare by content) and the zero value for every other key, data.size is the number of distinct keys, and hashmap_keys and hashmap_values list every pair exactly once, through every growth and collision, for keys and values of any size.',
  ['histories'], 'all histories of puts and gets over integer and string keys and values of different sizes, with zero, negative, colliding and repeated keys',
  'The tests do not exercise hash maps; collisions, growth and repeated keys need histories.',
  ['src/std/hashmap.csp', 'src/std/algorithm.csp', 'src/std/vec.csp'],
  [('probing', 'src/std/hashmap.csp find_pair'), ('growth', 'src/std/hashmap.csp grow, rehash')], tech=LIB, note=LIB_NOTE)

P('S04', 'String functions compute what their names say on every text',
  'std::string objects are byte sequences under concat, append, trim, substr, split, copy, equal, contains and the conversions; the std::c_str functions copy, concatenate, compare, search, span, tokenise and convert numbers exactly as their C namesakes do, write nothing but their result and its terminator, and std::character classifies and converts ASCII.',
  ['histories', 'inputs'], 'all texts over all non-zero bytes including empty ones, all lengths around the buffer sizes, all histories of growing and cutting strings, all 64-bit numbers',
  'The tests try one to three short lower-case texts per function and skip the tokenisers and searches altogether.',
  ['src/std/string.csp', 'src/std/c_str.csp', 'src/std/character.csp'],
  [('growth of strings', 'src/std/string.csp concat, append, reserve'), ('searching and tokenising', 'src/std/c_str.csp'), ('number conversion', 'src/std/c_str.csp from_int, from_uint, to_i32, to_i64, from_f64')], tech=LIB, note=LIB_NOTE)

P('S05', 'Formatted output prints the values it is given',
  'std::fmt and the printf family write the literal characters of the format and, for every directive, the whole value of its argument in the named form (decimal, hexadecimal, octal, binary, character, text, boolean, float), never more or fewer characters and never from another argument; the string, stream and error variants agree, the counters they return are the bytes written, fmt::time expands dates, and an error object reports exactly what was put in.',
  ['inputs', 'histories'], 'all formats made of literals and directives with all argument values, to all destinations; all histories of raising and clearing errors',
  'The tests print fixed lines that nobody compares.',
  ['src/std/fmt.csp', 'src/std/io.csp', 'src/std/error.csp'],
  [('directives', 'src/std/fmt.csp, src/std/io.csp vfprintf'), ('destinations', 'src/std/io.csp puts, write, writeln, printf, fprintf'), ('errors', 'src/std/error.csp')], tech=LIB, note=LIB_NOTE)

P('S06', 'A regular expression matches what its syntax denotes',
  'std::regex finds the leftmost place where the pattern matches and the length of that match, as the documented meaning of literals, ., classes, ranges, escapes, ^, $, *, + and ? defines it, on every text, and malformed patterns are refused; command-line flags parsed by std::flags give each registered flag exactly the value the arguments contain and leave the others at their default.',
  ['inputs'], 'all patterns up to a size over a small alphabet on all texts up to a length, random larger ones; all argument lists',
  'The one regex test compares four patterns; flags have one test with fixed arguments.',
  ['src/std/regex.csp', 'src/std/flags.csp'],
  [('compilation', 'src/std/regex.csp compile'), ('matching', 'src/std/regex.csp matchp, matchpattern, matchstar, matchplus'), ('flags', 'src/std/flags.csp')], tech=LIB, note=LIB_NOTE)

P('S07', 'Numbers from the library are the mathematical ones',
  'The limits, min!, max!, abs!, sum!, std::math (pow, div, mod, abs), the option, bit, byte-swapping and swapping macros, and std::uuid parse and print return the exact mathematical result for arguments of every width; equal inputs have equal hashes; and std::random yields the sequence of its additive-feedback generator for every seed and state size, with states independent of each other.',
  ['inputs', 'histories'], 'all 64-bit arguments, boundary values of every width, all histories of seeding, drawing and switching between states of the generator',
  'The tests use two or three small positive numbers per function; random, uuid and the wider sums have none.',
  ['src/std/math.csp', 'src/std/array.csp', 'src/std/algorithm.csp', 'src/std/random.csp', 'src/std/types.csp', 'src/std/option.csp', 'src/std/utils.csp'],
  [('arithmetic', 'src/std/math.csp'), ('sums', 'src/std/array.csp sum!'), ('generator', 'src/std/random.csp seed, rand, init_state, set_state'), ('limits', 'src/std/types.csp')], tech=LIB, note=LIB_NOTE)

P('S08', 'Files and directories are what the operations made them',
  'After any history of opening, reading, writing, seeking and closing std::file handles, in any modes and on the same or different files, every file holds exactly the bytes written at the offsets the history defines, every read returns them, size and tell agree, and an operation that cannot be done reports an error and changes nothing; std::directory lists every entry exactly once with its kind, in a stable order that tell and seek address, and stat reports the metadata the kernel has.',
  ['histories'], 'all histories of file operations over several handles and files with binary contents and all open modes; directories from empty to many buffers of entries, changed between listings',
  'The tests write one short text and read it back; no test seeks, appends, truncates or lists a directory larger than one buffer.',
  ['src/std/file.csp', 'src/std/directory.csp', 'src/std/syscall.csp', 'src/std/io.csp'],
  [('modes and offsets', 'src/std/file.csp open, read, write, seek'), ('whole files', 'src/std/file.csp read_all, size'), ('listing', 'src/std/directory.csp open, read, seek')], tech=LIB, note=LIB_NOTE)

P('S09', 'System calls pass what the caller asked for, and clocks tell the kernel\'s time',
  'Every std::syscall wrapper makes exactly one system call, the one it is named after, with its arguments in order and at full width, and returns the kernel\'s answer, negative errors included; std::clock and std::time report the kernel\'s clock (the calendar date is the Gregorian date of the second, fractions are scaled exactly, also when the kernel lacks clock_gettime), and std::timer sleeps exactly the time it is given, once per repetition.',
  ['inputs', 'histories'], 'all wrappers with all 64-bit arguments and answers; all histories of setting, reading and waiting on the clock for dates from 1970 to the year 64000',
  'The tests cannot choose what the kernel answers or what time it is.',
  ['src/std/syscall.csp', 'src/std/time.csp'],
  [('wrappers', 'src/std/syscall.csp'), ('calendar', 'src/std/time.csp time::get'), ('clock and timer', 'src/std/time.csp clock::get_time, timer::delay, do_each_until')],
  tech='TLA+ specification of the call interface and of the clock; a stand-in kernel (ptrace) takes the calls and answers them, TLC validates the recorded histories',
  note=LIB_NOTE + ' The stand-in kernel runs only the driver, as an unprivileged user, and no taken call reaches the real kernel.')

P('S10', 'Processes end the way they say, and whoever waits learns exactly that',
  'A process leaving through std::process exit, die, panic, todo!, unreachable!, not_implemented! or a failed assertion ends with the documented status and message and runs the registered exit handlers once each, in order, with that status (panic and signals run none, at most 1024 can be registered); waitpid and the status functions tell exit status, signal and stop of every child exactly; execve passes arguments and environment; and std::testing reports for every test of a suite what that test\'s process did - passed, failed (however many errors), skipped or killed - with counters and summary that add up.',
  ['histories', 'inputs'], 'all histories of registering handlers, switching assertions, starting, stopping, continuing, killing and reaping children; all status words; all suites of tests with every behaviour',
  'The tests run inside the testing framework, so they cannot watch a process fail, and exercise none of the ways to end.',
  ['src/std/process.csp', 'src/std/assert.csp', 'src/std/testing.csp', 'src/std/error.csp'],
  [('leaving', 'src/std/process.csp exit, die, die_with_location, panic, at_exit'), ('status words', 'src/std/process.csp exited, signaled, stopped'), ('assertions', 'src/std/assert.csp'), ('testing', 'src/std/testing.csp run, run_all')],
  tech=LIB, note=LIB_NOTE)

P('S11', 'Threads run once, concurrently, with their data, and joining waits for them',
  'std::thread::create runs the function once in a thread of its own with the data given, at the same time as the others; join returns only when that thread has returned or called exit (nothing after exit runs), may be repeated and may be asked from any thread (one at a time); a detached thread goes on by itself and is not waited for; equal tells whether two objects mean the same thread, self included; async and `with` scopes wait for what they started and report no error from before; nil threads are reported; and under the pthread mutexes, locks, conditions and barriers of the libc bindings no update is lost.',
  ['histories', 'schedules'], 'all histories of creating, asking, ending, joining, detaching and comparing up to four threads, from the main thread and from other threads',
  'No test starts a thread.',
  ['src/std/thread.csp', 'src/std/libc/pthread.csp', 'src/std/memory.csp', 'src/std/error.csp'],
  [('threads', 'src/std/thread.csp create, join, detach, exit, equal, self, async'), ('pthread bindings', 'src/std/libc/pthread.csp')],
  tech=LIB, note=LIB_NOTE)

# ------------------------------------------------ from the text to the program
SRC = 'TLA+ specification of the language\'s texts (Source.tla: characters to tokens, imports, macros, grammar, names, meaning); TLC reads the generated source text itself and computes what the compiled program must write, which the compiled program is run against'
SRC_NOTE = 'trusts nothing of the generator: only the text is given to TLC; the texts use i32, bool and char values, functions, operators, namespaces, enums, type aliases, global and local variables, and every statement but do, with and defer'
P('F01', 'Macros and imports mean their text, once',
  'A macro call is replaced by its macro\'s body with the arguments (whole token sequences, themselves expanded) in place of the parameters, chosen by name and number of arguments wherever the macro is defined, with @ joining tokens and the predefined macros meaning what they say; an import brings in the tokens of exactly the file its path names (relative to the importing file, then the library), once, however often, in whatever order, from wherever and under whatever spelling of the path it is imported, cycles and the main file included.',
  ['programs'], 'all sets of macros calling one another with 0 to several arguments and every kind of bracket, nested in arguments and bodies; all graphs of importing files over directories with every spelling of the paths',
  'The tests define a few macros used once and import the standard library only.',
  ['src/compiler/preprocessor/preprocessor.c', 'src/compiler/preprocessor/stdmacros.c', 'src/compiler/lexer/lexer.c'],
  [('expansion', 'src/compiler/preprocessor/preprocessor.c expand_macro_call, parse_macro_call'), ('import paths', 'src/compiler/preprocessor/preprocessor.c parse_import_def, get_full_import_path')], tech=SRC, note=SRC_NOTE)

P('F02', 'Every name means the definition its scopes give it',
  'An identifier denotes the definition the language\'s scopes prescribe: the innermost local variable or parameter of that name, else the definition of the enclosing namespaces from the inside out, with paths through namespaces, leading :: and names brought in by using, independent of the order of definitions; shadowing, equal names in different namespaces, enum members and type names never change another name\'s meaning, and a name that denotes nothing, or two definitions of one name in one scope, are rejected.',
  ['programs'], 'all arrangements of equal names over nested namespaces, enums, types, globals, parameters, blocks and loops, with using in every position and paths of every length',
  'The tests have no two definitions of the same name.',
  ['src/compiler/parser/validator.c', 'src/compiler/ast/ast.c', 'src/compiler/parser/parser.c'],
  [('scopes', 'src/compiler/parser/validator.c begin_scope, scope_register_obj, scope_resolve_ident'), ('using', 'src/compiler/parser/validator.c')], tech=SRC, note=SRC_NOTE)

P('F03', 'Ill-formed texts are rejected in an orderly way, whatever they are',
  'For every text the compiler either builds the program the language defines or reports an error at a place in the text and builds nothing: a text that breaks the grammar, uses an undefined name, macro or file, assigns to what is no variable, defines a name twice in one scope or jumps out of no loop is never compiled, and no text makes the compiler crash, loop or end without a message.',
  ['inputs'], 'all texts near well-formed programs: tokens deleted, doubled, swapped, replaced, inserted, misspelt; files cut off anywhere; in the main file and in imported ones',
  'Every test program is correct; nothing tests what the compiler does with an incorrect one.',
  ['src/compiler/parser/parser.c', 'src/compiler/parser/validator.c', 'src/compiler/lexer/lexer.c', 'src/compiler/preprocessor/preprocessor.c', 'src/compiler/error/error.c'],
  [('grammar', 'src/compiler/parser/parser.c'), ('checks', 'src/compiler/parser/validator.c'), ('messages', 'src/compiler/error/error.c throw_error')], tech=SRC + ' (or that it must be rejected)', note=SRC_NOTE + '; mutants that stay well-formed are not run')

P('F04', 'Every token is the longest its characters allow, and literals have their value',
  'White space and comments (nested and line comments, whatever they contain) separate tokens and mean nothing else; identifiers, keywords, operators and punctuation are the longest the characters allow; integer literals of every base, with leading zeros and separators, character and string literals with every escape have exactly their value, and adjacent strings are one; the layout of a text never changes its meaning.',
  ['inputs'], 'all spellings of literals, all escapes, all comments containing quotes, brackets and keywords, all placements of white space and line breaks, tokens of any length',
  'The tests are written in one style, with few escapes and decimal literals mostly.',
  ['src/compiler/lexer/lexer.c', 'src/compiler/lexer/token.c', 'src/compiler/parser/parser.c'],
  [('scanning', 'src/compiler/lexer/lexer.c lexer_next_token, lexer_get_number, lexer_get_string'), ('escapes', 'src/compiler/parser/validator.c iter_validate_string_lit, iter_validate_char_lit')], tech=SRC, note=SRC_NOTE)

P('F05', 'Operators group, and statements nest, as the grammar says',
  'An expression without brackets means the one with the brackets its operators\' precedence and associativity prescribe, for every combination of prefix, infix, postfix, assignment, conditional, cast, pipe and user-defined operators; a statement extends as far as the grammar says (an else belongs to the nearest if, a loop body is one statement), and bodies given as a statement, a block or an expression mean the same.',
  ['programs'], 'all combinations of up to a few dozen operators without brackets, all nestings of statements with and without braces',
  'Nearly all expressions in the tests have one or two operators.',
  ['src/compiler/parser/parser.c', 'src/compiler/lexer/lexer.c'],
  [('precedence', 'src/compiler/parser/parser.c PREC_*, expr_parse_fns, parse_expr'), ('statements', 'src/compiler/parser/parser.c parse_stmt')], tech=SRC, note=SRC_NOTE)

P('F06', 'Directives decide what is compiled and what runs when',
  'A definition behind conditions (cfg, env_defined, env_eq, env_ne; one or several, negated, nested in namespaces) is in the program exactly if every one of them holds, and else has no effect whatever; every function marked before_main runs once before main and every one marked after_main once after it, in the order of the text, the latter with main\'s result if it asks for it; main receives exactly the arguments of the process, argv ends in a null pointer, the low byte of main\'s result is the exit status, and all these functions start with the stack aligned; flag enums, private and deprecated mean what they say, and a directive that does not fit is an error.',
  ['inputs', 'programs'], 'all combinations of conditions and environments, all placements of hooks, all argument lists, all results of main',
  'No test has a condition that fails next to one that holds, a program with arguments, or an exit status other than 0.',
  ['src/compiler/parser/directives.c', 'src/compiler/parser/parser.c', 'src/compiler/parser/validator.c', 'src/compiler/codegen/asm/asm_codegen.c'],
  [('directives', 'src/compiler/parser/directives.c parse_directives, eval_*'), ('start', 'src/compiler/codegen/asm/asm_codegen.c asm_gen_entry_point'), ('main', 'src/compiler/parser/validator.c validate_main_fn')], tech=SRC, note=SRC_NOTE)
