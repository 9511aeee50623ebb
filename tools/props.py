import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["stdout, stderr and the status of YASL_execute"],hook_needed=None)))

p("C01","Operators compute the language's arithmetic, logic and precedence",
 "Every expression over undef, bool, int, float and str values evaluates to the value that its operators define: ints are 64-bit and wrap around, floats are IEEE doubles, mixed operands promote to float, comparisons and truthiness (only undef, false, '' and NaN are falsey) follow the operand types, and &&, ||, ??, ?: evaluate only the operands they need, returning the operand itself. Precedence and associativity decide the grouping of unparenthesised operators exactly as the grammar documents. An operator applied to operand types it isn't defined for raises a TypeError (division of ints by zero a DivisionByZeroError) and never yields a value.",
 ["inputs","programs"],"all expression trees and all scalar operand values, including boundary ints, NaN, infinities, negative zero and empty strs",
 "The tests evaluate a few hundred fixed expressions with small operands; they cannot cover operator/type/value products or arbitrary nesting.",
 ["interpreter/VM.c","compiler/parser.c","compiler/compiler.c","compiler/middleend.c"],
 [("vm_int_binop, vm_num_binop, vm_fdiv, vm_pow, DEFINE_COMP","interpreter/VM.c"),("BINOP_L/BINOP_R ladder, parse_unary, parse_power, parse_ternary","compiler/parser.c"),("visit_BinOp (short circuit), visit_TriOp","compiler/compiler.c")])
p("C02","Compile-time evaluation of constants is invisible",
 "Replacing literal operands in an expression with variables, parameters or function results that hold the same values never changes what the program does: same value, same type, same output, or the same kind of error raised at run time at the same point.",
 ["programs"],"all expressions over literals, in every syntactic position an expression can occupy",
 "The tests check folded bytecode for a handful of expressions; no test compares folded with unfolded evaluation.",
 ["compiler/middleend.c","compiler/parser.c","interpreter/VM.c"],
 [("fold, fold_BinOp, fold_UnOp","compiler/middleend.c"),("parse_expr calls fold","compiler/parser.c")])
p("C03","Control flow runs exactly the statements it selects",
 "if/elseif/else, while, C-style for, for-in, break, continue and return execute exactly the statements their conditions select, in order, at every nesting: break and continue act on the innermost loop, a C-style loop's update runs after continue, and return leaves all enclosing loops of its function. After any of them, variables declared outside keep the values last assigned to them, and the program continues as if the construct's temporaries had never existed.",
 ["programs"],"all nestings of control statements, inside and outside functions, with any placement of break, continue and return",
 "The tests run one or two loops each; nested break/continue/return combinations with locals alive around them are not sampled.",
 ["compiler/compiler.c","interpreter/VM.c","compiler/env.c"],
 [("visit_If, visit_While_true, visit_ForIter, visit_Break, visit_Continue","compiler/compiler.c"),("NEWSPECIAL/ENDFOR/ITER_1 loop frames","interpreter/VM.c")])
p("C04","Variables are lexically scoped, and closures capture variables",
 "A name always refers to the innermost declaration visible where it is written; inner declarations shadow and never alter outer ones, and a variable keeps its value until it is assigned. Closures share the captured variable itself with its scope and with each other, also after the scope has ended; each entry of a scope makes new variables. Assigning to a const, redeclaring a name in the same scope and using an undeclared name are syntax errors that prevent any of the program from running.",
 ["programs"],"all nestings of functions, blocks and declarations, any number of locals up to the limit, captures at any depth",
 "The tests use a few hand-written closures; capture depth, number of locals, order of closing and sharing are unbounded.",
 ["compiler/env.c","compiler/compiler.c","interpreter/VM.c","interpreter/upvalue.c"],
 [("env_resolve_upval, scope_get","compiler/env.c"),("add_upvalue, vm_close_from","interpreter/VM.c"),("visit_Let, visit_Const, visit_Assign","compiler/compiler.c")])
p("C05","Calls pass arguments and return values by position",
 "A call evaluates the callee and its arguments left to right once, binds them to parameters by position (missing ones are undef, surplus ones are dropped) and yields the returned values; a call used as a single value yields its first value or undef. A call in the last position of an argument list, return or multiple declaration/assignment contributes all its values, which are padded with undef or cut to what is expected. Recursion, mutual recursion and method calls (receiver first) follow the same rules, and a caller's variables are unaffected by a call.",
 ["programs"],"all call graphs, argument counts and numbers of returned values, in every expression position",
 "The tests cover a few arities; combinations of expansion, nesting and arity are unbounded.",
 ["compiler/compiler.c","compiler/parser.c","interpreter/VM.c"],
 [("vm_enterframe_offset, vm_fill_args, vm_exitframe_multi, vm_INIT_MC","interpreter/VM.c"),("visit_Call, visit_MethodCall, visit_VariadicContext, visit_Decl","compiler/compiler.c")])
p("C06","match runs the first arm whose pattern and guard accept the value",
 "A match statement runs the body of exactly the first arm whose pattern accepts the value and whose guard (if any) is truthy, and no other; list, table, variadic, alternative, type, literal and wildcard patterns accept exactly the values of the shape they describe, to any depth. Names bound by a pattern hold the parts of the value they stand for. The value itself is not modified, and the program continues normally after the match.",
 ["inputs","programs"],"all patterns and all values, arms in any order",
 "The tests match a few dozen fixed pattern/value pairs; the product of patterns and values is unbounded.",
 ["compiler/compiler.c","interpreter/VM.c","compiler/parser.c"],
 [("vm_MATCH_subpattern, vm_ff_subpattern","interpreter/VM.c"),("visit_Match, visit_Pat*","compiler/compiler.c"),("parse_pattern","compiler/parser.c")])
p("C07","Lists behave as mutable sequences over any history",
 "After any history of operations (indexing with positive and negative indices, assignment, push, pop, insert, slicing, +, copy, reverse, clear, search, count, join, len, iteration) on any number of aliased and unaliased lists, every list holds exactly the elements a mathematical sequence would. Operations that produce a new list never change or share state with their operands; aliases observe each other's changes. An index or argument outside the documented range or type raises an error and leaves the list as it was.",
 ["histories"],"all operation histories and element values, any list size",
 "The tests call each method a few times on short lists; growth, aliasing and histories are not explored.",
 ["interpreter/list_methods.c","data-structures/YASL_List.c","interpreter/VM.c"],
 [("list_* methods","interpreter/list_methods.c"),("YASL_List_append, YASL_List_insert, YASL_reverse","data-structures/YASL_List.c"),("vm_SLICE_list","interpreter/VM.c")])
p("C08","Tables behave as maps over any history",
 "After any history of insertions, overwrites, removals (remove or assigning undef), clear, copy, | (right operand wins) and lookups, a table holds exactly the key/value pairs a map would; len, keys, values, iteration, lookup of present and absent keys and tostr all agree with it, whatever the collisions, growth and shrinkage along the way. Keys of different types are different keys unless equal as numbers are specified to be; mutable values are rejected as keys with a TypeError, without effect. Copies and unions share no state with their operands.",
 ["histories"],"all operation histories over undef, bool, int, float and str keys, any table size",
 "The tests insert a handful of keys; rehashing, deleted slots, collisions and shrinking need long histories.",
 ["interpreter/table_methods.c","data-structures/YASL_Table.c","util/hash_function.c"],
 [("YASL_Table_insert/rm/search, table_resize","data-structures/YASL_Table.c"),("table_* methods","interpreter/table_methods.c")])
p("C09","Sets behave as mathematical sets over any history",
 "After any history of add, remove, clear and copy, and for any results of |, &, ^ and &^, a set contains exactly the elements a mathematical set would; len, membership, tolist, tostr, ==, <, <=, >, >= agree with it. Operations that produce a new set leave their operands unchanged and share no state with them; mutable elements are rejected with a TypeError, without effect.",
 ["histories"],"all operation histories over bool, int, float and str elements, any set size",
 "The tests use sets of a few elements, with almost no removals.",
 ["std/yasl-std-collections.c","data-structures/YASL_Set.c","util/hash_function.c"],
 [("YASL_Set_insert/rm/search/union/intersection/...","data-structures/YASL_Set.c"),("YASL_collections_set_*","std/yasl-std-collections.c")])
p("C10","str operations agree with operations on byte sequences",
 "For all strs (including empty ones, ones with embedded NULs or any other bytes, and ones that are slices of other strs) len, indexing, slicing, ~, comparison, startswith, endswith, search, count, split, replace, trim/ltrim/rtrim, rep, toupper, tolower, is*, iteration and list.join yield what the same operation on the byte sequence yields, and never change any existing str. Arguments outside the documented domain (empty separators, negative counts, indices out of range, wrong types) raise an error.",
 ["inputs","histories"],"all byte strs, and all ways of building them from other strs",
 "The tests run fixed short ASCII strs; substrings, overlaps, empty results and boundary positions are not covered.",
 ["interpreter/str_methods.c","data-structures/YASL_String.c","interpreter/VM.c"],
 [("YASL_String_* functions","data-structures/YASL_String.c"),("str_* methods","interpreter/str_methods.c"),("vm_SLICE_str, vm_CNCT","interpreter/VM.c")])
p("C11","Source text means what its tokens say",
 "Int literals in any base, with any separators, float literals, the three kinds of str literals with all escapes, and interpolation denote exactly the value they spell. Comments, blank lines, and spaces or newlines wherever the grammar permits them never change what a program does; statement terminators may be newlines or semicolons.",
 ["inputs","programs"],"all literal spellings and all placements of trivia in programs",
 "The tests lex a few literals and comments; placements and spellings are unbounded.",
 ["compiler/lexer.c","compiler/lexinput.c","compiler/parser.c"],
 [("gettok, lex_eatnumber, handle_escapes, lex_eatcommentsandwhitespace","compiler/lexer.c"),("get_int, get_float, parse_string","compiler/parser.c")])
p("C12","Equality, identity, ordering and keys are coherent",
 "== is deep and structural on lists, tables and sets, exact on strs and bools, numeric across int and float, and false between unrelated types; != and !== are the negations of == and ===. Ints and strs are totally ordered by <, and <, <=, >, >= agree with each other and with ==. A table or set finds a key exactly when an equal key of the same type was stored, however either key was computed.",
 ["inputs"],"all pairs and triples of values, built in any way",
 "The tests compare fixed pairs; laws over all pairs and construction routes are not sampled.",
 ["interpreter/YASL_Object.c","interpreter/VM.c","interpreter/list_methods.c","interpreter/table_methods.c","data-structures/YASL_Table.c"],
 [("isequal, isequal_typed, yasl_object_cmp","interpreter/YASL_Object.c"),("vm_EQ, vm_ID","interpreter/VM.c"),("list___eq, table___eq","interpreter/list_methods.c, interpreter/table_methods.c")])
p("C13","Sorting yields the ordered permutation of the list",
 "sort leaves in a list of numbers (without NaN) or of strs exactly the elements it held, with the same multiplicities and types, in non-decreasing order, for every size, initial order and number of duplicates; sorting a list twice changes nothing. A list with anything else raises a ValueError and is left as it was.",
 ["inputs"],"all lists of numbers or strs, including heavily duplicated, sorted, reversed and large ones",
 "The tests sort a few short lists.",
 ["interpreter/list_methods.c","interpreter/YASL_Object.c"],
 [("sort, list_sort","interpreter/list_methods.c"),("yasl_object_cmp","interpreter/YASL_Object.c")])
p("C14","Loops and comprehensions visit each element exactly once",
 "for-in over a list or str visits its elements in order, over a table each key exactly once; any other value raises a TypeError. A list or table comprehension yields exactly the elements or pairs that the equivalent loop with the same condition would have produced, in the same order, and evaluates its parts as often. Iterations can be nested over the same or other collections, and can be left early, without affecting each other or the collection.",
 ["programs","inputs"],"all collections, nestings, conditions and early exits",
 "The tests iterate over a few short collections.",
 ["interpreter/VM.c","compiler/compiler.c"],
 [("vm_ITER_1","interpreter/VM.c"),("visit_ForIter, visit_ListComp, visit_TableComp","compiler/compiler.c")])
p("C15","Values have one textual form, used everywhere",
 "echo, interpolation, ~, tostr and list.join give the same text for the same value: ints in decimal, floats with up to six decimals (inf, -inf, nan), lists, tables and sets with the text of their elements to any depth, and cyclic references abbreviated rather than followed. int and finite float literals, and what toint and tofloat accept, round-trip through their text.",
 ["inputs"],"all values, including nested, shared and cyclic collections and collections with their own tostr",
 "The tests print a few values.",
 ["interpreter/VM.c","interpreter/list_methods.c","interpreter/table_methods.c","util/yasl_float.c","data-structures/YASL_String.c"],
 [("vm_stringify_top, vm_CNCT","interpreter/VM.c"),("list_tostr_helper, table_tostr_helper, rec_call","interpreter/list_methods.c, interpreter/table_methods.c"),("float64_to_str","util/yasl_float.c"),("parseint64, parsedouble","data-structures/YASL_String.c")])
p("C16","Metatables decide what operators do with a value",
 "For a table, list or userdata with a metatable, each overloadable operator, len, indexing, index assignment, call of a method and stringification runs the function the metatable provides with the operands in order, and uses its result; without one, the operation raises an error or (for indexing) falls back on the table itself. The functions run exactly once per operation, may themselves use any operators, call or raise errors, and other values' behaviour is unaffected.",
 ["programs"],"all operators, metatables, operand types and nestings of overloads",
 "The tests overload each operator once, in isolation.",
 ["interpreter/VM.c","std/yasl-std-mt.c"],
 [("vm_lookup_method_throwing, vm_INIT_CALL_offset, lookup2, vm_SET","interpreter/VM.c"),("YASL_mt_setmt","std/yasl-std-mt.c")])
p("C17","A runtime error stops the program there and is reported faithfully",
 "A program that fails at run time produces exactly the output of the statements before the failing operation and nothing after it, prints one message that names the kind of error, and the run's status is the code for that kind. The message names the source line the failing operation is on and, for each function call in progress, the line of the call, innermost first. A program without runtime errors prints nothing to stderr and has status success.",
 ["programs"],"all failing operations at all positions: nested in calls, loops, comprehensions, methods, overloads and patterns",
 "The tests check some eighty fixed failing programs.",
 ["interpreter/VM.c","yasl.c","yasl_error.h","compiler/compiler.c"],
 [("vm_throw_err, vm_print_err, printline, vm_getcurrline","interpreter/VM.c"),("YASL_execute","yasl.c"),("line table","compiler/compiler.c")])
p("C18","Any bytes are safe to run as source",
 "For every sequence of bytes given as source, compiling and running it ends with a success or error status without reading or writing memory it shouldn't, whatever it contains and wherever it ends. If it has a syntax error, the status is a syntax error, a message goes to stderr, and none of the program runs.",
 ["inputs"],"all byte sequences: random, mutated and truncated programs, and grammatical ones",
 "The tests have some dozens of malformed programs.",
 ["compiler/lexer.c","compiler/parser.c","compiler/compiler.c","compiler/lexinput.c","compiler/ast.c"],
 [("lex_error, handle_error, eattok","compiler/lexer.c, compiler/parser.c"),("compile, YASL_compile","compiler/compiler.c, yasl.c")],["sanitizer reports","status, stdout, stderr"])
p("C19","Running a program never corrupts or leaks memory",
 "Whatever a program does, successful or failing at any point, no freed or foreign memory is accessed, and once its state is deleted all memory of values that don't refer to themselves has been released. Userdata destructors run exactly once, and not while the value is still reachable.",
 ["programs","histories"],"all programs, with runtime errors at any point, mixing collections, closures, strs, methods and embedding calls",
 "The project's valgrind pass covers only its own scripts.",
 ["interpreter/refcount.c","interpreter/VM.c","yasl.c","interpreter/userdata.c","data-structures/YASL_List.c","data-structures/YASL_Table.c"],
 [("inc_ref, dec_ref","interpreter/refcount.c"),("vm_push, vm_rm_range, vm_cleanup","interpreter/VM.c"),("ud_del","interpreter/userdata.c")],["sanitizer reports","count of live blocks after YASL_delstate"])
p("C20","Each embedding call has exactly its documented stack effect",
 "Every function of the embedding API changes the value stack only as documented: it pops and pushes as many values as stated, the values it pushes and returns are those stated, values below are untouched, peeks and type queries change nothing and agree with the value at that place, and each returns its documented default for values of other types.",
 ["histories"],"all sequences of API calls that respect the documented preconditions, on all values",
 "The API tests call some functions once each.",
 ["yasl.c","yasl.h","yasl_aux.c"],
 [("YASL_push*, YASL_pop*, YASL_peek*, YASL_is*, YASL_list*, YASL_table*","yasl.c")],["return values and the stack, read back through the API"])
p("C21","How a program is delivered doesn't matter",
 "The same source run from a buffer, from a file, through the command line tool (as a file or an argument), with its output captured or not, produces the same output, errors and status.",
 ["programs","configurations"],"all programs, valid or not, of any size and with any final bytes",
 "The tests run each script one way.",
 ["compiler/lexinput.c","yasl.c","main.c","util/IO.c"],
 [("lexinput_new_bb, lexinput_new_file","compiler/lexinput.c"),("io_print_file, io_print_string","util/IO.c"),("main_file, main_command","main.c")])
p("C22","A session of inputs behaves like one program",
 "Running statements one after another in a session (the REPL, or a state that is reset with new source) has the effect of running them as one program over global variables: each sees the globals and functions the earlier ones left, expression statements additionally print their value in the REPL, and an input that fails, by syntax or at run time, has only the effects of its statements before the failure and leaves the session usable.",
 ["histories"],"all sequences of inputs with failing ones at any place, any split of a program into inputs",
 "The tests never run more than one source on a state.",
 ["yasl.c","compiler/compiler.c","compiler/env.c","main.c"],
 [("YASL_resetstate_bb, YASL_execute_REPL","yasl.c"),("compile_REPL","compiler/compiler.c"),("scope of globals","compiler/env.c")])
p("C23","Files hold what was written to them",
 "For any history of open (every mode), write, read, seek, flush and close on files, what each read returns, each call's result and the file's final bytes are those of the standard file semantics for that history, byte for byte. Using a closed file or a bad mode raises an error, opening a file that can't be opened yields undef, and files still open when the state goes away are flushed and closed.",
 ["histories"],"all operation histories and file contents, including NULs, empty files and long lines",
 "The tests write and read back one or two short strs.",
 ["std/yasl-std-io.c"],[("YASL_io_open/read/write/seek/flush/close","std/yasl-std-io.c")],["values returned to the script, and the bytes of the file"])
p("C24","math functions compute their mathematical results",
 "For all numeric arguments in their domains the functions and constants of math return the values of the C library for the same argument, with max, min, abs, gcd, lcm and isprime exact on ints and preserving the type of what they return; arguments of other types raise a TypeError.",
 ["inputs"],"all argument values and counts",
 "The tests evaluate each function at a few points.",
 ["std/yasl-std-math.c","util/prime.c"],[("YASL_math_*","std/yasl-std-math.c"),("is_prime","util/prime.c")])
p("C25","A required module runs once per require and yields its export",
 "require runs the named source in a scope of its own and evaluates to the exported value, whatever its type; functions of the module keep working in the importing program, including with its own constants, closures and further requires, and neither side's variables are visible to the other. A missing, invalid or failing module makes require raise an error.",
 ["programs","configurations"],"all trees of modules, exports of any value, requires at any place",
 "The tests require a couple of fixed modules.",
 ["std/yasl-std-require.c","yasl.c","compiler/compiler.c"],[("YASL_require","std/yasl-std-require.c"),("visit_Export","compiler/compiler.c")])
p("C26","The size of a program doesn't change its meaning",
 "Programs keep their meaning as they grow: any number of constants, statements, functions, nested expressions, collection elements, locals (up to the documented limit per function) and length of jumps, names and strs. A limit that is exceeded (locals, call depth, stack) is reported as an error of its kind, never as a wrong result or crash, and the state stays usable.",
 ["programs"],"all program sizes on both sides of the encoding's thresholds and the stated limits",
 "The test scripts are small; few reach the wide encodings.",
 ["compiler/compiler.c","interpreter/VM.c","util/varint.c","compiler/env.c"],
 [("O_LIT/O_LIT8, jumps, line table varints","compiler/compiler.c"),("NUM_FRAMES, STACK_SIZE checks","interpreter/VM.c")])
p("C27","States are isolated from each other",
 "Two states in one process never affect each other, in whatever order they are created, used and deleted: each behaves as it would alone.",
 ["histories","schedules"],"all programs and all interleavings of the steps of two states",
 "The tests use one state at a time.",
 ["yasl.c","interpreter/VM.c","interpreter/builtins.c"],[("YASL_newstate_bb, vm_init","yasl.c, interpreter/VM.c")])
p("C28","Compiling runs nothing and changes nothing",
 "Compiling a program has no effect but its status and its error messages, which are those running it would have had as far as compile time errors go: nothing is printed or called, no file, global or shared table changes, and inputs run later behave as if it had not been compiled.",
 ["programs"],"all programs, valid or not",
 "The tests check bytecode for a few sources only.",
 ["yasl.c","compiler/compiler.c"],[("YASL_compile","yasl.c"),("compile","compiler/compiler.c")])
p("C29","Host and scripts exchange values and calls faithfully",
 "Values a host passes to scripts through globals, arguments and collections arrive unchanged and vice versa; a script calling a host function passes it exactly the declared number of arguments (or the count of variadic ones) and gets exactly what it returned, and the host calling a script function gets all it returned. Errors raised on either side end the run with that error's status.",
 ["histories","programs"],"all values, host function arities, numbers of results, and nestings of host and script calls",
 "The API tests pass a few ints.",
 ["yasl.c","yasl_aux.c","interpreter/VM.c"],[("YASL_functioncall, YASL_setglobal, YASL_loadglobal, YASL_pushcfunction","yasl.c"),("vm_CALL_cfn","interpreter/VM.c")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
print(len(P))
