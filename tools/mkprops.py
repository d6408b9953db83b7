import json
P=[]
def p(id,title,st,over,txt,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["stdout and exit status of compiled programs"],hook_needed=None)))
p("C01","Integer and boolean expressions compute the documented value",
 "Every int or bool expression of a compiled program (+ - * /, unary -, & | ^ ~ << >>, < <= > >= ==, and or not, ?:, literals in decimal and hex) evaluates to the value given by 63-bit two's complement arithmetic with wrap-around, truncating division and the language's precedence and associativity. This holds for all operand values including the extremes, for shift counts 0 to 63, for any nesting and parenthesisation, and wherever the operands come from (literals, variables, parameters, fields, array elements, captured variables, call results).",
 ["programs","inputs"],"all well-typed int/bool expressions over all operand values (shift counts 0..63, divisor not 0)",
 "tests/arith.clara, bits.clara and bool.clara evaluate a few dozen fixed expressions with small operands; combinations of nesting, operand source and extreme values are unbounded.",
 ["codegen.go","parse.go","semantic.go","asm.go","peep.go","lex/lex.go"],[("tag/untag around each operator","codegen.go genExpr"),("precedence climbing","parse.go parseExpr, lex.Kind.Precedence"),("constant folding and overflow check","semantic.go foldConstants"),("peephole optimiser","peep.go")])
p("C02","Control flow executes exactly the statements the program specifies",
 "For every program built from if/elseif/else, while, for over ranges (ascending a .. b, and descending a .. 0), for over arrays and array literals, match, nested blocks, shadowed declarations and return from any depth, the statements executed, their order and the final variable values are those of the language's semantics. In particular a range loop visits a..b-1 (or a-1..0 descending), an array loop visits each element once in order evaluating the array expression once, exactly one branch or case runs, and return leaves the function at once with the given value.",
 ["programs","inputs"],"all nestings of control-flow statements and all condition/bound values",
 "tests/flow.clara, for.clara and while examples run each construct once or twice with fixed bounds.",
 ["codegen.go","semantic.go","ast.go","typecheck.go"],[("branch and loop generation","codegen.go genIfElseIfElseStmts, genWhileStmt"),("lowering of for and match","semantic.go lowerForStatement, lowerMatchStatement")])
p("C03","Calls pass every argument and pick the right overload",
 "A call evaluates its arguments once, left to right, passes each to the matching parameter (up to 6 for functions and constructors, up to 5 for function values) and yields the callee's result, without disturbing any other live value of the caller, for any nesting of calls inside arguments, operators, indexes and other calls, and for direct and mutual recursion. x.f(a) means f(x, a) (a field f of x takes precedence and must then be a function), and when exactly one overload accepts the argument types that one runs, also when an overloaded name is passed as a function value, to an overloaded function too.",
 ["programs","inputs"],"all call shapes, arities, argument types, nesting depths and overload sets",
 "tests/fns.clara has a handful of 1-3 argument calls and few overloads; register saving depends on arity, position and nesting.",
 ["codegen.go","typecheck.go","closures.go","symtab.go","install/lib/runtime.clara"],[("register spill/restore around nested calls","codegen.go genFnCall, SpillRegisters, RestoreRegisters"),("overload matching","typecheck.go matchFuncCallBySymbol"),("dynamic calls","install/lib/runtime.clara invokeDynamic")])
p("C04","Closures capture exactly the variables they use, by value",
 "An anonymous function sees, for every variable of an enclosing scope it uses, the value that variable had when the function value was created; later assignments outside are not visible inside and assignments inside are visible only to later calls of the same function value, while mutations of captured structs and arrays are shared. This holds for any nesting of closures, shadowing, parameters and locals of the same name, captured function values, captures used as array, index, receiver, argument or operand, field names equal to variable names, and for function values stored in fields, arrays, enums or returned.",
 ["programs","histories"],"all nestings of scopes and closures, all capture sets up to 6 variables, all call histories of the closures",
 "tests/closures.clara and fns.clara check a dozen fixed shapes; free-variable analysis and rewriting depend on the shape of the code.",
 ["closures.go","codegen.go","ast.go","walk.go","install/lib/runtime.clara"],[("free variable analysis","closures.go freeVarChecker"),("environment rewriting","closures.go clRewriteFreeVars"),("closure dispatch","install/lib/runtime.clara invokeDynamic, isClosure")])
p("C05","Structs, enums and arrays store and share data as written",
 "Constructing a struct or enum value keeps each argument in its own field; reading a field, element or case variable gives the last value stored there and nothing else changes; struct, enum and array values are references, so a change through one alias is seen through all and through no other object. match runs the case of the constructor used and binds its fields in order, for any enum (up to 5 fields per case) and any nesting of structs, enums, arrays, functions and strings.",
 ["programs","histories"],"all declarations (field counts, types, nesting) and all histories of construct/read/write/alias/match operations",
 "tests/structs.clara, enums.clara and arrays.clara use three or four fixed declarations and few writes.",
 ["codegen.go","semantic.go","typecheck.go","ast.go","install/lib/arrays.clara","install/lib/enums.clara"],[("constructors","codegen.go genConstructor"),("field and element addressing","codegen.go genExpr opDot/opArray"),("match lowering","semantic.go lowerMatchStatement"),("array literals","semantic.go rewriteArrayLiteralExpr")])
p("C06","Generic code behaves the same for every type argument",
 "A generic function, struct or enum used at any type argument (int, bool, string, bytes, function, array, struct, enum, or another generic type), with inferred or explicit type arguments, behaves as the same code written out for that type: values come back unchanged with their type, fields of instantiated types have the substituted types, and the result does not depend on the order of declarations.",
 ["programs","inputs"],"all generic declarations, all type arguments and nestings of them",
 "tests/generics.clara instantiates a few generics at two or three types.",
 ["typecheck.go","semantic.go","symtab.go","install/lib/arrays.clara","install/lib/functional.clara"],[("type parameter binding","symtab.go MatchesImpl"),("substitution","typecheck.go substituteType"),("instantiation","semantic.go instantiateType")])
p("C07","The garbage collector never frees or alters reachable data",
 "At every allocation of every program, each object reachable from a live variable, parameter, captured variable, temporary of an unfinished expression, or the runtime's argument and environment data keeps its contents and is not freed. No program that stays inside the language reads, writes or frees released memory, frees a block twice, or crashes because of a collection.",
 ["programs","histories"],"all allocation histories: every object graph shape, every program point at which a collection can happen (each allocation collects)",
 "A collection runs at every allocation, so soundness depends on every stack map at every call site; tests observe only that a few printed values survive and reuse of freed memory usually goes unnoticed.",
 ["gc.go","codegen.go","install/lib/gc.clara","install/lib/mem.clara","install/init/runtime.c"],[("stack maps at call sites","codegen.go NewGcMap, GcState"),("type maps","codegen.go genTypeInfoTable"),("mark and sweep","install/lib/gc.clara"),("spilled registers and saved temporaries as roots","codegen.go SpillRegisters, saveAs")],["contents printed by the program","a recording allocator preloaded into the program"])
p("C08","Unreachable memory is reclaimed",
 "An object that became unreachable is freed by a following collection: the number of live heap blocks after a collection does not grow with the number of garbage objects created before, for any mix of allocation kinds (strings, bytes, arrays, structs, enums, closures, cyclic graphs, map and list operations). A program that creates garbage in a loop therefore runs in memory bounded by what it keeps.",
 ["programs","histories"],"all garbage-producing loop bodies and iteration counts",
 "tests/gc.clara only works on a machine with a given amount of memory and one array shape (it fails here); cycles, closures, enums and the exact count are not observed.",
 ["install/lib/gc.clara","install/lib/mem.clara","gc.go","codegen.go"],[("sweep and unlink","install/lib/gc.clara gcSweep"),("scoped roots","gc.go OpenScope/CloseScope"),("mark clearing","install/lib/gc.clara clearMark")],["live and peak block counts of a recording allocator preloaded into the program"])
p("C09","Out-of-range element access panics and touches nothing",
 "Reading or writing an array element, getting or setting a byte of bytes, or reading a byte of a string at index i succeeds exactly when 0 <= i < length, for every int i including negative and extreme values and every position of the access in an expression. Otherwise the program prints a panic message (for arrays with the index and the array length), exits with status 1, runs nothing after the access, and no memory is modified.",
 ["inputs","programs"],"all lengths, all int indexes, read and write, all element types and expression positions",
 "tests/panic has two programs, each with one out-of-range index.",
 ["codegen.go","install/lib/bytes.clara","install/lib/strings.clara","install/lib/runtime.clara"],[("unsigned compare against the length","codegen.go genExpr opArray"),("panic trampoline","codegen.go genIoobTrampoline"),("assertions","install/lib/bytes.clara get/set, install/lib/strings.clara byte")])
p("C10","String operations and literals agree with byte-string semantics",
 "A string literal denotes exactly the UTF-8 bytes written, with \\n, \\r, \\\\ and \\\" decoded, and .length is its byte count. append, Substring (valid ranges), IndexOf with and without start, Equals and byte give the results of the corresponding operations on byte sequences for all strings, including empty, multi-byte, long and computed ones, and never change their operands.",
 ["inputs"],"all strings (contents, lengths, origins) and all valid arguments",
 "tests/strings.clara checks some 40 fixed ASCII cases.",
 ["install/lib/strings.clara","install/lib/arrays.clara","asm.go","lex/lex.go"],[("byte copies","install/lib/strings.clara copyString, install/lib/arrays.clara copyArray"),("literal emission","asm.go stringLit, flush"),("search","install/lib/strings.clara IndexOf")])
p("C11","Numbers and booleans print exactly",
 "toString, print, println, printf (%d within 32 bits, %lli, %llx), printHex, printHexPadded and toBinary of any int, and toString/println of any bool, produce the exact decimal, hexadecimal or binary text of the value, over the whole 63-bit range. Reading the decimal or hex text of a value back as a literal gives the same value, and literals outside the range are rejected.",
 ["inputs"],"all ints in [-2^62, 2^62-1] and both bools",
 "tests/core.clara and arith.clara print a few values.",
 ["install/lib/core.clara","codegen.go","semantic.go"],[("digit loop","install/lib/core.clara toString, toBinary"),("untagging of arguments to C","codegen.go genFnCall"),("literal range check","semantic.go foldConstants")])
p("C12","bytes and byte buffers behave as growable byte sequences",
 "bytes of length n start zeroed and hold at each index the last byte set (low 8 bits, read back sign-extended). A byte buffer of any starting capacity >= 1 holds exactly the concatenation of what was appended since the last reset, across any growth; size, toString and substring report it, toString of bytes (whole, prefix or slice) yields exactly those bytes, and strings taken earlier never change.",
 ["inputs","histories"],"all capacities >= 1 and all histories of append(string)/append(byte)/substring/reset/toString/size and get/set",
 "tests/bytes.clara and strings.clara run one short fixed history.",
 ["install/lib/strings.clara","install/lib/bytes.clara","install/lib/arrays.clara"],[("growth","install/lib/strings.clara grow"),("append","install/lib/strings.clara append"),("raw byte access","codegen.go genRead, genWrite")])
p("C13","The hash map agrees with a reference map over any history",
 "After any sequence of put, get, remove, contains, orElse and foreach on a hash map, with any key and value type, any hasher returning non-negative ints (including constant ones) and matching equality, each operation returns what a reference associative map returns (put and remove return the previous value if any), size equals the number of entries, and foreach visits every entry exactly once, across any number of resizes.",
 ["histories","inputs"],"all operation histories, key sets, collision patterns and sizes across resizes",
 "tests/maps.clara puts and gets a few keys and never resizes under collisions or removes.",
 ["install/lib/map.clara","install/lib/list.clara","install/lib/functional.clara","install/lib/hash.clara"],[("bucket search","install/lib/map.clara search, indexFor"),("resize","install/lib/map.clara resize"),("remove","install/lib/map.clara remove, install/lib/list.clara remove")])
p("C14","Lists, options, results and hashing obey their functional laws",
 "toList, append (prepends), reverse, remove, find, foreach, map and reduce on lists, and isSome, isNone, filter, orElse, map, peek and then on option and result, and mod, give the same results as the obvious definitions on sequences and sum types, calling the supplied function once per relevant element in order and leaving the inputs unchanged. fnv1a of a string is its standard 32-bit FNV-1a hash.",
 ["inputs","histories"],"all lists, element types, predicates, functions and strings",
 "tests cover a single 10-element list with foreach and reduce, and 3 hash values.",
 ["install/lib/list.clara","install/lib/functional.clara","install/lib/hash.clara","install/lib/core.clara"],[("list recursion and loops","install/lib/list.clara"),("sum type operations","install/lib/functional.clara"),("hash loop","install/lib/hash.clara")])
p("C15","The compiler never crashes or hangs on any source text",
 "For every source file, however malformed, the compiler terminates and either reports one or more errors and exits with status 1, or produces an executable and exits with status 0. It never aborts with an internal panic and never accepts a program that the assembler or linker then rejects (other than for undefined external functions).",
 ["inputs"],"all byte sequences; especially near-valid programs: token deletions, insertions, swaps and truncations, and type-incorrect programs",
 "No test feeds invalid input to the parser or type checker.",
 ["main.go","parse.go","lex/lex.go","typecheck.go","semantic.go","closures.go","codegen.go"],[("error recovery","parse.go need, onUnexpectedEof"),("error collection","typecheck.go"),("exit status","main.go main")],["exit status and output of the compiler"])
p("C16","Programs that break a static rule are rejected",
 "A program that uses an undeclared name, field, type or enum case, redeclares a name in the same scope, has an operand, argument, condition, index, assignment or return value of the wrong type, a wrong number of arguments, type arguments or case variables, a non-exhaustive or repeated case, a missing return, assigns to something that is not a variable, field or element, uses a type as a value or (other than as an argument) the name of several overloads, or exceeds an argument limit, is rejected with an error. No executable is produced, and this holds wherever the offending code occurs in the program.",
 ["programs"],"all well-typed programs with one rule broken at any one place",
 "No test contains a program that must be rejected.",
 ["typecheck.go","semantic.go","symtab.go","ast.go"],[("type rules","typecheck.go typeCheck"),("declaration rules","semantic.go processTopLevelTypes"),("type equality","symtab.go MatchesImpl")],["exit status, messages and output files of the compiler"])
p("C17","Diagnostics name the file and line of the mistake",
 "When a program has exactly one mistake (lexical, syntax, name, type or arity), the first reported error names the program's file and the line on which the mistake is, whatever precedes it: comments, blank lines, multi-byte characters, long lines or other declarations. A program without mistakes yields no errors.",
 ["programs","inputs"],"all positions of a single mistake in otherwise correct programs",
 "No test looks at a diagnostic.",
 ["lex/lex.go","parse.go","typecheck.go","semantic.go"],[("token positions","lex/lex.go emit, lineNumber"),("error formatting","semantic.go semanticError"),("syntax errors","parse.go syntaxError")],["messages of the compiler"])
p("C18","Layout, comments, names, order and redundant parentheses do not matter",
 "The behaviour of a program is unchanged by adding or removing spaces, line breaks (LF or CRLF) and comments between tokens, consistently renaming user identifiers, reordering top-level declarations, putting parentheses around a complete operand or argument, writing a decimal literal in hex, writing f(x, a) as x.f(a) or an expression function as a block with return. This is for programs in which each call matches one overload only. Compiling the same program again gives the same behaviour.",
 ["programs"],"all programs and all compositions of these transformations",
 "Each test exists in one layout only.",
 ["lex/lex.go","parse.go","semantic.go","typecheck.go"],[("whitespace and comment tokens dropped","main.go lexAndParse"),("two-pass declaration processing","semantic.go processTopLevelTypes"),("scoped symbol tables","symtab.go")])
p("C19","The lexer reproduces its input token by token",
 "For every input the lexer terminates; the token texts concatenated give back the input exactly up to the end of input or the first error, each token has the kind its text denotes (longest operator, keyword versus identifier, decimal or hex integer, string with escapes, comment to end of line) and its line is 1 plus the number of line feeds before it. Inputs made of valid tokens separated by spaces lex to exactly those tokens.",
 ["inputs"],"all byte strings and all sequences of valid tokens",
 "lex/lex_test.go lexes 20 fixed strings and checks kinds only.",
 ["lex/lex.go"],[("state functions","lex/lex.go lexText and others"),("position tracking","lex/lex.go lineNumber, emit")],["tokens returned by lex.Lex(...).NextToken()"])
p("C20","Reading files returns exactly what is on disk or the real error",
 "Opening and reading a whole regular file yields exactly its bytes and size for any content and length, also repeatedly, after partial reads, and for several files open at once; reading n bytes into bytes fills exactly those from the current position. A missing path, a path through a non-directory, a bad descriptor or a too small buffer yields an error value with the system's error number, its description and the path, never a crash or wrong data.",
 ["inputs","fault_sequences"],"all file contents and sizes, path kinds and operation sequences (seek, read, size, readAll)",
 "No test reads a file.",
 ["install/lib/fs.clara","install/lib/io.clara","install/lib/err.clara","install/lib/functional.clara","install/init/runtime.c"],[("libc calls with raw values","install/lib/io.clara, install/lib/fs.clara"),("errno","install/init/runtime.c errnum"),("error text","install/lib/err.clara describe")])
p("C21","Programs see exactly their arguments and environment",
 "The runtime's argument array holds the program path and each argument byte for byte in order, and its environment map holds exactly the NAME to VALUE pairs of the process environment (split at the first =, a variable without one having the empty value), for any number, length and content of arguments and variables (arguments not starting with -). They stay intact for the whole run whatever the program allocates.",
 ["inputs","configurations"],"all argument vectors and environments",
 "tests/runtime.clara looks at one variable and no arguments.",
 ["install/lib/runtime.clara","install/init/bootstrap.c","install/lib/map.clara","install/lib/strings.clara"],[("C string parsing","install/lib/runtime.clara parseArgs, parseEnv, parseCString"),("runtime as GC root","install/lib/gc.clara gcMark")])
p("C22","Options that print diagnostics do not change the outcome",
 "For every program, compiling with any combination of -lex, -ast REGEX, -types, -asm and -in, and with the output directory given absolutely, relatively or by default, ends with the same exit status and the same errors as without them, and on success writes an executable that behaves the same. Running a program with --gc.debug leaves its own output, in order, and its exit status unchanged.",
 ["programs","configurations"],"all programs, valid or not, and all option combinations",
 "No test uses an option; the printing code runs over every node of every program.",
 ["main.go","typecheck.go","ast.go","lex/lex.go","install/lib/gc.clara","install/init/runtime.c","install/init/bootstrap.c"],[("options","main.go main, Compile"),("type information","typecheck.go printTypeInfo"),("tree printing","ast.go printTree"),("GC log","install/init/runtime.c debug")])
p("C23","External C functions get and return the right values",
 "A function declared without a body calls the C function of that name. With #[RawValues] each int arrives as the C integer of the same value, each string and bytes as a pointer to its first byte (strings NUL-terminated), and an integer result comes back as the int of that value; without the attribute values are passed and returned as they are. This holds for 0 to 6 parameters and any nesting of such calls inside arguments, operators, closures and loops, with the stack aligned as the C ABI requires and no other live value disturbed.",
 ["programs","inputs"],"all signatures up to 6 parameters, argument values and call positions",
 "The tests use external functions only through the library (printf, exit, open).",
 ["codegen.go","semantic.go","parse.go","symtab.go"],[("raw values and alignment","codegen.go genFnCall"),("attributes","parse.go attributes, semantic.go")])
p("C24","Time values convert exactly and follow the clock",
 "toMicros, toMillis and toSecs of a time of s seconds and u microseconds are s*1000000+u and its truncating quotients by 1000 and 1000000 in 63-bit arithmetic, for all field values. Now() is the system's time: between the moments just before and after the call, with 0 to 999999 microseconds, never decreasing while the clock is not set back, and its value stays what it was.",
 ["inputs","histories"],"all field values and all sequences of clock readings",
 "No test uses time.",
 ["install/lib/time.clara","codegen.go"],[("conversions","install/lib/time.clara toMicros, toMillis, toSecs"),("clock","install/lib/time.clara Now")])
p("C25","exit, panic and assert end the program at once",
 "exit(n) ends the program with status n modulo 256, panic(s) and assert(false, s) print a panic message containing s and end it with status 1, wherever they are executed: in any function, recursion, loop, branch, match case, closure or argument. All output made before appears, in order, and nothing after them runs; assert(true, s) does nothing. A program whose main returns ends with status 0.",
 ["programs","inputs"],"all places of execution, status values and messages",
 "tests/panic has two programs that panic at the top level of main.",
 ["install/lib/runtime.clara","codegen.go","install/init/bootstrap.c"],[("panic","install/lib/runtime.clara panic, assert, exit"),("entry point","codegen.go, install/init/bootstrap.c main")])
p("C26","Compilations are independent of each other and of what came before",
 "What a compilation yields depends on its program and options only: compiling several programs at the same time, one after the other or one over the other, also with the same file name and a common directory for temporary files, gives each program the executable and the diagnostics it would get alone, and compiling the same program again gives the same verdict, the same diagnostics and an executable that behaves the same. A successful compilation leaves one executable in the output directory and changes or adds nothing else there or beside the source; a failed one adds nothing.",
 ["programs","schedules","histories"],"all sets of programs and all orders and overlaps of their compilations",
 "The tests compile each program once, one at a time (the runner even forbids parallel tests).",
 ["main.go","codegen.go","closures.go","asm.go"],[("intermediate assembly file","main.go Compile"),("iteration over maps","closures.go clIdentifyFreeVars, codegen.go genFunc, asm.go flush")])
p("C27","The size of a program or of its data does not change its meaning",
 "A valid program is compiled and means the same however many variables, functions, overloads, types, enum cases, string literals, closures, statements, branches or elements it has, however deeply its blocks, expressions, calls and types are nested, however long its names and literals are, and however large its arrays, strings, buffers, lists, maps and call stacks get, as long as memory and stack suffice: every one of them keeps its own value and is reached, called, matched, kept by the collector and printed as in a small program. (The documented limits on parameters and fields aside.)",
 ["programs","sizes"],"all sizes along every dimension of a program, within memory",
 "The test programs are all small: a few variables, types, cases, literals and elements each.",
 ["codegen.go","asm.go","gc.go","semantic.go","closures.go","install/lib"],[("stack frames","codegen.go genFnEntry, asm.go memOp"),("type ids","gc.go GcTypes"),("literals and labels","asm.go stringLit, newLabel"),("stack maps","codegen.go NewGcMap")])
p("C28","Text outside the grammar is rejected, text inside it is not",
 "A source text which is not a sequence of valid tokens, or whose tokens do not form complete declarations according to the grammar (a missing, extra, misplaced or mismatched bracket, separator, operator, operand, name or keyword, a phrase where it does not belong, such as elseif after else, or an end of the text inside a declaration), is rejected with an error and no executable is produced, wherever in the text the mistake is. A text which is in the grammar is never rejected with a syntax error.",
 ["inputs"],"all source texts, especially those a small edit away from a valid program",
 "The tests compile valid programs only; whether the parser lets a malformed one pass, or recovers from an error without reporting it, shows on inputs nobody wrote down.",
 ["parse.go","lex/lex.go","main.go"],[("grammar","parse.go Parse, parseStatement, parseExpr, parseType"),("error recovery","parse.go need, syntaxError, onUnexpectedEof")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
