import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('C01','Garbage collection never changes what a program does',
 "Whatever moments garbage collection happens at, and however small or growing the heap is, a Scheme program that fits in memory gives exactly the same output, result and exit status as it gives without any collection: no live datum (pair, string, symbol, number, character, vector, hash table, struct, closure, macro, continuation, port, variable or values) is lost, altered, duplicated or given a different identity, and sharing and cycles are kept. A program that cannot fit ends with a diagnostic (out of memory, stack full) and a non-zero status, after a prefix of the right output.",
 ['schedules','programs','configurations'],'every program, every choice of collection points, every initial and maximal arena, jam and safety size',
 'Tests run with one large fixed arena, in which collection is rare; each collection point is a separate schedule, and a missed root shows only when a collection falls between two particular allocations.',
 ['src/gc.c','src/eval-apply.c','src/stack.c','src/hash.c','src/vector.c','src/struct.c'],
 [('stop-and-copy collector, arena growth','src/gc.c'),('collection points between evaluation steps','src/eval-apply.c')],
 [('arena','the cells and their free pointer','src/gc.c'),('g_stack','machine stack and registers, the roots','src/gc.c')],
 ['stdout, stderr, exit status of mes'])
p('C02','Core expressions evaluate as Scheme defines',
 "Every expression built from constants, variables, quote, if, lambda (fixed, rest and dotted parameters), application, begin, define (top-level and internal), set!, let, let*, letrec, named let, and, or, cond, case, when, unless, do and (one level of) quasiquote evaluates to the value, and performs its side effects exactly once and in the order, that Scheme defines; closures capture variables, not values, and scope is lexical (the names of the special forms themselves are not rebound). Tail calls run in constant space.",
 ['programs','inputs'],'every well-formed closed expression over these forms',
 'The tests evaluate a few hundred fixed expressions; the evaluator caches macro expansions and variable look-ups in the code it runs, so behaviour depends on nesting, on order and on what ran before.',
 ['src/eval-apply.c','src/core.c','mes/module/mes/base.mes','mes/module/mes/let.mes','mes/module/mes/scm.mes','mes/module/mes/quasiquote.mes'],
 [('register machine with explicit stack','src/eval-apply.c'),('macros for derived forms','mes/module/mes/*.mes')],
 [('R0-R3','environment, code and continuation registers','src/globals.c')],['value printed by mes'])
p('C03','Continuations, exceptions and multiple values transfer control correctly',
 "Calling a continuation, throwing to a catch, or returning multiple values resumes exactly the captured or installed receiver with exactly the given values, however the captures, calls, catches (by key or by #t) and throws are nested and repeated, also when a continuation is entered again after it has returned; handlers see the key and the arguments thrown, the innermost matching handler wins, the guards of dynamic-wind run around a thunk that returns normally, and an unhandled throw or error ends the program with a non-zero status.",
 ['programs','histories'],'every nesting and sequence of captures, invocations, throws and value returns',
 'Tests use a handful of escapes; re-entry, nesting and rethrow combine without bound.',
 ['src/eval-apply.c','src/core.c','src/stack.c','mes/module/mes/catch.mes','mes/module/mes/fluids.mes','mes/module/srfi/srfi-8.mes'],
 [('stack copied into and out of a continuation','src/eval-apply.c'),('catch and throw over fluids','mes/module/mes/catch.mes')],
 [('g_stack','evaluation stack','src/gc.c'),('%eh','current exception handler','mes/module/mes/catch.mes')],['value printed by mes; exit status'])
p('C04','Reading and printing data are inverse and total',
 "Every external representation of the supported data (integers in decimal, #b, #o, #x; strings with escapes; characters by name, octal or itself; symbols, keywords, booleans, lists, dotted lists, vectors; quote, quasiquote, unquote forms; line, block, datum and shebang comments) reads as the datum it denotes, independent of white space and comments between tokens; an unfinished datum is an error and never a datum; write followed by read yields an equal datum, write prints as Scheme does, and display prints strings and characters raw.",
 ['inputs'],'every text over the lexical alphabet and every datum',
 'Tests read a few fixed texts; delimiters, escapes, nesting and comments interact in every position.',
 ['src/reader.c','src/display.c','mes/module/mes/guile.mes'],
 [('recursive descent reader','src/reader.c'),('printer','src/display.c')],[],['datum returned by read; bytes written by write and display'])
p('C05','Integer arithmetic is exact within the machine word',
 "For all integer arguments whose exact result fits the machine word, +, -, *, quotient, remainder, modulo, expt, abs, min, max, 1+, 1-, the comparisons = < > <= >=, the predicates zero? positive? negative? even? odd?, and the bit operations logand, logior, logxor, lognot and ash give the mathematically exact result, for any number of arguments they accept; number->string and string->number convert in radices 2 to 10 and 16 without loss, string->number refuses what is not a numeral, and numbers print and read exactly.",
 ['inputs'],'all tuples of machine-word integers',
 'Tests try a few small positive operands; sign combinations, word boundaries and argument counts are not sampled.',
 ['src/math.c','src/display.c','src/reader.c','mes/module/mes/scm.mes','lib/mes/ntoab.c','lib/mes/div.c'],
 [('fixnum arithmetic','src/math.c'),('derived operations','mes/module/mes/scm.mes')],[],['value printed by mes'])
p('C06','List operations return what their specification says',
 "The list procedures of the core and of SRFI-1 as provided (cons car cdr c[ad]+r list cons* length append reverse list-ref list-head list-tail last last-pair memq memv member assq assv assoc and their -ref and -set! variants, map for-each filter filter-map append-map fold fold-right reduce unfold delete delq remove partition delete-duplicates find any every iota list-index take drop take-while append-reverse reverse! lset operations and so on) return the result of their specification on every proper list, do not change arguments they are not allowed to change, call procedure arguments on the right elements in the right order, and eq?, eqv? and equal? relate exactly the data they should.",
 ['inputs'],'all lists, all element values, all procedure arguments',
 'Tests call each with one or two arguments; empty lists, duplicates, unequal lengths and aliasing are mostly not reached.',
 ['src/core.c','src/lib.c','mes/module/mes/scm.mes','mes/module/mes/base.mes','mes/module/srfi/srfi-1.mes','mes/module/srfi/srfi-1.scm'],
 [('list primitives','src/core.c src/lib.c'),('library definitions','mes/module/srfi/srfi-1.mes')],[],['value printed by mes'])
p('C07','Mutable data keep exactly what was stored',
 "After any sequence of operations on pairs (set-car!, set-cdr!), vectors, hash tables (with symbols as keys through hashq-set!, hashq-ref, and strings through hash-set!, hash-ref, their defaults and removal), association lists, records (SRFI-9, with predicates and accessors that refuse other types) and variables (set!, define), also through aliases, every read returns the value most recently stored under that place or key, or the default if none was, and no other place changes; string->symbol gives one identity per name and distinct names distinct symbols; copies (vector-copy, string-copy, list-copying procedures) are independent of the original.",
 ['histories'],'every finite sequence of operations over every set of aliased objects and keys',
 'Tests perform one or two updates; a lost or misplaced update needs a particular history (colliding keys, aliases, repeated sets).',
 ['src/hash.c','src/vector.c','src/struct.c','src/symbol.c','src/module.c','src/core.c','src/lib.c','mes/module/srfi/srfi-9.mes','mes/module/srfi/srfi-9-struct.mes','mes/module/srfi/srfi-43.mes'],
 [('hash buckets','src/hash.c'),('cells','src/vector.c src/struct.c')],[('buckets','association lists by hash','src/hash.c')],['value printed by mes'])
p('C08','String, character and symbol operations follow their specification',
 "The string, character, character-set, symbol and keyword procedures of the core and of SRFI-13/14 as provided (string-length string-ref substring string-append string=? list->string string->list string-index string-rindex string-contains string-prefix? string-suffix? string-split string-join string-take/drop (-right) string-trim* string-map string-fold* string-replace string-upcase/downcase string-delete string-tokenize char predicates and case conversion, symbol->string, string->symbol, symbol-append, keyword conversions) return the result of their specification for all strings, including empty strings and all byte values, and leave their arguments unchanged.",
 ['inputs'],'all strings, indices within range, and characters',
 'Tests use one typical string for each; empty strings, overlaps and boundary indices are not sampled.',
 ['src/string.c','src/lib.c','mes/module/mes/scm.mes','mes/module/srfi/srfi-13.mes','mes/module/srfi/srfi-14.mes'],
 [('strings with explicit length','src/string.c'),('library definitions','mes/module/srfi/srfi-13.mes')],[],['value printed by mes'])
p('C09','Macros and pattern matching expand to what they specify',
 "define-macro, define-syntax with syntax-rules (literals, ellipses, nested ellipses), let-syntax, match (match, match-lambda) and pmatch, case-lambda, cut and cute, receive, define-record-type, parameter passing with optional, keyword and rest arguments (define*, lambda*, let-optional, let-keywords), and and-let* and let-values forms as provided bind and select exactly as their specification says, for every shape of input (macros are unhygienic: user bindings of the names a macro expands to are outside); a macro used repeatedly, nested, or inside procedures called several times expands the same each time.",
 ['programs','inputs'],'all uses of the macros over all input shapes',
 'Tests use each macro in one or two ways; clause selection depends on the shape of the datum and on earlier expansions.',
 ['src/eval-apply.c','mes/module/mes/syntax.scm','mes/module/mes/match.scm','mes/module/mes/pmatch.mes','mes/module/mes/optargs.mes','mes/module/srfi/srfi-16.scm','mes/module/srfi/srfi-26.scm','mes/module/srfi/srfi-9.mes'],
 [('macro expansion in the evaluator','src/eval-apply.c'),('syntax-rules','mes/module/mes/syntax.scm'),('match','mes/module/mes/match.scm')],[],['value printed by mes'])
p('C10','Ports deliver every byte once, in order',
 "For every sequence of reads, peeks, unreads, writes and port redirections over string and file ports and the standard streams, input (read-char, peek-char, read-byte, read-line, read-string, read, unread-char of one character just read) yields exactly the bytes of the source in order and then end-of-file, peek and unread do not disturb the sequence, output (display, write, newline, write-char, simple-format and format) arrives complete and in order at the port current when it was written, and redirection (with-input-from-string, with-input-from-file, with-output-to-string, with-output-to-file, with-output-to-port, with-error-to-file, call-with-output-string, set-current-*-port) is confined to its extent, which ends when the thunk returns or an exception leaves it.",
 ['histories','inputs'],'every sequence of port operations over every content',
 'Tests do a few fixed reads and writes; interleavings of several ports, push-back and end-of-file are histories.',
 ['src/posix.c','src/reader.c','lib/mes/fdgetc.c','lib/mes/fdungetc.c','mes/module/mes/guile.mes','mes/module/mes/simple-format.mes'],
 [('string ports as negative file descriptors, push-back per descriptor','src/posix.c lib/mes/fdgetc.c')],
 [('current ports','__stdin __stdout __stderr','src/posix.c'),('push-back','one byte per descriptor','lib/mes/globals.c')],['bytes read and written'])
p('C11','The interpreter starts, finishes and talks to the system as documented',
 "mes evaluates exactly the program its command line and standard input select (-c EXPR, [-s] FILE, -, --, standard input, with -L DIR for included files and -e MAIN applied afterwards to the command line), with (command-line) holding the name and the remaining arguments unchanged, exits with the status the program gives (0 at its end) also for empty programs, and the environment, file and process procedures (getenv, setenv, access?, delete-file, chmod, dup, dup2, getcwd, search-path, system*, execlp, primitive-fork, waitpid, status:exit-val, exit) have exactly the effects and results of the system calls they name; --help and --version print to standard output and exit 0; an unknown option, a missing value or a missing file is reported on standard error with a non-zero status.",
 ['configurations','inputs'],'all combinations of options, programs, arguments, environments and exit codes',
 'Tests start mes one way; option order, argument passing and exit codes combine.',
 ['src/mes.c','src/posix.c','mes/module/mes/main.mes','mes/module/mes/boot-0.scm','mes/module/mes/getopt-long.scm','mes/module/mes/posix.mes'],
 [('command line in Scheme','mes/module/mes/boot-0.scm'),('primitives','src/posix.c')],[],['stdout, stderr, exit status, files'])
p('C12','An error in a program is reported, never absorbed',
 "Applying a procedure to the wrong number of arguments, referring to an unbound variable, applying something that is not a procedure, taking car or cdr of something that is not a pair, indexing a vector or string out of range, doing arithmetic on what is not a number, or calling error or throw raises an exception that the innermost matching catch receives, at whatever depth and in whatever position it happens; uncaught, it ends mes with a non-zero status and a diagnostic on standard error, after the output already produced and with none of the later effects; afterwards a program that caught it goes on as if the failing call had not been made.",
 ['programs','inputs'],'every faulty call, in every evaluation position, caught or uncaught',
 'Tests check no error, or only that one error is caught; positions and kinds multiply.',
 ['src/eval-apply.c','src/core.c','src/vector.c','src/string.c','mes/module/mes/catch.mes'],
 [('check_formals, check_apply, assert_*','src/eval-apply.c src/core.c')],[],['exit status, stderr, handler arguments'])
p('C20','String and memory functions of the C library meet ISO C',
 "The mem*, str*, b* and index functions of the Mes C Library give the result ISO C and POSIX define for all byte contents (0 to 255), lengths, alignments and overlaps allowed to them, write only inside their destination and read only inside their arguments.",
 ['inputs'],'all strings and buffers, bytes, counts, overlaps',
 'Tests compare one or two ASCII strings; high bytes, zero lengths, missing matches and overlaps are not sampled.',
 ['lib/string'],[('one function per file','lib/string/*.c')],[],['return value and memory'])
p('C21','Character classes and number conversions of the C library meet ISO C',
 "The is* and to* functions, atoi, atol, strtol, strtoul, strtoll, strtoull, itoa, ltoa, utoa, ultoa, ntoab, abs, labs, div-like helpers and the libtcc1 long-long helpers of the Mes C Library return the integer value defined by ISO C (for itoa and relatives: the numeral) for all arguments whose result is representable, and strtol and relatives set the end pointer just after the numeral. (Floating point is outside.)",
 ['inputs'],'all characters, texts, bases and machine integers',
 'Tests convert a few numbers; bases, signs, prefixes, boundaries are not sampled.',
 ['lib/ctype','lib/stdlib','lib/mes/abtol.c','lib/mes/ntoab.c','lib/libtcc1.c','lib/mes/div.c'],[('conversion routines','lib/mes/abtol.c lib/mes/ntoab.c')],[],['return value and end pointer'])
p('C22','Formatted output prints what ISO C says',
 "printf, fprintf, sprintf, snprintf, vsprintf, vsnprintf, vfprintf and asprintf-like functions of the Mes C Library print exactly the characters ISO C defines, and return their number, for every format composed of ordinary characters, %% and the conversions d i u o x X c s with the flags -, 0 and space, widths, precisions (also as *) and length modifiers, for all arguments; snprintf never writes beyond its limit and terminates the result.",
 ['inputs'],'all format strings over the supported directives, all arguments, all limits',
 'Tests print a dozen fixed formats.',
 ['lib/stdio/vfprintf.c','lib/stdio/vsnprintf.c','lib/stdio/snprintf.c','lib/stdio/printf.c'],[('format interpreters','lib/stdio/vfprintf.c lib/stdio/vsnprintf.c')],[],['bytes written and return value'])
p('C23','Formatted input scans what ISO C says',
 "sscanf, fscanf and vsscanf of the Mes C Library assign the values and return the count ISO C defines for formats of white space, ordinary characters and the conversions c d i u % (with l), for every input text.",
 ['inputs'],'all input texts and formats over the supported directives',
 'Tests scan one or two texts.',
 ['lib/stdio/sscanf.c','lib/stdio/vsscanf.c','lib/stdio/vfscanf.c'],[('scanner','lib/stdio/vsscanf.c')],[],['assigned values and count'])
p('C24','Streams and descriptors behave as one file',
 "For every sequence of fopen modes, fgetc/getc/ungetc (one character)/fgets/fread, fputc/fputs/fwrite/puts, fseek/ftell, feof-style end detection, fclose, read, write, lseek, dup, unlink on the Mes C Library within one process, data read, file contents, positions and return values are those of a reference file model, and every short read, short write or failure the system answers is either retried or reported to the caller, never turned into lost, repeated or invented bytes.",
 ['histories','fault_sequences'],'all operation sequences and all system answers',
 'Tests run one open-read-close history with a perfect kernel.',
 ['lib/stdio','lib/mes/fdgetc.c','lib/mes/fdungetc.c','lib/mes/__buffered_read.c','lib/linux/lseek.c','lib/posix/open.c'],[('one-byte push-back and read buffer per descriptor','lib/mes/__buffered_read.c lib/mes/fdungetc.c')],
 [('push-back','byte per descriptor','lib/mes/globals.c'),('read buffer','per descriptor','lib/mes/__buffered_read.c')],['return values, bytes, errno'])
p('C25','Allocated memory is private, aligned and preserved',
 "For every sequence of malloc, calloc, realloc and free, live blocks are aligned (to max_align_t of the Mes C Library), do not overlap each other or anything else, hold what was stored in them (realloc keeps the common prefix, calloc gives zeros), and when the system refuses memory the call returns NULL with errno set and nothing else changes.",
 ['histories','fault_sequences'],'all sequences of calls and sizes, all points at which brk fails',
 'Tests allocate once or twice.',
 ['lib/stdlib/malloc.c','lib/stdlib/realloc.c','lib/stdlib/calloc.c','lib/stdlib/free.c'],[('bump allocator over brk','lib/stdlib/malloc.c')],[('__brk','end of the heap','lib/stdlib/malloc.c')],['pointers, contents'])
p('C26','Environment, option parsing, sorting and searching meet POSIX',
 "getenv, setenv and unsetenv keep the environment an exact map from names to values under every sequence of calls; getopt and getopt_long return the options, arguments and non-options of every argument vector (without permuting it); qsort sorts every array (a permutation in order) for every consistent comparison; search for an executable (execvp, search_path) tries the PATH entries in order.",
 ['histories','inputs'],'all call sequences, arrays, argument vectors and option strings',
 'Tests sort one array and set one variable.',
 ['lib/stdlib/qsort.c','lib/stdlib/bsearch.c','lib/posix/setenv.c','lib/posix/unsetenv.c','lib/mes/getenv.c','lib/posix/getopt.c','lib/posix/execvp.c'],[('environ array edited in place','lib/posix/setenv.c')],[('environ','process environment','lib/mes/globals.c')],['results and environ'])
p('C27','System call wrappers pass arguments and report errors faithfully',
 "Each POSIX function of the Mes C Library that wraps a system call passes its arguments on unchanged and returns the kernel's answer: on success that value, on failure -1 (or the function's documented failure value) with errno set to the kernel's error code, for every error the kernel can return (stubs that make no system call are outside).",
 ['fault_sequences','inputs'],'every wrapper, every kernel answer (success values and every errno)',
 'Tests see only the answers of a healthy kernel.',
 ['lib/linux','lib/posix'],[('one wrapper per call over the raw syscall','lib/linux/*.c'),('error decoding','lib/linux/x86_64-mes-gcc/syscall.c')],[],['return value, errno, arguments seen by the kernel'])
p('C30','MesCC compiles expressions with C semantics',
 "For every C expression over integer types (char, short, int, long, signed and unsigned), pointers and the supported operators (arithmetic, bitwise, shift, comparison, logical, conditional, comma, assignment and compound assignment, increment and decrement, cast, sizeof, address, dereference, index), the x86_64 program MesCC produces computes the value and the side effects ISO C defines whenever the expression has defined behaviour; what MesCC does not support it refuses with a diagnostic.",
 ['programs','inputs'],'all expressions and operand values',
 'The scaffold tests compile about two hundred fixed programs; operator, type and operand combinations are products.',
 ['module/mescc/compile.scm','module/mescc/x86_64/as.scm','module/mescc/info.scm','module/mescc/M1.scm'],[('expression compilation to register code','module/mescc/compile.scm')],[('info','compilation state: registers, locals, globals, types','module/mescc/info.scm')],['exit status and output of the compiled program'])
p('C31','MesCC compiles control flow with C semantics',
 "For every function body composed of if, else, while, do, for, switch (fall-through, default anywhere, nested), break, continue, goto, labels and return, and of calls of any number of arguments, the program MesCC produces executes exactly the statements, in the order, that ISO C defines.",
 ['programs','inputs'],'all nestings of statements and all branch outcomes',
 'Tests use one loop or switch at a time; nesting of break, continue and fall-through is combinatorial.',
 ['module/mescc/compile.scm'],[('labels and jumps','module/mescc/compile.scm')],[],['trace printed by the compiled program'])
p('C32','MesCC lays out and passes data as C requires',
 "For every program over structs, unions, arrays (also nested and multi-dimensional), enums, typedefs, pointers (to data and functions), string literals, static and automatic variables, initialisers, function parameters (any number, any supported type), recursion and variadic functions, the program MesCC produces reads back every object as last written, members lie one after the other as sizeof and member addresses report, objects do not overlap, and initialisers give the values ISO C defines. (Bit-fields, floating point and padding between members are outside.)",
 ['programs'],'all declarations and access paths',
 'Tests use a few declarations; nesting of aggregates and initialisers is unbounded.',
 ['module/mescc/compile.scm','module/mescc/info.scm','module/mescc/M1.scm'],[('types and initialisers to data sections','module/mescc/compile.scm module/mescc/M1.scm')],[],['output of the compiled program'])
p('C33','MesCC output is the same whatever runs it',
 "The assembly MesCC produces for a given input and target is a function of that input only: Guile and Mes as host, heap size, repeated runs and the number and order of other inputs on the command line do not change it, and compiling through -E, -S, -c or directly to a program gives the same code.",
 ['configurations','programs'],'all inputs and host configurations',
 'Tests compile each program once with one host.',
 ['module/mescc/mescc.scm','module/mescc/compile.scm','module/mescc/M1.scm','src/eval-apply.c'],[('pure compilation pipeline','module/mescc/mescc.scm')],[],['assembly text'])
p('C34','The MesCC driver does what its options say',
 "For every combination of inputs (.c, .E, .s, .o, libraries) and options (-E, -S, -c, -o, -D, -I, -L, -l, -nostdlib, -nostdinc, -m, -g, -v, --base-address) mescc produces exactly the outputs those options name, with conditional compilation, macros and include directories honoured, ends with a zero status exactly when they were produced, and reports failures of its tools with a non-zero status.",
 ['configurations'],'all option and input combinations',
 'The tests call mescc in two fixed ways.',
 ['module/mescc/mescc.scm','module/mescc.scm','scripts/mescc.scm.in','scripts/mescc.in'],[('option handling and tool invocation','module/mescc.scm module/mescc/mescc.scm')],[],['files produced, exit status'])
p('C35','MesCC code for x86 behaves as its code for x86_64',
 "For the same programs as C30 to C32, restricted to the 32-bit type sizes (without long long), the i386 code MesCC produces computes the values and executes the statements ISO C defines.",
 ['programs','inputs'],'all expressions, statements and declarations of C30-C32',
 'The existing tests here never run the x86 code generator.',
 ['module/mescc/i386/as.scm','module/mescc/i386/info.scm','module/mescc/compile.scm'],[('i386 instruction selection','module/mescc/i386/as.scm')],[],['output of the compiled program'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
