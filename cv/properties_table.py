prop('C02', 'Truthiness, logical operators and conditional jumps',
  'Only nil and false are false: every other value, 0 and the empty string included, is true in !, and, or and the test of an if or a loop. The logical operators yield one of their operands as truth demands without evaluating the right one needlessly, and a conditional branch continues at its target exactly when its condition says so, leaving the rest of the operand stack as it was.',
  ['inputs', 'programs'], 'every value as operand, every jump distance of the encoding used', 'tests run a handful of conditions; the operand ranges over all values',
  ['vm.c', 'value.c'], ['isTruthy@value.c', 'OP_NOT OP_AND OP_OR OP_JUMP* OP_LOOP OP_BREAK@vm.c vm_run'], note='complete for the instructions named; assumes no pending interrupt')
prop('C03', 'Arithmetic and bit operators',
  'On two numbers + - * / and unary minus give the IEEE double result, and % | & ^ << >> give the 32-bit integer result of the truncated operands; dividing by zero, or taking a remainder whose divisor truncates to zero, raises an Error. On a left operand that is an object the operator method of its class is called once with the right operand and its value is the result; every other combination raises a TypeError (a NameError when the class lacks the method), and no operator changes anything on the operand stack but its own operands.',
  ['inputs', 'programs'], 'all pairs of numbers (integer operators: operands within int range) and all kinds of operands', 'tests try a few constants; the operands range over all doubles and object kinds',
  ['vm.c'], ['BINARY_OP@vm.c vm_run', 'methodNameForBinop@vm.c'], note='quotient and remainder values compared on short significands and small integers only; everything else for all operands; integer operators outside int range are undefined in C and not claimed')
prop('C04', 'Comparison and equality operators',
  'For numbers other than NaN, < > <= >= are the numeric order; for two strings they are the byte order of their contents; other operands use the opCmp method of the left operand or raise a TypeError. == on an object whose class defines opEquals (or else opCmp) is the truth of that method (or its result being 0); otherwise numbers are equal by value, and everything else only to itself; != is always the negation of ==.',
  ['inputs', 'programs'], 'all pairs of operands', 'tests compare a few constants; the operands range over all doubles, kinds of objects and operator results',
  ['vm.c'], ['canCmpValues cmpValues isValueOpEqual@vm.c', 'OP_LESS OP_GREATER OP_EQUAL ...@vm.c vm_run'], note='string order bounded to strings of at most 3 bytes')
prop('C06', 'Maps associate each key with its latest value',
  'A Map holds at most one value for each key (keys being the same when they are equal): reading a key gives the value stored last under it or nil, and m[k], m[k] = v, hasKey, delete, clear, size, keys, values, merge, mergeWith, slice, dup, rehash, == and construction agree with that after every sequence of insertions, overwritings and deletions, through growth of the table and through collisions. No operation changes a map other than its receiver, and a frozen map is not changed at all.',
  ['inputs', 'histories'], 'every content of the table reached by any history, every key (colliding or not)', 'tests insert a few keys; collisions, wrap-around, tombstone-free deletion and growth depend on the slots the keys happen to hash to',
  ['table.c', 'map.c'], ['findEntry tableGet tableSet tableDelete@table.c', 'lxMap*@map.c'], level='other', note='bounded: tables of 4 and 8 slots growing to 16, 8 distinct keys with arbitrary hashes; maps of 3 entries')
prop('C07', 'Arrays are sequences changed only where an operation says so',
  'An Array behaves as a sequence: push, <<, pop, pushFront, popFront, delete (the first equal element), deleteAt, clear, a[i], a[i] = x, first, last, size, dup, reverse, sort, sum, ==, init, Array.fill and Array.wrap give the result their name says and keep all other elements in their order; an index outside 0..size-1 reads as nil and changes nothing, and an index that is no number is rejected. An array made from a literal shares its elements with the literal only until it is first changed; a frozen array is never changed.',
  ['inputs', 'histories'], 'arrays of every length up to 2^24 with arbitrary elements', 'tests use arrays of a few elements; the contracts range over every length, index and content',
  ['array.c', 'object.c'], ['lxArray* @array.c', 'arrayPush arrayPushFront arrayDeleteAt arrayPop arrayPopFront arrayClear arrayDup@object.c'], level='other', note='push, pop, index, front and delete operations for all lengths; ==, reverse, sum, sort, fill, construction and order bounded to a few elements; qsort assumed to sort by its comparison')
prop('C09', 'Equality of values and the hash that goes with it',
  'Two values are equal as map keys and array elements when they are the same number (0 and -0 included), strings with the same bytes, or the same object, and an instance, a class, an array or a map is asked through its opEquals; for numbers, strings, booleans and nil this is reflexive, symmetric and transitive. Equal values always have the same hash, hashing a value twice gives the same hash whether or not it was kept, and the hash of an array or a map depends only on its contents.',
  ['inputs'], 'all pairs and triples of values', 'tests look up a few keys; equal values with different hashes make entries unreachable only for particular values',
  ['value.c', 'object.c', 'array.c', 'map.c'], ['valEqual valHash@value.c', 'hashString objStringEquals@object.c', 'lxArrayHashKey@array.c', 'lxMapHashKey@map.c'], level='other', note='bounded: strings of 3 bytes, arrays of 3 elements, maps of 3 entries')
prop('C10', 'String interning gives one object for each sequence of bytes',
  'Interning a sequence of bytes yields the string object interned before with exactly those bytes if there is one, and otherwise a new frozen string with those bytes, which is then found again; two different sequences of bytes never share an interned object, even when their hashes collide.',
  ['inputs', 'histories'], 'every content of the table of interned strings, with arbitrary collisions', 'tests never produce two strings with the same hash',
  ['table.c', 'object.c'], ['tableFindString@table.c', 'internedString@object.c'], level='other', note='bounded: tables of 4 slots, 3 strings of at most 2 bytes, arbitrary hash function')
prop('C08', 'Strings are byte sequences, changed only by the operations that say so',
  'A String behaves as a sequence of bytes: push, <<, +, * (repetition, one or more times), insertAt, s[i] = x, clear and padRight yield exactly the bytes their name says, also when a string is given to itself; s[i], substr, rest, size, endsWith, index, compact, compactLeft, split, dup and String(s) read the right bytes and leave their operands alone; an insertion or assignment outside the string and arguments of the wrong type are rejected. A string that shares its bytes with a literal gets its own before it is changed, a frozen string is never changed, and the remembered hash never survives a change of the bytes.',
  ['inputs', 'histories'], 'every content, index, argument and storage state (own, spare capacity, shared, frozen)', 'tests try a few strings; aliasing, capacity and sharing states arise only after particular histories',
  ['string.c', 'object.c'], ['lxString*@string.c', 'pushCString insertCString clearObjString stringSubstr stringIndexGet stringIndexSet@object.c'], level='other', note='bounded: strings of 3 bytes and arguments of 2, no NUL bytes')
prop('C05', 'Constant folding gives what the program would compute',
  'Where the compiler replaces an operator (+ - * / % | & ^ << >>) on two number literals by one constant, the constant is the number the operator gives on these operands when the program runs, bit for bit; an operation that would raise an error (division by zero, remainder by a number that truncates to zero) is left to the running program, as is one with an operand that is no number literal or that a jump can reach; other literals keep their values.',
  ['inputs', 'programs'], 'all pairs of numbers, every operator that is folded', 'tests fold a few constants; a wrong fold shows only for particular operands',
  ['compiler.c'], ['foldConstant changeConstant optimizeIseq emitConstant makeConstant@compiler.c'], note='quotient and remainder on restricted operands (bounded); all other operators for all operands')
prop('C18', 'Optimized code behaves like the code it came from',
  'Removing, merging and rewriting instructions in the peephole optimizer (folded constants, merged POPs, jumps on constants, unused constants) never changes what a function prints, where it ends or what it leaves on the operand stack: every jump, loop, break, continue and catch row still leads to the instruction it led to before, or, where that was removed, to the one after it; jumps, breaks and continues are given the offset of the place they are meant to go.',
  ['programs'], 'all sequences of up to three instructions of the kinds the optimizer looks at, with jumps between them, entered at the start or at a catch block', 'tests compile a few programs; a jump into the middle of optimized instructions needs a particular combination',
  ['compiler.c', 'chunk.c'], ['optimizeIseq rmInsnAndPatchJumps patchOffsetsAfter addInsnOperand replaceJumpInsn markJumpTargets patchJump patchBreaks patchContinuesBetween emitLoop copyIseqToChunk@compiler.c', 'iseqAddInsn iseqRmInsn insnAtOffset@chunk.c'], level='other', note='bounded: sequences of 2 to 4 instructions')
prop('C13', 'Closures share the variables they capture',
  'A closure and the function that declared a captured variable see one and the same variable: an assignment by either is seen by the other, and by every other closure that captured it; a variable captured twice is one variable, and when its scope ends it lives on with the value it had. Creating a closure captures exactly the variables its function names, in their order, from the frame or from the variables of the closure around it, and reading, assigning, capturing and closing leave every other variable and stack slot alone.',
  ['inputs', 'histories', 'programs'], 'any set of captured variables in a frame, arbitrary values', 'tests use one or two closures; sharing and closing depend on which slots are captured in which order',
  ['vm.c'], ['captureUpvalue closeUpvalues setUpvalue@vm.c', 'OP_CLOSURE OP_GET_UPVALUE OP_SET_UPVALUE OP_CLOSE_UPVALUE@vm.c vm_run'], level='other', note='bounded: up to 3 captured variables in 4 slots, frames of 6 slots; closures only, not blocks of native iterators')
prop('C14', 'Names mean their innermost declaration, locals keep their values',
  'A name in a function means its innermost declaration: a local of the function (the latest of that name), else the nearest enclosing function that has a local of that name, captured through every function in between, else a global. A declaration adds a variable to the innermost scope, in the next free slot; declaring a name twice in one scope is an error. Leaving a block of statements removes exactly the locals declared in it, closing those that were captured. The first locals of a called function are its arguments. Reading a local gives the value last assigned to it, assigning or unpacking (var a, b = array, missing elements being nil) changes that local only and leaves the operand stack as the instruction says.',
  ['inputs', 'programs'], 'nested functions with arbitrary names, arbitrary values', 'tests nest a few functions; shadowing and capture through several levels need particular declarations',
  ['compiler.c', 'vm.c'], ['namedVariable resolveLocal resolveUpvalue addUpvalue declareVariable addLocal defineVariable popScope@compiler.c', 'OP_GET_LOCAL OP_SET_LOCAL OP_UNPACK_SET_LOCAL growLocalsTable setupLocalsTable@vm.c'], level='other', note='bounded: three nested functions with up to two locals each; frames of 8 locals')
prop('C16', 'Methods, properties and super follow the class hierarchy',
  'A method, getter or setter of an object is the first definition of that name in its singleton class, then its class, then the superclasses in turn, where the modules included in a class come right after it, the last one included first; super continues with the definition after the one that is running, also inside modules, and raises an Error when there is none. Static methods are looked up in the singleton classes of the class and its superclasses, then in Class and Object, and an object is an instance of its class and of all above it and of no other. Reading a property gives the field if there is one, else what the getter returns, else the method bound to the object, else nil; writing one calls the setter, or else stores the field, and a frozen object is left unchanged and the write rejected; anything that has no properties is rejected with a TypeError.',
  ['inputs', 'programs'], 'every definition of a name in a class hierarchy with included modules and a singleton class, every kind of value', 'tests use one superclass and one module; the order matters only when several define the same name',
  ['object.c', 'vm.c'], ['instanceFindMethod instanceFindGetter instanceFindSetter classFindStaticMethod instanceIsA isSubclass setupIClass@object.c', 'lookupMethod findMethod propertyGet propertySet@vm.c', 'OP_GET_SUPER OP_PROP_GET OP_PROP_SET@vm.c vm_run'], level='other', note='bounded: hierarchies of three classes with up to 3 modules')
prop('C22', 'A garbage collection keeps every object that is in use',
  'A young or a full collection frees no object that can be reached from a root: the operand stacks, call frames, blocks and open captured variables of every thread, the globals, constants and loaded scripts, the objects kept by hand, signal handlers, remembered objects and, in a young collection, older objects; in a full one also the tables of interned strings, regex literals and autoloads and the exit handlers; marking an object marks everything it refers to, whatever its kind. What cannot be reached is freed once and its slot put on the free list once; slots that are free stay free, a slot in use is never handed out, and a new object is known to the next young collection. A finalizer is called once, before anything is freed, with its object intact, and a value stored in a field or in a closed captured variable is noted, so that the next young collection keeps it.',
  ['histories', 'programs'], 'a heap with an object of each kind of reference and of each kind of root, each in use or not, each young or old', 'tests collect only with a few shapes of the heap; a missed reference shows as a crash long after the collection, for one kind of object at one moment',
  ['memory.c', 'table.c', 'vm.c'], ['grayObject grayValue blackenObject collectYoungGarbage collectGarbage getNewObject hideFromGC unhideFromGC objWrite@memory.c', 'grayTable@table.c', 'closeUpvalues setUpvalue propertySet@vm.c'], level='other', note='bounded: one heap with every kind of root, heap pages of 8 slots (1 with finalizers; HEAP_SLOTS and YOUNG_MARK_STACK_MAX replaced mechanically); that native functions keep their temporaries reachable is not covered')

def na(id, title, statement, over, text, why, files, symbols, reason): NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, symbols=symbols, reason=reason))
na('C17', 'Errors unwind to the innermost enclosing catch', 'A thrown error continues at the catch of the innermost try statement around it that names its class or a superclass, in the frame that holds it, with every ensure block passed on the way run once and the operand stack as it was at the try; with no such catch the program ends with the error.',
  ['programs', 'histories'], 'every nesting of try statements, calls and native functions', 'tests nest a few', ['vm.c', 'compiler.c'], ['throwError findThrowJumpLoc unwindJumpRecover@vm.c'],
  'unwinding is setjmp and longjmp through frames of vm_run and of native functions; CBMC has no semantics for longjmp (a path that reaches it ends), so a contract can say only that a throwing function does not return, which is how throws appear in all contracts here')
na('C30', 'Only the thread that holds the lock runs lox code', 'At every moment at most one thread runs lox code or touches the heap, a Mutex is held by at most one thread, a blocked thread is woken when what it waits for happens, and join returns after the thread has ended.',
  ['schedules'], 'all interleavings of threads', 'tests see one schedule', ['thread.c', 'vm.c'], ['acquireGVL releaseGVL@vm.c', 'lxMutex* lxThread*@thread.c'],
  'needs reasoning over interleavings of pthread condition variables; function contracts in CBMC (and the other deductive tools here for C) are sequential, all contracts here assume the lock is held')
na('C31', 'Signals and timers run their handlers between instructions', 'A trapped signal runs its handler once, in the main thread, between two instructions, whatever was running.',
  ['schedules'], 'every moment at which a signal can arrive', 'tests send one signal at one moment', ['signal.c', 'vm.c'], ['lxSignal* execSignal@signal.c'],
  'asynchronous interruption of the C code is outside sequential function contracts; contracts of vm_run here assume no pending interrupt')
na('C32', 'Files, processes and sockets give what the system gives', 'Reading and writing files, pipes, directories, processes and sockets transfers exactly the bytes the system calls transfer, and raises a SystemError with the errno when they fail.',
  ['inputs', 'fault_sequences'], 'every result of a system call', 'tests do not make calls fail', ['io.c', 'file.c', 'process.c', 'socket.c', 'dir.c'], ['lxIO* lxFile* lxSocket*@io.c'],
  'the property is about the kernel: contracts would assume the whole behaviour of read, write, fork and poll, and what remains (copying a buffer into a String) is C08')
na('C33', 'A regular expression matches what its pattern describes', 'A Regex matches a string exactly when a substring is in the language of its pattern, and reports the leftmost such place.',
  ['inputs'], 'all patterns and subjects', 'tests use a few patterns', ['regex.c', 'regex_lib.c'], ['regex_compile regex_match@regex_lib.c'],
  'needs an inductive semantics of patterns and a recursive matcher against it: quantified ghost relations that CBMC contracts do not express, and no deductive verifier for C with induction (Frama-C WP, VeriFast) is installed; a bounded check could only enumerate tiny patterns')
na('C34', 'A compiled program does what its source says', 'Running the bytecode of a program has the effects the language gives its source text, for every syntactic form.',
  ['programs'], 'all programs', 'tests compile some hundred programs', ['parser.c', 'compiler.c', 'vm.c'], ['compile_src parseDeclaration emitNode vm_run@compiler.c'],
  'needs a formal semantics of the source language and induction over the syntax tree across parser, compiler and interpreter loop, beyond CBMC function contracts; parts within reach are claimed on their own (folding C05, peephole C18, names C14, closures C13, the instructions of C02, C03, C04, C16)')
na('C35', 'Native functions keep their temporaries reachable', 'An object that a native function or an instruction has made or taken off the stack stays reachable until the function is done with it, so that a collection at any allocation frees nothing in use.',
  ['histories'], 'a collection at every allocation', 'tests collect rarely; running them with --stress-GC=full shows defects (see DESIGN.md)', ['memory.c', 'vm.c', 'array.c', 'map.c', 'string.c'], ['callFunctionOrNative pushCStackObj getNewObject@vm.c'],
  'what is reachable at an allocation depends on the whole call history (stackObjects of the enclosing C call), a global heap invariant that would need separation-logic style ownership of every C local; CBMC contracts have no such predicates. The collector itself is C22')
na('C36', 'Values copied to a forked or loaded context are independent', 'require, load, eval, Process.fork and bindings run code with the variables of the context the documentation names and share nothing else.',
  ['programs', 'histories'], 'every nesting of evaluations', 'tests evaluate a few strings', ['vm.c', 'binding.c', 'process.c'], ['loadScript doEval lxBindingEval@vm.c'],
  'evaluation compiles text at run time and re-enters the interpreter through setjmp, so a contract would rest on C34 and C17')
prop('C20', 'A program text is cut into the tokens it spells',
  'The scanner skips blanks and comments (to the end of the line, or from /* to the next */) and then yields the longest token that starts there, with its text, its line and the place where the next one starts: a number, an operator or punctuation mark, a name, a reserved word exactly when the whole word is one and no dot comes before it, or a string up to the first quote that is not escaped, its escapes replaced. __LINE__ is the number of its line and nothing else is, __END__ ends the program, an open string or an unknown character is an error. A number literal denotes the value of its digits in the base of its prefix (0x, 0c, 0b or decimal).',
  ['inputs', 'programs'], 'every text of a few bytes at the place where a token starts', 'tests contain a small part of the spellings; a word that is a prefix of a reserved word, a comment at the end of the text or an escape before a quote needs a particular text',
  ['scanner.c', 'compiler.c'], ['scanToken skipWhitespace identifier number doubleQuotedString singleQuotedString strReplace@scanner.c', 'numberLiteral@compiler.c'], level='other', note='bounded: texts of 4 to 9 bytes; heredocs and two dots in a row are not covered; strtol and strtod assumed')
