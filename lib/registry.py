"""Which analyses decide which property."""
CHECKS = {
 "A01": {"steps": [("lgsa", "A01", "lib")], "min": 25,
   "technique": "interprocedural exception-escape analysis over LLVM IR",
   "explain": "For every function of the linked library IR the set of exception types that can leave it is computed to a fixed point (throw sites, operator new, library calls, virtual and indirect calls by class hierarchy / type; catch clauses of the landing pads subtract). Each lg_* entry point must have the empty set.",
   "assume": ["C library and ICU functions do not throw", "functions of libstdc++ declared noexcept keep their promise"]},
 "A05": {"steps": [("lgsa", "A05", "lib")], "min": 25,
   "technique": "interprocedural value-flow analysis of every global variable in the LLVM IR",
   "explain": "Every variable with static or thread storage in the linked library is either in constant memory or its address, and every pointer loaded from it, is followed through all uses, calls (direct, virtual, indirect) and returns; a write, or a hand-over to code that could write it, is allowed only in global constructors or behind a __cxa_guard one-time initialisation. Calls that change process-wide C library or ICU state are refused.",
   "assume": ["ICU and the C++ library are themselves thread-safe for distinct objects"]},
 "B01": {"steps": [("lgsa", "B01", "lib")], "min": 8,
   "technique": "field-sensitive dataflow (linear value analysis of every field of the engine object) over inlined LLVM IR",
   "explain": "Every field of the engine object that any search entry point can write (directly, behind a pointer, or in recursive helpers through computed summaries) is an obligation: lg_reset_context, fully inlined, must leave it with the same value the inlined constructor leaves, or every search entry must overwrite it before reading it. Vectors must be left empty, or keep their size and be filled with zero from first to last element on every path; the sparse sets' readers must be independent of old memory once the fields have the reset values.",
   "assume": ["distinct fields of distinct types do not alias (types taken from debug info)", "pointer arithmetic does not wrap"]},
 "B02": {"steps": [("lgsa", "B02", "lib")], "min": 6,
   "technique": "field-sensitive dataflow over inlined LLVM IR: typestate of the engine object at entry and exit of lg_starts_with",
   "explain": "Every field that searching can change must, at every return of lg_starts_with, satisfy the equations that lg_reset_context establishes (computed, not listed), and element changes in vectors that keep their size must be followed by a zero fill of the whole vector on every path to the return. A point whose state satisfies the same equations must dominate every buffer access, thread execution and callback.",
   "assume": ["distinct fields of distinct types do not alias (types taken from debug info)", "pointer arithmetic does not wrap", "no memory allocation fails during the search"]},
 "B03": {"steps": [("lgsa", "B03", "lib")], "min": 12,
   "technique": "dominance and linear-arithmetic analysis of every callback site in inlined LLVM IR",
   "explain": "At every place where the callback is called (in each search entry point and each recursive helper), the reported hit's start must be proved, from dominating branch conditions, to be at least the limit stored for the hit's label, and the hit's end must be stored as that label's new limit before the call. Every other store into the limits must be a complete zero fill belonging to a reset.",
   "assume": ["a thread's recorded match end is not before its start"]},
 "B04": {"steps": [("lgsa", "B04", "lib")], "min": 20,
   "technique": "field-sensitive dataflow of the callback and user-data fields over inlined LLVM IR",
   "explain": "At every callback call the called pointer and its first argument must have exactly the values of this call's callback and userData parameters (followed through the engine's fields and into recursive helpers, which must not change them); the call must be dominated by a null test; no other API function may call a function stored in the context.",
   "assume": ["distinct fields of distinct types do not alias (types taken from debug info)"]},
 "B05": {"steps": [("lgsa", "B05", "lib")], "min": 12,
   "technique": "linear-arithmetic bounds analysis (inductive loop invariants) of every access to the caller's buffer in inlined LLVM IR",
   "explain": "Every load, store or block read through a pointer derived from the buffer parameters of the search entry points must be proved, from dominating branch conditions, loop-entry facts and inductive counter invariants, to lie in [bufStart, bufEnd); a write through them is a violation; passing the pointer to an unanalysed function is a violation.",
   "assume": ["bufStart <= bufEnd (the documented precondition)", "pointer arithmetic inside one buffer does not wrap"]},
 "B06": {"steps": [("lgsa", "B06", "lib")], "min": 30,
   "technique": "loop and induction-variable analysis with linear-arithmetic proofs over inlined LLVM IR",
   "explain": "In each search entry point, fully inlined, the loops that examine buffer bytes are found from the loads. Proved for each: it starts at the buffer's first byte or where the loop before it stopped, every iteration advances by exactly one and examines only the current byte; it is left only at the buffer's end (lg_search). Every value stored as a thread's start or end, or handed to the helpers, equals startOffset plus the distance of the current byte from the buffer's start. Inside, the first loop that uses the byte runs over the running threads from first to last on every iteration; for lg_search the loop over the initial threads is reached on every iteration that is not excluded by a branch on the prefilter's window, and the threads it adds, and only they, then run on the same byte.",
   "assume": ["bufStart <= bufEnd", "the caller's callback does not change the engine"]},
 "E02": {"steps": [("lgsa", "E02", "lib")], "min": 5,
   "technique": "linear-arithmetic bounds analysis (inductive loop invariants) of every access to the serialized buffer in inlined LLVM IR",
   "explain": "lg_read_program is inlined completely; every load or block read through a pointer derived from its buffer parameter must be proved, from dominating branch conditions, inductive loop invariants and the contract of memchr, to lie in [buffer, buffer+size). Values read from the buffer are arbitrary 64-bit numbers: a comparison whose operand could overflow or be negative gives no fact unless its range is proved first; strlen and the like need a terminator proved to be inside; handing the pointer to unanalysed code is a violation.",
   "assume": ["the buffer does not lie within 2^32 bytes of the end of the address space"]},
 "F03": {"steps": [("lgsa", "F03", "app")], "min": 15,
   "technique": "path-sensitive shape and typestate analysis of error lists and handles over inlined LLVM IR",
   "explain": "The functions that walk a list of errors are found by the type they access. On every path (with the current error materialised, its optional parts unknown until tested) a part that may be missing is used only after a null test, each error's message, pattern and index are printed before the walk moves on, and the walk ends only where the list does. The function that collects errors is evaluated on an empty list, a list of one and a list of several, with a new list of any length: nothing is cut off and the tail stays the last. From every library call that can set a pattern error, each path hands the error to the list or prints it before it is lost; every function that obtains the list prints it on every path, or returns it. From every creation of a handle the null result is followed through main: it is never dereferenced or given to a function that dereferences it. Every path of main through a handler returns a status other than 0.",
   "assume": ["std::ostream prints what it is given", "error records are not changed while they are printed"]},
 "F02": {"steps": [("lgsa", "F02", "lib"), ("lgsa", "F02", "cmd")], "min": 10,
   "technique": "abstract interpretation of comparison functions over the relation domain {less, equal, greater} per key",
   "explain": "Every comparison handed to a sort, a search or an ordered container, and every operator< and operator==, is found in the IR and inlined. It is evaluated for every combination of the three possible relations of each key it compares (loads, memcmp, string and vector comparisons, sizes; constants tested by a switch are enumerated), and the resulting finite table is checked: irreflexive, asymmetric, transitive, ties transitive, for all consistent triples. For containers that keep one of two tied elements, a tie must imply equality of every member of the class; equality must be an equivalence over every member, and the hash may read only members that equality compares. The histogram's comparison must realise its documented order.",
   "assume": ["the comparisons of the C and C++ library are total orders on their arguments"]},
 "G01": {"steps": [("py", "pybind_check", "g01")], "min": 100,
   "technique": "type comparison between the C headers' syntax tree and the binding's declarations (abstract interpretation of the Python syntax tree)",
   "explain": "The C headers are parsed with clang; the Python module is interpreted abstractly (never executed) to find every argtypes/restype assignment, structure and callback type, whatever way it is written. Every declared function must exist and agree in result, number of parameters, and width, signedness and pointer structure of each parameter; structures must have the same fields in the same order and types; every native function used must be fully declared and called with the right number of arguments.",
   "assume": ["LP64 (the platform this sandbox has)"]},
 "G02": {"steps": [("py", "pybind_check", "g02")], "min": 40,
   "technique": "typestate analysis by path-enumerating abstract interpretation of the Python syntax tree",
   "explain": "Each class that stores a native handle is found by following its constructor. On every path of close() and __exit__ (normal and by exception) the handle is released exactly once, with the function of its kind, and forgotten; close() can be repeated. Every other method is followed in the open and in the closed state: each handle argument of each native call must be the object's own open handle, or come from another handle object through a method proved to refuse a closed one, and be of the kind the C parameter has. Calls of unknown code may raise; what native calls hand out is released once on every path.",
   "assume": ["the module is used through its public methods (attributes are not rewritten from outside)"]},
 "E03": {"steps": [("py", "pybind_check", "e03"), ("lgsa", "E03", "cmd"), ("lgsa", "E03", "jni")], "min": 6,
   "technique": "typestate analysis over every path of the callers' inlined LLVM IR and of the Python binding's syntax tree",
   "explain": "Every caller of lg_read_program in the command-line tool and the JNI layer is inlined from its outermost function (main, Java_*). From each call every path, including unwinding, is followed with the values that hold the program handle, the buffer and the deleters: the buffer's memory may be released (operator delete, free, munmap, JNI Release*, or a changing member function or destructor of its owner) only after lg_destroy_program received the handle. Native destroy functions must destroy the program before they free memory of the Java object. In Python the object that owns the handle must keep a reference to the buffer view on every path, and drop it only after the handle is released.",
   "assume": ["functions that are not inlined and get neither the handle nor the buffer's owner do not release them"]},
 "H01": {"steps": [("py", "jni_check", "h01")], "min": 150,
   "technique": "type agreement between the compiled Java classes and value-flow facts of the JNI layer's LLVM IR",
   "explain": "The Java sources are compiled and the class files read (constant pool, members, bytecode). Every native method needs an exported C function of the mangled name with matching parameter and result types. In the IR of the JNI layer every class, field, method and constructor lookup is resolved to constants through globals, phis and helper functions and must exist in the class files with that exact descriptor; every Get/Set<Type>Field, Call<Type>Method and NewObject must use an ID whose descriptor demands that operation, those argument types and that class. Every global ID that is used must be set by JNI_OnLoad or by a static native method which the static initialiser of every class with native methods reaches, after loading the library.",
   "assume": ["x86-64 calling convention for variadic JNI functions"]},
 "H02": {"steps": [("lgsa", "H02", "jni")], "min": 40,
   "technique": "exception-escape analysis and typestate of pinned memory over every path of the JNI layer's LLVM IR",
   "explain": "For every native method the set of C++ exceptions that can leave it (thrown, from operator new and the C++ library, or through the C API from the callback) must be empty. In every handler for foreign exceptions each path to the return must raise a Java exception or find one pending. Every pin (Get*Chars, Get*ArrayElements, Get*Critical) must be released exactly once, by its own release function on the same object, on every path including unwinding, and not used afterwards; while a critical pin is held no other JNI function and no callback may be called.",
   "assume": ["JNI functions do not raise C++ exceptions", "lg_* functions raise only what the callback raises (A01)"]},
 "H03": {"steps": [("py", "jni_check", "h03")], "min": 60,
   "technique": "path-enumerating abstract interpretation of Java bytecode with linear-inequality facts (Fourier-Motzkin), requirements taken from the native side's LLVM IR",
   "explain": "The Java sources are compiled and the bytecode of every non-private method is evaluated abstractly on all its paths (helpers inlined; integers as linear forms with overflow split off, references with null facts, ByteBuffers with position/remaining/array facts). At every call of a native method the facts must prove: every reference argument is not null; every handle whose pointer the C function reads (found in the IR) is open; offset >= 0, size >= 0 and offset+size within the array or the buffer's remaining bytes; hit start and end within the buffer; index arguments not negative; a ByteBuffer handed to the native side is direct. destroy() clears the pointer on every path.",
   "assume": ["one thread uses a handle at a time", "byte buffers keep their class invariants"]},
 "F01": {"steps": [("lgsa", "F01", "cmd")], "min": 10,
   "technique": "typestate analysis over every path of the inlined LLVM IR of the command-line tool",
   "explain": "The functions that read blocks and search them are found from the call graph and inlined; every path (through the read-ahead loop, to a fixed point) is followed with symbolic values for the start, length and stream position of each block obtained from a reader. At each lg_search call the arguments must be exactly the next unsearched block, its true end and the sum of the lengths of all blocks before it; the context must have been reset since the last closeout; the hit writer must have been given the same block; at most one later read may be under way (so the block is not overwritten); at closeout every block was searched and the last was empty or short; every return closes out. The readers: fread fills exactly the requested buffer and its result is returned, errors are not taken for the end; the two buffers alternate; the mapped reader's blocks are consecutive and inside the mapping.",
   "assume": ["a regular file gives a short read only at its end (fread's contract)", "std::async, std::future and std::swap behave as specified"]},
}

CHECKS["A02"] = {"steps": [("lgsa", "A02", "lib")], "min": 30,
   "technique": "path-sensitive typestate analysis of error slots over the inlined LLVM IR of every API function",
   "explain": "Every exported lg_* function is inlined with the code of the C API layer and followed on all paths, exceptional ones included. With a null error slot the slot is never accessed; with one, an error is stored on every path through an exception handler and on every path that returns the failure value, never on a path that may report success, and is not used before it was tested for null (it may not have been possible to make it). On every path through a handler the value returned is the documented failure value of the function. A null handle, options or encoding argument of the pattern functions leads to the failure value and an error.",
   "assume": ["functions below the C API layer report failures by exceptions", "lg_add_pattern_list: its own rules are C03's"]}

CHECKS["A04"] = {"steps": [("lgsa", "A04", "lib")], "min": 28,
   "technique": "interprocedural effect analysis typed by debug information, and path-sensitive analysis of the shared pattern list",
   "explain": "The classes a program consists of are found from the handle. For every exported function except the ones that create or destroy programs, every function it can reach (direct, virtual and indirect calls; stored deleters by their object's class) is searched for stores, block writes and library writes into memory of one of these classes, located through the debug-info type of the access path; any is a violation. lg_add_pattern, which may write the pattern list, is inlined and followed on all paths: the list must have been found unshared or replaced by a copy on that path before it is changed. A program may hold no plain pointer to an object of its FSM.",
   "assume": ["reference counting of std::shared_ptr", "memory is accessed through its declared type"]}
CHECKS["C01"] = {"steps": [("lgsa", "C01", "lib")], "min": 5,
   "technique": "path-sensitive typestate and interprocedural exception analysis over inlined LLVM IR",
   "explain": "lg_add_pattern is inlined down to the classes that build patterns and followed on all paths. The automaton is found as the object the compiler is given at lg_create_program, the pattern list as the object that lg_fsm_pattern_count asks. Whatever can fail for a reason other than lack of memory (exception types computed for each callee to a fixed point) must come before the first call that may change either of them; the scratch builder must be emptied on every path before it builds; a parse tree is used only where it was tested to exist; every successful path changes both. On every failing path of lg_parse_pattern the handle is left without a tree.",
   "assume": ["lack of memory is not among the failures decided here", "index checks of the repository's containers do not fail"]}
CHECKS["C02"] = {"steps": [("lgsa", "C02", "lib")], "min": 9,
   "technique": "path-sensitive analysis of lg_add_pattern and module-wide field-based value-flow analysis of labels",
   "explain": "On every successful path of lg_add_pattern the number of patterns read before anything changed is the value given to the automaton as label and the value returned, and exactly one entry is appended with this call's expression, encoding and user index; the append stores copies of them in the members of that name. Module-wide, every value stored as KeywordIndex of a hit is followed backwards through fields, parameters and results: it may only be copied (no arithmetic, no constants but the no-label marks) from the operand of the label instruction, and every such instruction's operand, followed the same way, from the number of patterns in lg_add_pattern. lg_*_pattern_info must return start + index * size and lg_*_pattern_count (end - start) / size of one and the same vector.",
   "assume": ["the subset construction and merging keep labels on the states that had them (not decided: only that no other values arise)"]}

CHECKS["C03"] = {"steps": [("lgsa", "C03", "lib")], "min": 7,
   "technique": "path-sensitive shape analysis of the error list over the inlined LLVM IR of lg_add_pattern_list",
   "explain": "lg_add_pattern_list is inlined with its helpers and every path is followed to a fixed point, exceptional ones included, with lg_parse_pattern and lg_add_pattern as black boxes that succeed or fail, and the error objects (first, last, new) materialised. Every failure (a failed call, a handled exception, an error made in place) must have its own error, which is linked behind the last one before the next arises; each error made for a line carries the line counter (proved to start at 0 and to grow by one on every way round the loop) and a copy of the source name. Every way out of the loops over the lines and over the encodings must be reachable after a success as well as after a failure; each turn of the loop parses a pattern or records an error, each turn over the encodings adds one. At the return: failure exactly when something failed on the path; the slot receives the first error and the list is not freed. All of this with and without error slot, source name and memory for errors.",
   "assume": ["boost::tokenizer yields every non-empty line"]}

CHECKS["B07"] = {"steps": [("lgsa", "B07", "lib")], "min": 100,
   "technique": "bytewise abstract evaluation of instruction makers and of the engine's dispatch functions over inlined LLVM IR",
   "explain": "Every function of the compiler that makes an instruction and every transition's toInstruction is evaluated abstractly (bytes are constants or named unknowns; comparisons are decided by enumerating the order types of the named bytes) to obtain the words it writes. The engine's dispatch functions, found as those reachable from searching that switch on the byte at a thread's program counter, are then evaluated on exactly those words. For each transition the byte is accepted exactly when the transition's own allowed() accepts it, and execution continues after as many words as it announces and writes; for each other kind the engine continues after the words written, or at the operand read whole from where it was written (jumps, forks, jump tables with the byte in range and a non-empty entry); every kind has a code of its own and is executed; every operand is stored whole or refused when it does not fit.",
   "assume": ["the words at the program counter are those the compiler wrote (see B08)", "memory other than the program is arbitrary"]}

CHECKS["B08"] = {"steps": [("lgsa", "B08", "lib")], "min": 200,
   "technique": "abstract evaluation of address assignment and of code emission over one unknown automaton, and comparison of the two, over inlined LLVM IR",
   "explain": "CodeGenVisitor::finish_vertex and encodeState are each evaluated abstractly in every case that their conditions on the automaton (out-degree, label, match, check index, rank, kind) distinguish; queries on the graph are named unknowns, so both sides speak about the same automaton. Counted loops are summarised by scalar evolution, and their bodies evaluated separately: a turn must write exactly the words it advances by. The words written must follow each other without gap or overlap, the next state must start where the one before ends, and in every case in which both sides can be, the number of words written must equal the number reserved as linear forms over the unknowns. calcJumpTableSize must mark a state as a jump table on exactly the ways on which it reserves room; createJumpTable must return only where it has compared the end of what it wrote with the end reserved. Jumps and forks must lead to the recorded start of a state, and each state must be written at its recorded start.",
   "assume": ["state 0 is the only state without a transition and has no label, match or predecessor", "a transition writes as many words as it announces (B07)", "a jump table reserves at least one word"]}

CHECKS["E01"] = {"steps": [("lgsa", "E01", "lib")], "min": 24,
   "technique": "abstract evaluation of writer and reader and comparison of the pieces written with the pieces read (places as linear forms, bit-precise for the filter), over inlined LLVM IR",
   "explain": "Everything that writes or reads a serialized program is evaluated abstractly in every case its conditions distinguish: the pieces written, each with place, length and source, must follow each other without gap or overlap and fill the buffer; the announced sizes must be the same linear form as the end of the last piece. The reader must take each piece from the place where it was written, with the same width, into the member it came from: every member of Program and of a pattern's entry must be covered. The loops over the two-byte filter are followed bit by bit with their counters known (each of the 65536 bits is a named unknown), and the two bit maps composed must be the identity. For the loops over patterns one turn is evaluated for an arbitrary entry: what it writes, what it adds to the size, and what a turn of the reader takes (texts end at their terminator) must agree, and both go over all entries.",
   "assume": ["texts in the pattern list contain no zero byte before their end (they are C strings)", "sizes fit the types the API uses for them"]}

CHECKS["A03"] = {"steps": [("lgsa", "A03", "lib")], "min": 150,
   "technique": "ownership and typestate dataflow over LLVM IR (per-function summaries of who hands out, takes over and releases; exceptional edges included), class-hierarchy check of virtual destructors",
   "explain": "Every allocation in the library, every result of a function that hands out what it owns (found by the same analysis) and every unique_ptr::release() is followed along all paths of its function, exceptional ones included (edges of calls that cannot throw are left out), until the object is released, returned, stored for the caller or taken over by a smart pointer, a container or a class that owns it; a path that ends otherwise is reported, as is a release in another form (delete, delete[], free) than the allocation. Each lg_free_*/lg_destroy_* function must release its argument exactly once on every path but those for a null pointer, touch nothing through a null pointer, run the destructor of the handle it deletes, and the one for error lists must go through the whole list (one turn evaluated abstractly) and release every text of every entry as an array. Everything the C API hands out must have a release function of the same type and form. What plain pointers own must be released in the same form by a release function or by the destructor of the class, for every entry, unless the flag for borrowed texts says otherwise, and that flag must be set exactly where borrowed texts are stored. A destructor called through a base class must be virtual.",
   "assume": ["smart pointers and containers of the standard library release what they own", "an object is not handed to its release function by the caller before the library is done with it"]}

CHECKS["D01"] = {"steps": [("lgsa", "D01", "lib")], "min": 12,
   "technique": "abstract interpretation of LLVM IR over bit vectors of 0/1/unknown with input-domain splitting: a partition of all inputs is evaluated and each piece compared with the encoding forms of the Unicode standard",
   "explain": "Every input bit is 0, 1 or unknown; values are vectors of constants and (complemented) input bits. Where a comparison, carry or address needs an unknown bit the domain is split on it and both halves are evaluated again, so the pieces cover every input exactly once, and in each piece length, code point and bytes must be the very bit vectors which the Unicode standard's table of well-formed sequences prescribes. Analysed are each codec's encoder (all 2^32 values), its inverse, its decode function for every length from 0 to 5 bytes, next() with its queue (a model of std::deque, filled with 0, 1, 3 or 4 elements) and an arbitrary element source, and the decoder of pattern text; reading outside the given bytes or an unwritten local is reported. The source is read, not run: no compiled code of the repository is executed and no solver is used.",
   "assume": ["the elements a decoder's source yields are 32-bit values; std::deque behaves as documented", "a function which uses a construct the interpretation does not know is counted as not decided in the evidence, not as a violation"]}

CHECKS["D03"] = {"steps": [("lgsa", "D03", "lib")], "min": 4,
   "technique": "abstract interpretation of LLVM IR over bit vectors with input-domain splitting: the composition of transform and inverse is shown to be the identity on a partition of all inputs",
   "explain": "For every class with a byteTransform or charTransform, the same-named decoder's next() is interpreted on the output of the transform for an unknown byte (at each position of buffers of 0, 1, 2 and 4 bytes) or an unknown 32-bit code point, with the same unknown key in both objects (each rotation 0..25); the result must be the very input bits. Likewise transform followed by the encoder's own inverse, and decoding of elements that are no bytes. Tables are read from the constants of the program.",
   "assume": ["both sides are built with the same key (the member each constructor sets from its integer argument)", "rotations lie between 0 and 25 (what the chain parser is documented to accept)"]}
CHECKS["D04"] = {"steps": [("lgsa", "D04", "lib")], "min": 7,
   "technique": "abstract interpretation of LLVM IR over bit vectors with input-domain splitting, wrapped encoders modelled by an arbitrary encoder",
   "explain": "Each encoder that writes itself is interpreted on a partition of all 2^32 code points: the bytes it stores must lie below both the constant its maxByteLength() returns and the length it returns, and all bytes up to that length must be written. Encoders that wrap another are interpreted with an arbitrary wrapped encoder (announcing 1, 4 or 7 bytes, writing any number up to that of unknown bytes): the code point and buffer passed on, what is stored in the buffer, the transform's range, the reported length and the announced length are compared with the wrapped encoder's; reading back must hand the wrapped encoder exactly the given bytes, untransformed.",
   "assume": ["a wrapped encoder keeps the same contract (induction over the chain)", "a function which uses a construct the interpretation does not know is counted as not decided in the evidence, not as a violation"]}

CHECKS["I01"] = {"steps": [("lgsa", "I01", "lib")], "min": 12,
   "technique": "effect analysis over the call graph from the compiling API, with the key and comparator types of every standard container and the provenance of compared pointers",
   "explain": "Over every function reachable from the functions that parse, compile and write a program: no call to a source of variation (random numbers, clocks, process and thread identity, environment); no ordered container or standard comparator instantiated for a type whose order is that of addresses (pointers, smart pointers, pairs, tuples and sequences of them); no walk of an unordered container keyed by such a type; and no comparison written in the repository (operator<, function object, lambda or function passed as one) that orders its two arguments by the addresses they hold or lie at.",
   "assume": ["ICU and the C library answer the same question the same way within one installation", "uninitialised memory is not tracked"]}

NOT_APPLICABLE = {
 "D05": "Quantifies over all sets of code points, i.e. over loops whose trip counts are the set's ranges and over tables computed in advance; the bit-vector interpretation behind D01 would have to enumerate sets, which is running the code, not a static argument. Single code points are decided (D01, D04).",
 "C04": "That every stage gives each node kind its right meaning is a question about the automata it builds; no check of the switches over node kinds has been built that would say more than that a case label exists.",
 "C05": "Needs an amortised bound of nodes added per character of the pattern over all runs of an LALR parser: the amount depends on the parser's runtime stack, which no static check built here bounds.",
 "C06": "The statement quantifies over what the lexer and the generated parser tables do with every code point; no check of the generated tables has been built.",
 "D02": "Quantifies over the names ICU knows at run time (its alias tables are data in libicudata), which cannot be decided from the sources.",
 "N01": "Whether the matching algorithm realises the pattern language is a question about runtime data (thread lists, priorities) over unbounded inputs; no static abstraction in reach decides it.",
 "N02": "Equivalence of automata before and after the subset construction quantifies over all automata and inputs; not decidable by dataflow over the constructor's code.",
 "N03": "Needs equality of the thread state reached by two runs of the scanner; a relational property over unbounded executions.",
 "N04": "Needs a lower bound over all continuations of a runtime thread set.",
 "N05": "Needs the match relation itself (see N01).",
 "N06": "Equality of two parse trees produced by two inverse recursive functions over unbounded trees; static checks can only show that every node kind is printed (done in C04).",
 "N07": "Needs that a bit set computed by a graph traversal over-approximates all paths of an arbitrary automaton; a loop invariant over runtime graphs.",
}
