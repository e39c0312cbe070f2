#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

CAPI="src/lib/lightgrep_c_api.cpp"; CUT="src/lib/lightgrep_c_util.cpp"; VM="src/lib/vm.cpp"

p("A01","No C++ exception ever crosses the C API",
  "Whatever the arguments, the pattern text, the state of the handles and the success or failure of any memory allocation inside the library, no function of the public C API lets a C++ exception propagate to its caller. Every internal error is turned into the function's ordinary return.",
  ["inputs","fault_sequences"],"every public C function, every pattern/encoding/buffer, every allocation that may fail",
  "Tests throw from a handful of bad patterns; allocation failure and exceptions from rarely reached library calls (bad_alloc, length_error, ICU, logic_error) are never provoked.",
  [CAPI,CUT,"include/c_api_util.h","src/lib/c_api_util.cpp"],
  [("trapWithRetval/trapWithVals/exceptionTrap wrap each body","include/c_api_util.h"),("noexcept-only work outside the traps",CAPI)],
  observe=["every lg_* symbol exported by the shared library"])

p("A02","A failing C call always says so, with or without an error slot",
  "When the work behind a C API call fails internally, the call returns its documented failure value (null, zero, a negative number, or the maximum offset), never a success value. If the caller passed a place for an error, an error object is stored there; if the caller passed none, the call still returns normally without touching it.",
  ["inputs","fault_sequences"],"every failure path of every public C function, with the error slot null or not",
  "Tests always pass an error slot and exercise few failure paths, so a null slot or an unusual exception type is not reached.",
  [CAPI,CUT,"include/c_api_util.h"],
  [("trap helpers store makeError(...) if err and return the fail value","include/c_api_util.h"),("post-failure decoration of *err",CAPI)])

p("A03","Everything handed to the caller is fully released by its release function",
  "Each object the C API gives to its caller (error lists with all their texts, handles, decoded windows, context strings) is completely released by the one matching release call, in the same form it was allocated in, and a null argument to a release call is harmless. Destroying a handle releases everything that handle owns.",
  ["histories","inputs"],"every object kind and every content (all optional texts present or not, any chain length)",
  "The suite is not run under a leak checker and errors with all fields set or chained are rarely built.",
  [CAPI,CUT,"src/lib/utility.cpp","include/handles.h"],
  [("lg_free_error walks the chain, delete[]s every text",CAPI),("lg_destroy_* delete the handle; members are smart pointers","include/handles.h")])

p("A04","A compiled program never changes and does not depend on its FSM",
  "Once a program has been created or loaded, no later API call other than destroying it changes its code, its tables or its pattern list: not searching, creating or resetting contexts, querying or writing it out, and not adding further patterns to the FSM it came from.",
  ["histories","schedules"],"every interleaving of API calls on a program, its contexts and its source FSM, from any number of threads",
  "Tests check a few sequences single-threaded; an aliasing or hidden-cache write shows only under particular later calls or concurrent use.",
  [CAPI,VM,"src/lib/pattern_map.cpp","src/lib/program.cpp","include/program.h"],
  [("copy-on-write of the shared pattern map","%s addPattern"%CAPI),("contexts hold a pointer-to-const program","include/vm.h")])

p("A05","Independent objects share no mutable state",
  "Two calls that work on different handles never read and write the same memory: the library keeps no mutable process-wide or per-thread state that survives a call or is shared between handles, apart from one-time initialised constants. Hence independent handles can be used concurrently from different threads.",
  ["schedules","histories"],"every pair of API calls on distinct handles, every thread schedule",
  "The test suite is single-threaded, and a cached static is invisible to it unless two patterns collide in it.",
  ["src/lib/*.cpp","include/*.h"],
  [("globals are const or initialised once under a guard","src/lib, include")])

p("B01","Resetting a context restores its initial state",
  "After a reset, a search context behaves exactly as a freshly created one for the same program, whatever was searched before: no partial match, no suppressed range, no live or locked state and no callback of the earlier search remains.",
  ["histories"],"every sequence of search, resolve, closeout and starts-with calls before the reset",
  "Tests reset after a few simple searches; a field left stale matters only for specific earlier histories.",
  [VM,"include/vm.h","include/sparseset.h"],
  [("Vm::reset clears every field the search writes",VM)],
  state=[("Active/Next/CheckLabels/LiveNoLabel/Live/MatchEnds/MatchEndsMax/CurHitFn","per-context search state","include/vm.h")])

p("B02","Prefix search starts and leaves the context clean",
  "Every prefix (starts-with) search that returns leaves the context in the same state as a reset, however it ended: whether or not the first bytes could start any match, whether it stopped early, and whether the buffer was empty. It reports only hits of that buffer, whatever was searched with the context before.",
  ["histories","inputs"],"every buffer and every outcome of the prefilter and of the early exit",
  "Tests use prefix search on fresh contexts only and never continue with the same context after a miss.",
  [VM],[("startsWith runs closeOut and reset",VM)])

p("B03","Hits for one pattern never overlap",
  "Between two resets, every hit reported for a pattern starts at or after the end of the hit reported before it for the same pattern; reporting a hit always records its end as that pattern's new limit, and the limits never move backwards except by a reset.",
  ["inputs","histories"],"every input stream, block split and closeout",
  "Overlap arises only for particular thread priorities; tests sample few streams.",
  [VM],[("MatchEnds[label] compared before and updated at each report",VM)],
  state=[("MatchEnds","end of the last hit per label","include/vm.h")])

p("B04","The callback runs as the current call asked, and only during it",
  "Each search, resolve, closeout or prefix call delivers its hits only to the callback and with the user pointer given to that very call, on that call's own stack and never after it returned. A call given no callback reports nothing and does not crash.",
  ["histories"],"every sequence of calls with changing callbacks and user pointers, including null",
  "Tests pass the same callback and user pointer throughout a search.",
  [VM,CAPI],[("each entry stores its callback arguments before running","%s"%VM),("argument order in the std::bind calls",CAPI)])

p("B05","Searching never reads outside the caller's buffer",
  "Whatever the program and the buffer length (including empty), a search, resolve or prefix call reads only bytes between the buffer start and the buffer end it was given; the prefilter's look-ahead never goes past the end.",
  ["inputs","programs"],"every program (any prefilter offset), every buffer length",
  "Over-reads by a byte or two at the end of a buffer are silent in the tests, which use literals with a terminator behind them.",
  [VM],[("loop bounds end and end-FilterOff-1",VM)])

p("B06","Each byte is scanned once, in order, with its own stream offset",
  "Searching visits every byte of the buffer exactly once in ascending order, and the byte at distance n from the buffer start is always handled with stream offset startOffset + n. At every visited byte all running match attempts advance first and then, unless the prefilter rules them out, new attempts start; the prefilter never drops a running attempt, and it is not consulted where its window does not fit in the buffer.",
  ["inputs","programs"],"every buffer length, start offset and prefilter outcome",
  "Off-by-one or out-of-step offsets at the switch between filtered and unfiltered scanning need particular pattern/buffer-length combinations.",
  [VM],[("search's two loops, cur and offset in lockstep",VM),("_executeFrame",VM)])

p("B07","The VM executes every instruction kind the compiler can emit",
  "Every instruction kind the compiler can emit is executed by the search engine, with the size the compiler laid it out with: a non-branching instruction always continues at the first word after it, and its operands are read from the same fields they were written to.",
  ["programs"],"every compiled program",
  "Tests compile a limited set of patterns; a size or operand mismatch for one kind shows only in programs in which it is followed by something else.",
  ["include/instructions.h","src/lib/instructions.cpp",VM,"src/lib/compiler.cpp"],
  [("InstructionSize<OP>","include/instructions.h"),("Vm::_execute/_executeEpsilon switches",VM),("Instruction::make*","src/lib/instructions.cpp")])

p("B08","Code is laid out exactly as it is emitted",
  "For every automaton, the number of instruction words reserved for a state when addresses are assigned equals the number of words later emitted for it (or compilation is refused with an error, when a jump table does not fit), so every jump lands on the first instruction of its target and no state overwrites another.",
  ["programs"],"every automaton (out-degree, label, match, check-halt, jump-table shape)",
  "Only particular transition shapes (jump tables with several targets per byte, labels together with matches) expose a disagreement.",
  ["src/lib/codegen.cpp","include/codegen.h","src/lib/compiler.cpp","src/lib/states.cpp"],
  [("CodeGenVisitor::discover_vertex/finish_vertex/calcJumpTableSize","src/lib/codegen.cpp"),("Compiler::encodeState/createJumpTable","src/lib/compiler.cpp")])

p("C01","A rejected pattern leaves the FSM as it was",
  "If adding a pattern fails (unparsed pattern, unknown encoding, empty match, a character the encoding lacks, or anything else that is refused while the pattern is built), the FSM's automaton, its pattern count and its pattern list are what they were before the call, and nothing of the rejected pattern shows up in one added later. A pattern whose parsing failed cannot be added.",
  ["fault_sequences","histories"],"every failing add, including failures part-way",
  "Tests check that the call fails, not that the FSM afterwards equals the one before.",
  ["src/lib/fsmthingy.cpp",CAPI],
  [("fallible building done on a scratch NFA before merging","src/lib/fsmthingy.cpp"),("label registered only after the merge",CAPI)])

p("C02","Pattern indices are dense and name the right pattern",
  "The index returned by a successful add equals the number of patterns that were in the FSM before, is the index its hits are reported with, and looks up an entry with exactly the expression, encoding and user index given to that add. The reported count is always one more than the greatest valid index.",
  ["histories","inputs"],"every sequence of successful and failed adds",
  "Tests add few patterns and seldom mix failures, user indices and lookups.",
  [CAPI,"src/lib/pattern_map.cpp","src/lib/fsmthingy.cpp"],
  [("label = count() used for the automaton, the map and the return value","%s addPattern"%CAPI)])

p("C03","Pattern lists: every line is tried and every failure is reported",
  "Adding a pattern list processes every line even when earlier lines or encodings fail; each failure appends its own error carrying the zero-based number of the line (empty lines do not count) and the source name, no earlier error is lost, and the call reports success exactly when nothing failed.",
  ["inputs","histories"],"every pattern list, every mixture of bad lines, bad encodings and bad option columns",
  "Tests use lists with one or two errors of one kind.",
  [CAPI],[("addPatternList/addPatternHelper chain errors through &(*err)->Next",CAPI)])

p("C04","Every construct the parser accepts is compiled or rejected, never dropped",
  "Each kind of node that parsing a pattern can produce is explicitly handled by each later stage that walks a pattern: it contributes its meaning, or the pattern is rejected with an error. No stage silently ignores a node kind.",
  ["inputs"],"every syntactic construct and combination the grammar accepts",
  "Tests cover common constructs; a stage that skips one operator accepts the pattern and merely matches the wrong thing.",
  ["src/lib/re_grammar.ypp","src/lib/nfabuilder.cpp","src/lib/unparser.cpp","src/lib/rewriter.cpp","include/parsenode.h"],
  [("switches over ParseNode::Type","src/lib/nfabuilder.cpp, unparser.cpp, rewriter.cpp")])

p("C05","Parsing never outgrows the storage it reserves",
  "For every pattern text, the parse tree never holds more nodes than it reserved before parsing, so references between nodes stay valid; each grammar rule adds no more nodes than the reservation accounts for.",
  ["inputs"],"every pattern text",
  "The reservation is generous for ordinary patterns; only texts dense in multi-node constructs could outgrow it, and then the damage is silent.",
  ["src/lib/parsetree.cpp","src/lib/re_grammar.ypp","include/parsetree.h"],
  [("ParseTree::init reserves from the pattern","src/lib/parsetree.cpp"),("ctx->add in the grammar actions","src/lib/re_grammar.ypp")])

p("C06","Fixed-string patterns have no special characters",
  "In fixed-string mode every valid code point of the pattern text stands for exactly itself: no character is treated as an operator, class, anchor, group or escape.",
  ["inputs"],"every code point in every position of a fixed-string pattern",
  "Tests try a few metacharacters.",
  ["src/lib/re_grammar.ypp","src/lib/parser.cpp"],
  [("yylex returns only character tokens in literal mode","src/lib/re_grammar.ypp")])

p("D01","UTF and ASCII codecs accept exactly the well-formed encodings",
  "The UTF-8, UTF-16 (both byte orders), UTF-32 (both byte orders) and ASCII decoders yield a code point only for a well-formed sequence, and then exactly the code point that sequence encodes, with the position of its first byte; anything else (surrogates, overlong forms, values above U+10FFFF, truncated sequences) is reported as one bad byte, and decoding always advances by exactly what was reported. The encoders of these encodings produce exactly the well-formed sequence of each code point, reject every other value, and read their own sequences back. Pattern text is decoded by the same rules, ill-formed text yielding an error value, and never read past its end.",
  ["inputs"],"all code points and all byte sequences",
  "Tests sample boundary values for some of the codecs.",
  ["include/decoders/utf8.h","include/decoders/utf16.h","include/decoders/utf32.h","include/decoders/utfdecoderbase.h","include/decoders/asciidecoder.h","include/encoders/utf16.h","include/encoders/utf32.h","include/unicode.h","src/lib/utf8.cpp","src/lib/ascii.cpp"],
  [("utf8_to_cp/utf16_to_cp/utf32_to_cp","include/decoders"),("cp_to_utf8 and the UTF encoders","include/decoders/utf8.h, include/encoders"),("UTFDecoderBase::next","include/decoders/utfdecoderbase.h"),("utf8_to_unicode (pattern text)","include/unicode.h")])

p("D02","Published encoding and transform names match what is accepted",
  "Every encoding and transformation name or alias that the library publishes is accepted, case-insensitively, by the name lookup and by both the pattern-encoding and the text-decoding side, with the same meaning on both; every name that is not published is rejected with an error rather than mapped to something else.",
  ["inputs","configurations"],"all published names and aliases, on both sides",
  "Tests try a few dozen of the more than two thousand names.",
  ["src/enc/encodings.cpp","src/lib/encoderfactory.cpp","include/decoders/decoderfactory.h","include/lightgrep/transforms.h","src/lib/chain.cpp"],
  [("LG_ENCODINGS tables","include/lightgrep/encodings.h (generated)"),("EncoderFactory::get / DecoderFactory::get","src/lib/encoderfactory.cpp")])

p("D03","A text transform and its inverse undo each other",
  "For every transform of bytes or characters that patterns can be encoded with (rotation by 0 to 25, XOR with any key, the OCE table), decoding with the transform of the same name and key yields every byte or character back that the encoding side transformed, and the encoding side's own inverse does the same. A transform of a buffer changes exactly the bytes it was given, and a transforming decoder passes errors of the layer below on as errors.",
  ["inputs","configurations"],"all byte values, all code points and all keys",
  "Tests check samples of a few transforms.",
  ["include/encoders/oceencoder.h","src/lib/oceencoder.cpp","include/encoders/rotencoder.h","include/encoders/xorencoder.h","include/decoders/ocedecoder.h","include/decoders/rotdecoder.h","include/decoders/xordecoder.h"],
  [("OCE/unOCE tables; rotate tables","src/lib/oceencoder.cpp, include/decoders/ocedecoder.h"),("byteTransform/charTransform","include/encoders"),("next() of the transforming decoders","include/decoders")])

p("D04","Encoders never write more than they announce or report",
  "For every code point, every encoder of its own (UTF family, ASCII) writes at most the number of bytes it announces as its maximum length into the caller's buffer, and exactly as many as it reports. An encoder that wraps another (transforms, decorators) announces, encodes, reports and reads back what the wrapped one does, and touches nothing beyond the bytes that one wrote.",
  ["inputs","configurations"],"every encoder, including chains of transforms, and every code point",
  "Buffers in tests are larger than needed, so an overrun is silent.",
  ["include/encoders/utf16.h","include/encoders/utf32.h","include/encoders/utf8.h","include/encoders/ascii.h","include/encoders/decorating_encoder.h","src/lib/utf8.cpp","src/lib/ascii.cpp","src/lib/byteencoder.cpp","src/lib/charencoder.cpp"],
  [("maxByteLength of each encoder","include/encoders"),("ByteEncoder/CharEncoder::write","src/lib/byteencoder.cpp, src/lib/charencoder.cpp")])

p("D05","Sets of characters are encoded exactly",
  "The byte sequences generated for a set of code points, in every encoding, are exactly the encodings of the members that the encoding can represent: none is missing, and no sequence outside the set is accepted because sequences were merged or looked up in a table computed in advance.",
  ["inputs"],"every set of code points and every encoding",
  "Tests compare a few sets in UTF-8 and UTF-16.",
  ["src/lib/utfbase.cpp","src/lib/encoderbase.cpp","include/encoders/utf16.h","include/encoders/utf32.h","src/lib/utf8.cpp","include/encoders/caching_encoder.h"],
  [("collectRanges/writeRange/writeRangeBlock","src/lib/utfbase.cpp"),("EncoderBase::write(UnicodeSet)","src/lib/encoderbase.cpp")])

p("E01","Writing and loading a program are exact inverses, of the announced size",
  "Writing a program stores every piece of it that searching and pattern lookup use, and loading reads the same pieces back in the same order and widths; the announced size equals the number of bytes written for every program.",
  ["programs"],"every program: any number and length of patterns and encodings, any code size",
  "Tests round-trip a few small programs.",
  ["src/lib/program.cpp","src/lib/pattern_map.cpp",CAPI],
  [("marshall/unmarshall/bufSize","src/lib/program.cpp, src/lib/pattern_map.cpp"),("write_program/read_program/lg_program_size",CAPI)])

p("E02","Loading never reads outside the given buffer",
  "Whatever bytes and size are passed, loading a serialized program reads only within the given buffer; truncated or inconsistent data is refused with a null handle instead of being read past its end.",
  ["inputs"],"every byte buffer and size",
  "Tests load only buffers they have just written.",
  [CAPI,"src/lib/program.cpp","src/lib/pattern_map.cpp"],
  [("size checks before each read","%s read_program"%CAPI)])

p("E03","Loaded programs keep their backing memory alive",
  "A loaded program refers to the caller's buffer instead of copying it, so every caller in this repository (the command-line tool and the Python and Java bindings) keeps that buffer alive and in place for as long as the program handle exists.",
  ["histories","schedules"],"every use of a loaded program after loading, any allocator or garbage-collector activity in between",
  "Freed or moved memory usually still holds the old bytes in a short test.",
  ["src/cmd/main.cpp","pylightgrep/lightgrep/__init__.py","src/java/jni/jlightgrep.cpp"],
  [("loadProgram","src/cmd/main.cpp"),("Program.from_buffer","pylightgrep/lightgrep/__init__.py"),("readImpl","src/java/jni/jlightgrep.cpp")])

p("F01","The CLI scans each input as one contiguous stream",
  "For every input the command-line search passes each block it read to the engine exactly once, in order, with its true length and with a stream offset equal to the total length of the blocks before it, resets the context before the input and closes the search out after its last block. Before each search the hit writer is given that same block with the same offset, and at the close-out it still has the last block that holds data. Readers deliver the input's bytes in order without gaps or repetition, never more than fits their buffers, never overwrite a block still being searched, and report a read error instead of taking it for the end of the input.",
  ["inputs","configurations"],"every input length relative to the block size, every number of inputs",
  "Command-line tests use inputs much smaller than a block.",
  ["src/cmd/searchcontroller.cpp","src/cmd/main.cpp","src/cmd/reader.cpp"],
  [("SearchController::searchFile","src/cmd/searchcontroller.cpp"),("searchRecursively/search","src/cmd/main.cpp")])

p("F02","Orderings used for sorting are strict weak orders",
  "Every comparison the project gives to a sort or ordered container is a strict weak order for all arguments: irreflexive, asymmetric and transitive with transitive ties, and it orders by exactly the keys its documentation or output promises (the histogram: count descending, then user index, then hit text). Where a container keeps only one of two tied elements, a tie implies that they are equal in every member; equality operators are equivalences over every member, with which hashes agree.",
  ["inputs"],"all pairs and triples of elements",
  "An inconsistent comparison only corrupts a sort for particular ties and sizes.",
  ["include/hitwriter.h","src/cmd/hitwriter.cpp","include/codegen.h","src/lib/nfaoptimizer.cpp","include/nfaoptimizer.h"],
  [("histogramKeyComp","src/cmd/hitwriter.cpp"),("TransitionComparator","src/lib/codegen.cpp")])

p("F03","The CLI reports every pattern error and never crashes on one",
  "For every pattern error the library returns, each command of the command-line tool that parses patterns prints it with its message, pattern and index, whatever optional parts of it are missing, and goes on to print the remaining ones; no error is lost when several pattern files have errors. A handle that could not be created is never used: the tool then fails. Whenever it fails with an exception its exit status is not 0.",
  ["inputs"],"every combination of present and absent error fields, any number of errors",
  "Tests never print errors with missing parts.",
  ["src/cmd/util.cpp","src/lib/errors.cpp","src/cmd/main.cpp","src/cmd/lg_app.cpp"],
  [("Errors::outputErrors","src/lib/errors.cpp"),("main's catch block","src/cmd/main.cpp")])

p("G01","The Python binding calls the C API with its true signatures",
  "Every C function the Python binding calls exists, and the binding declares its argument and result types with the same number, width, signedness and pointer-ness as the C header; every structure it exchanges has the same fields in the same order and types.",
  ["inputs"],"all values, including those outside the 32-bit range",
  "Tests pass small values, for which a too-narrow or wrongly signed type goes unnoticed.",
  ["pylightgrep/lightgrep/__init__.py","include/lightgrep/api.h","include/lightgrep/util.h","include/lightgrep/search_hit.h"],
  [("argtypes/restype table and Structure classes","pylightgrep/lightgrep/__init__.py")])

p("G02","Python handles are released once and never used after close",
  "Every native handle the Python binding obtains is destroyed exactly once with the destroy function of its kind, on close or when its with-block ends by return or exception; using a closed handle raises an exception before anything native is called.",
  ["histories"],"every order of use, close, repeated close and exceptions",
  "Tests follow the ordinary order.",
  ["pylightgrep/lightgrep/__init__.py"],
  [("Handle.close/__exit__/get","pylightgrep/lightgrep/__init__.py")])

p("H01","The Java native layer agrees with its Java declarations",
  "Every Java native method has a native implementation with matching parameters, every class, field, method and constructor the native code looks up by name and signature exists in the Java sources with that exact type, and each is accessed and constructed with the operation and argument types its signature demands.",
  ["inputs"],"every native entry point and looked-up member",
  "Java tests run few native paths and a wrong signature fails only when that path runs.",
  ["src/java/jni/jlightgrep.cpp","src/java/src/main/java/com/lightboxtechnologies/lightgrep/*.java"],
  [("*_init natives caching IDs","src/java/jni/jlightgrep.cpp")])

p("H02","No C++ exception escapes into the Java VM",
  "No native method lets a C++ exception propagate into the Java VM; each ends with either a normal return or a pending Java exception. While a Java array is pinned for direct access, nothing is called that may run Java code, allocate Java objects or raise Java exceptions, and every pin is released on every path.",
  ["fault_sequences","inputs"],"every native method and every failing JNI or library call in it",
  "JNI failures (out of memory, pending exceptions) cannot be provoked from the tests.",
  ["src/java/jni/jlightgrep.cpp"],
  [("try/catch of PendingJavaException and std::exception","src/java/jni/jlightgrep.cpp"),("unwrapCrit RAII","src/java/jni/jlightgrep.cpp")])

p("H03","The Java API checks every handle and range before going native",
  "Every public Java method checks that the handle it uses is open, that reference arguments are not null and that offsets, sizes and hit positions lie within the given array (or the remaining bytes of the given buffer), and that index and hint arguments are not negative, before it calls a native method; a closed handle, null or bad range gives a Java exception. A ByteBuffer goes native only when it is direct; otherwise exactly its remaining bytes do. destroy() leaves the handle closed.",
  ["inputs","histories"],"every public method, every closed/null/out-of-range combination",
  "Tests cover some of the combinations; a missing check crashes the VM.",
  ["src/java/src/main/java/com/lightboxtechnologies/lightgrep/*.java"],
  [("Throws.* guards","src/java/src/main/java/com/lightboxtechnologies/lightgrep/Throws.java")])

p("I01","Compilation is deterministic",
  "Compiling the same patterns with the same options in the same order always gives byte-for-byte the same program: nothing on the way from pattern text to program depends on the order of memory addresses, on walking a hash table keyed by addresses, or on randomness, time or the process environment.",
  ["inputs","schedules","configurations"],"every pattern set, every process and address-space layout",
  "Tests run each compilation in one process layout.",
  ["src/lib/*.cpp","include/*.h"],
  [("ordered iteration and vertex numbers instead of addresses","src/lib/nfaoptimizer.cpp, codegen.cpp")])

# --- not statically decidable: stated, not claimed
p("N01","A pattern matches what its syntax says",
  "A hit is reported for a span of the input exactly when the pattern, encoded as asked, matches that span under leftmost, priority-ordered (Perl-like) semantics.",
  ["inputs","programs"],"all patterns, encodings and inputs",
  "Tests sample a few thousand pattern/text pairs.",
  [VM,"src/lib/nfabuilder.cpp","src/lib/nfaoptimizer.cpp"],[("thread priority order",VM)])
p("N02","Determinization and optimisation preserve the language and priorities",
  "For every determinization depth and for every pattern set, searching reports the same hits.",
  ["programs","inputs","configurations"],"all pattern sets, depths and inputs",
  "Tests compare few depths.",
  ["src/lib/nfaoptimizer.cpp"],[("subset construction with priority","src/lib/nfaoptimizer.cpp")])
p("N03","Splitting the input into blocks does not change the hits",
  "Searching a stream in any sequence of blocks reports the same hits as searching it in one.",
  ["inputs","histories"],"all splits of all streams","Tests use few splits.",
  [VM],[("thread state kept between calls",VM)])
p("N04","The returned offset bounds future hits from below",
  "The offset returned by a search is the least offset at which a hit could still be reported by further searching.",
  ["inputs","programs"],"all programs and streams","Tests check few cases.",
  [VM],[("_startOfLeftmostLiveThread",VM)])
p("N05","Generated sample matches match",
  "Every sample string generated for a pattern set is matched by the pattern it was generated for.",
  ["programs"],"all pattern sets","Tests sample.",
  ["src/lib/matchgen.cpp"],[("matchgen","src/lib/matchgen.cpp")])
p("N06","Unparsing round-trips",
  "Printing a parsed pattern and parsing the result gives an equivalent pattern.",
  ["inputs"],"all patterns","Tests enumerate small patterns.",
  ["src/lib/unparser.cpp"],[("unparse","src/lib/unparser.cpp")])
p("N07","The prefilter accepts every pair of bytes a match can contain",
  "For every program, the two-byte prefilter accepts whatever byte pair any match contains at the filter's offset.",
  ["programs","inputs"],"all automata","Tests check a few automata.",
  ["src/lib/utility.cpp"],[("bestPair","src/lib/utility.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
print(len(P))
