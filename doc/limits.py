LIMITS = {
 "D01": "How sets of code points are turned into byte sets (collectRanges and writeRange, the caching encoders' tables) is D05 and not decided; ICU's own encodings are ICU's. Functions written with constructs the interpretation does not know are counted as not decided in the evidence (none on this tree).",
 "D03": "Which names select which transform is D02. Keys above 25 for rotations are not reachable through the chain parser on this tree and not considered.",
 "D04": "ICU's converters bound their own output by the limit they are given (ucnv_convertEx); that limit is not analysed, nor are the buffers of the callers (A05 covers accesses by index and pointer in the library).",
 "I01": "Bytes left uninitialised and the process locale (names are looked up with strcasecmp) are not tracked; results that depend on an address as a number (modulo, hashing into an index) are seen only through the containers named.",
 "A03": "Errors which a function stores for its caller on some of its returns only are followed inside that function, not in its callers inside the library. Memory ICU and the standard library hold is theirs.",
 "A01": "ICU and the C library are trusted not to throw; the callback's own exceptions are the caller's.",
 "A02": "That a failure inside the library is noticed by the library (an exception is thrown) is not decided; only what the C API does with it.",
 "A04": "Writes through pointers whose declared type is not one of the program's classes (type punning) are not seen.",
 "A05": "State inside ICU and the C++ runtime is trusted.",
 "B01": "Equality is of all fields that a search can write and that later code can read, not of allocated capacity.",
 "B06": "Which threads survive a byte (the matching itself) is not decided, see N01.",
 "B07": "That a program contains only well-formed sequences of these instructions is B08's matter; ranges, bitmaps and jump tables are checked for all operands by case analysis over named bytes.",
 "B08": "The words of a jump table are not compared one by one; a table that does not end with its state refuses compilation, which is what is checked.",
 "C01": "Running out of memory after the merge has begun is excluded.",
 "C02": "That determinisation and merging keep each label on the states that had it is not decided; only that no other value can arise or be reported.",
 "C03": "The tokenizer's notion of a line and the contents of each column are the library's; only their handling is decided.",
 "E01": "That programs of more than 4 GiB cannot be announced in an unsigned int (nor loaded with an int) is part of the API's types and not decided here.",
 "E02": "Sizes so large that pointer arithmetic wraps the address space are excluded.",
 "E03": "A handle stored in an object of a class that is not inlined is not followed further (noted in the evidence).",
 "F01": "Reads are assumed to follow fread's contract.",
 "F02": "Only comparisons that inline to finitely many key relations are decided; others are listed in the evidence as notes.",
 "F03": "That std::ostream prints what it is given is assumed.",
 "H03": "Concurrent use of one handle from two Java threads is outside the property.",
}
