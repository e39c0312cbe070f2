From 7edcf28911e67dd4531c5f63f0ee905080e88d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/26] fix: keep exceptions from copying the pattern or
 message inside the C API

lg_parse_pattern_slice() copied the pattern, and setError() its message, into
a std::string outside of any exception trap, so an allocation failure (or an
oversized slice length) propagated out of the extern "C" functions.
---
 src/lib/lightgrep_c_api.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..cb444ac 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -51,9 +51,9 @@ namespace {
     }
   }
 
-  void setError(LG_Error** err, const std::string msg) {
+  void setError(LG_Error** err, const char* msg) {
     if (err) {
-      *err = makeError(msg.c_str());
+      *err = makeError(msg);
     }
   }
 }
@@ -92,15 +92,23 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
     setError(err, "LG_KeyOptions parameter was null. Please pass a valid struct.");
     return 0;
   }
-  // set up the pattern handle
-  hPattern->Pat = {
-    std::string(pattern, patLen),
-    static_cast<bool>(options->FixedString),
-    static_cast<bool>(options->CaseInsensitive),
-    static_cast<bool>(options->UnicodeMode)
-  };
-
-  int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
+
+  int result = trapWithVals(
+    [hPattern, pattern, patLen, options]() {
+      // set up the pattern handle
+      hPattern->Pat = {
+        std::string(pattern, patLen),
+        static_cast<bool>(options->FixedString),
+        static_cast<bool>(options->CaseInsensitive),
+        static_cast<bool>(options->UnicodeMode)
+      };
+
+      parseAndReduce(hPattern->Pat, hPattern->Tree);
+    },
+    1,
+    0,
+    err
+  );
   if (result == 0) {
     (*err)->Pattern = clone_c_str(pattern);
   }
-- 
2.43.0


From 5ee95ad51d06898257b3ab10ddbfe9b26868988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 02/26] fix: tolerate a null error slot in lg_parse_pattern()
 and lg_add_pattern()

On failure both dereferenced err unconditionally, and also *err, which is null
if makeError() ran out of memory. Copying the pattern read past the end of a
slice which is not null-terminated, and could throw.
---
 src/lib/lightgrep_c_api.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cb444ac..bade0a9 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -31,8 +31,10 @@
 #include "utility.h"
 #include "vm_interface.h"
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
+#include <new>
 #include <string>
 #include <vector>
 
@@ -56,6 +58,16 @@ namespace {
       *err = makeError(msg);
     }
   }
+
+  // Copies len chars of str, returning null instead of throwing if that fails.
+  char* tryCopy(const char* str, size_t len) {
+    char* copy = new (std::nothrow) char[len + 1];
+    if (copy) {
+      std::copy(str, str + len, copy);
+      copy[len] = '\0';
+    }
+    return copy;
+  }
 }
 
 void lg_free_error(LG_Error* err) {
@@ -109,8 +121,8 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
     0,
     err
   );
-  if (result == 0) {
-    (*err)->Pattern = clone_c_str(pattern);
+  if (result == 0 && err && *err) {
+    (*err)->Pattern = tryCopy(pattern, patLen);
   }
 
   return result;
@@ -194,9 +206,10 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
-    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
-    (*err)->EncodingChain = clone_c_str(encoding);
+  if (result == -1 && err && *err) {
+    const std::string& expr = hPattern->Pat.Expression;
+    (*err)->Pattern = tryCopy(expr.c_str(), expr.size());
+    (*err)->EncodingChain = tryCopy(encoding, std::strlen(encoding));
   }
 
   return result;
-- 
2.43.0


From cea4f7ad99f7ce64496f931efb5b846fe1996751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 03/26] fix: report every failing line in lg_add_pattern_list()

The function dereferenced a null err on the first bad line, returned -1 on
success whenever err was given, stopped at the first line with a malformed
option column (replacing and leaking the errors collected so far), and never
set Source on the errors of patterns that failed to parse or to be added.
---
 src/lib/lightgrep_c_api.cpp | 136 ++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 52 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index bade0a9..a49947a 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -216,39 +216,75 @@ int lg_add_pattern(LG_HFSM hFsm,
 }
 
 namespace {
+  // Collects the errors found while adding a list of patterns.
+  struct ErrorList {
+    LG_Error* Head = nullptr;
+    LG_Error** Tail = &Head;
+    bool Failed = false;
+
+    ErrorList() = default;
+    ErrorList(const ErrorList&) = delete;
+    ErrorList& operator=(const ErrorList&) = delete;
+
+    ~ErrorList() {
+      lg_free_error(Head);
+    }
+
+    void append(LG_Error* err, const char* source, int lnum) {
+      Failed = true;
+      if (err) {
+        err->Index = lnum;
+        if (source && !err->Source) {
+          err->Source = tryCopy(source, std::strlen(source));
+        }
+        *Tail = err;
+        Tail = &err->Next;
+      }
+    }
+
+    void append(const char* msg, const char* pattern, const char* source, int lnum) {
+      append(makeError(msg, pattern, nullptr, source, lnum), source, lnum);
+    }
+
+    LG_Error* release() {
+      LG_Error* err = Head;
+      Head = nullptr;
+      Tail = &Head;
+      return err;
+    }
+  };
+
   template <class E>
   void addPatternHelper(LG_HFSM hFsm,
                   LG_HPATTERN hPat,
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
                   const E& encodings,
+                  const char* source,
                   int lnum,
-                  LG_Error**& err)
+                  ErrorList& errs)
   {
-    lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
-    if (*err) {
-      (*err)->Index = lnum;
-      err = &((*err)->Next);
+    LG_Error* err = nullptr;
+    if (lg_parse_pattern(hPat, pat.c_str(), keyOpts, &err) <= 0) {
+      errs.append(err, source, lnum);
       return;
     }
 
     for (const std::string& enc : encodings) {
-      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
-      if (*err) {
-        (*err)->Index = lnum;
-        err = &((*err)->Next);
-        continue;
+      err = nullptr;
+      if (lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, &err) < 0) {
+        errs.append(err, source, lnum);
       }
     }
   }
 
-  int addPatternList(LG_HFSM hFsm,
-                     const char* patterns,
-                     const char* source,
-                     const char** defaultEncodings,
-                     size_t defaultEncodingsNum,
-                     const LG_KeyOptions* defaultOptions,
-                     LG_Error** err)
+  void addPatternList(LG_HFSM hFsm,
+                      const char* patterns,
+                      const char* source,
+                      const char** defaultEncodings,
+                      size_t defaultEncodingsNum,
+                      const LG_KeyOptions* defaultOptions,
+                      ErrorList& errs)
   {
     std::unique_ptr<PatternHandle,void(*)(PatternHandle*)> ph(
       lg_create_pattern(),
@@ -277,10 +313,7 @@ namespace {
       const tokenizer::const_iterator cend(ctok.end());
 
       if (ccur == cend) { // FIXME: is this possible?
-        if (err) {
-          *err = makeError("no pattern", nullptr, nullptr, source, lnum);
-          err = &((*err)->Next);
-        }
+        errs.append("no pattern", nullptr, source, lnum);
         continue;
       }
 
@@ -295,36 +328,34 @@ namespace {
         const tokenizer etok(el, char_separator(","));
 
         if (etok.begin() == etok.end()) {
-          if (err) {
-            *err = makeError(
-              "no encoding list",
-              pat.c_str(), nullptr, source, lnum
-            );
-            err = &((*err)->Next);
-          }
+          errs.append("no encoding list", pat.c_str(), source, lnum);
           continue;
         }
 
         // read the options
-        if (++ccur != cend) {
-          opts.FixedString = boost::lexical_cast<bool>(*ccur);
+        try {
           if (++ccur != cend) {
-            opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+            opts.FixedString = boost::lexical_cast<bool>(*ccur);
             if (++ccur != cend) {
-              opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+              if (++ccur != cend) {
+                opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              }
             }
           }
         }
+        catch (const boost::bad_lexical_cast& e) {
+          errs.append(e.what(), pat.c_str(), source, lnum);
+          continue;
+        }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, errs);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, errs);
       }
     }
-
-    return err ? -1 : 0;
   }
 }
 
@@ -336,27 +367,28 @@ int lg_add_pattern_list(LG_HFSM hFsm,
                         const LG_KeyOptions* defaultOptions,
                         LG_Error** err)
 {
-  // LG_Error* in_err = nullptr;
+  ErrorList errs;
 
-  const int ret = trapWithRetval(
-    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err]() {
-      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err);
+  LG_Error* last = nullptr;
+  const int ret = trapWithVals(
+    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, &errs]() {
+      addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, errs);
     },
+    0,
     -1,
-    err
+    &last
   );
 
-  // if (err) {
-  //   if (in_err) {
-  //     if (*err) {
-  //       // append the error from addPatternList to the chain
-  //       in_err->Next = *err;
-  //     }
-  //     *err = in_err;
-  //   }
-  // }
-
-  return ret;
+  if (ret < 0) {
+    errs.append(last, source, last ? last->Index : -1);
+  }
+
+  const bool failed = errs.Failed;
+  if (err && failed) {
+    *err = errs.release();
+  }
+
+  return failed ? -1 : 0;
 }
 
 unsigned int lg_fsm_pattern_count(const LG_HFSM hFsm) {
-- 
2.43.0


From 6ca2419521d29d556c90b8e62368d5f3093a71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 04/26] fix: keep lg_search() inside the buffer when it is
 shorter than the prefilter's window

The loop limit was computed by stepping back from the end of the buffer. For
a buffer at the bottom of the address space (a null, empty one) that wrapped
around and the search ran off from address zero.
---
 src/lib/vm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..91e226e 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -578,7 +578,12 @@ uint64_t Vm::search(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
 
   const std::bitset<256*256>& filter = Prog->Filter;
-  const byte* const filterEnd = end - Prog->FilterOff - 1;
+
+  // the last position where the filter's two-byte window fits in the buffer,
+  // plus one; beg if it does not fit at all
+  const size_t filterOff = Prog->FilterOff;
+  const byte* const filterEnd =
+    static_cast<size_t>(end - beg) > filterOff + 1 ? end - filterOff - 1 : beg;
 
   uint64_t offset = startOffset;
 
-- 
2.43.0


From d9f4102395ac5df070c8a57e2daf5cd976ca3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 05/26] fix: start and leave the context clean in
 lg_starts_with()

It ran threads left over from an earlier search, skipped the reset when the
prefilter ruled out a match, applied the prefilter to buffers its window does
not fit in (losing matches of the minimal length), and read from address zero
for a null, empty buffer.
---
 src/lib/vm.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 91e226e..1b7edc5 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -526,15 +526,19 @@ void Vm::executeFrame(const byte* const cur, uint64_t offset, HitCallback hitFn,
 }
 
 void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t startOffset, HitCallback hitFn, void* userData) {
+  // drop whatever an earlier search left behind
+  reset();
+
   CurHitFn = hitFn;
   UserData = userData;
   const Instruction* const base = &(*Prog)[0];
   uint64_t offset = startOffset;
 
-  const byte* const filterOff = beg+Prog->FilterOff;
+  // the filter says nothing about buffers its window does not fit in
+  const size_t filterOff = Prog->FilterOff;
 
-  if (end - beg == 1 || (filterOff < end - 1 &&
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
+  if (static_cast<size_t>(end - beg) < filterOff + 2 ||
+      Prog->Filter[*(reinterpret_cast<const uint16_t*>(beg + filterOff))])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
@@ -554,8 +558,9 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
     }
   
     closeOut(hitFn, userData);
-    reset();
   }
+
+  reset();
 }
 
 uint64_t Vm::_startOfLeftmostLiveThread(const uint64_t offset) const {
-- 
2.43.0


From cfc9b622933696655b46be5e361a56a43d308ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:24 +0000
Subject: [PATCH 06/26] fix: lg_read_program could read outside the buffer for
 truncated or inconsistent data

---
 src/lib/lightgrep_c_api.cpp | 14 +++++++++-----
 src/lib/pattern_map.cpp     | 19 +++++++++++++++++--
 src/lib/program.cpp         |  7 ++++++-
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index a49947a..13cf9e0 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -458,7 +458,11 @@ namespace {
     dst += prog_size;
   }
 
-  LG_HPROGRAM read_program(const void* buffer, size_t size) {
+  LG_HPROGRAM read_program(const void* buffer, int size) {
+    if (size < 0) {
+      return nullptr;
+    }
+
     std::unique_ptr<ProgramHandle,void(*)(ProgramHandle*)> hProg(
       new ProgramHandle,
       lg_destroy_program
@@ -467,25 +471,25 @@ namespace {
     const char* src = reinterpret_cast<const char*>(buffer);
     const char* const end = src + size;
 
-    if (src + sizeof(uint64_t) > end) {
+    if (static_cast<uint64_t>(end - src) < sizeof(uint64_t)) {
       return nullptr;
     }
     const uint64_t pmap_size = *reinterpret_cast<const uint64_t*>(src);
     src += sizeof(pmap_size);
 
-    if (src + pmap_size > end) {
+    if (static_cast<uint64_t>(end - src) < pmap_size) {
       return nullptr;
     }
     hProg->PMap = PatternMap::unmarshall(src, pmap_size);
     src += pmap_size;
 
-    if (src + sizeof(uint64_t) > end) {
+    if (static_cast<uint64_t>(end - src) < sizeof(uint64_t)) {
       return nullptr;
     }
     const uint64_t prog_size = *reinterpret_cast<const uint64_t*>(src);
     src += sizeof(prog_size);
 
-    if (src + prog_size > end) {
+    if (static_cast<uint64_t>(end - src) < prog_size) {
       return nullptr;
     }
     hProg->Prog = Program::unmarshall(src, prog_size);
diff --git a/src/lib/pattern_map.cpp b/src/lib/pattern_map.cpp
index 539a787..c0300e2 100644
--- a/src/lib/pattern_map.cpp
+++ b/src/lib/pattern_map.cpp
@@ -22,6 +22,7 @@
 #include <cstring>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 
 void PatternMap::clearPatterns() {
   if (!Shared) {
@@ -113,6 +114,17 @@ size_t PatternMap::bufSize() const {
   );
 }
 
+namespace {
+  // Returns the position after the null-terminated string at i.
+  const char* skipString(const char* i, const char* end) {
+    const void* nul = std::memchr(i, '\0', end - i);
+    if (!nul) {
+      throw std::runtime_error("serialized pattern map is truncated");
+    }
+    return static_cast<const char*>(nul) + 1;
+  }
+}
+
 std::unique_ptr<PatternMap> PatternMap::unmarshall(const void* buf, size_t len) {
   std::unique_ptr<PatternMap> p(new PatternMap(0));
   p->Shared = true;
@@ -126,8 +138,11 @@ std::unique_ptr<PatternMap> PatternMap::unmarshall(const void* buf, size_t len)
   
   while (i < end) {
     pat = i;
-    chain = pat + std::strlen(pat) + 1;
-    idx = chain + std::strlen(chain) + 1;
+    chain = skipString(pat, end);
+    idx = skipString(chain, end);
+    if (static_cast<size_t>(end - idx) < sizeof(LG_PatternInfo::UserIndex)) {
+      throw std::runtime_error("serialized pattern map is truncated");
+    }
 
     p->usePattern(pat, chain, *reinterpret_cast<const uint64_t*>(idx));
 
diff --git a/src/lib/program.cpp b/src/lib/program.cpp
index 2fec54e..309c919 100644
--- a/src/lib/program.cpp
+++ b/src/lib/program.cpp
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <iomanip>
+#include <stdexcept>
 
 bool Program::operator==(const Program& rhs) const {
   return MaxLabel == rhs.MaxLabel &&
@@ -68,7 +69,11 @@ std::vector<char> Program::marshall() const {
 
 ProgramPtr Program::unmarshall(const void* buf, size_t len) {
   const char* i = static_cast<const char*>(buf);
-  const size_t icount = (len - (sizeof(Program::MaxLabel) + sizeof(Program::MaxCheck) + sizeof(Program::FilterOff) + 256*256/8)) / sizeof(Instruction);
+  const size_t hlen = sizeof(Program::MaxLabel) + sizeof(Program::MaxCheck) + sizeof(Program::FilterOff) + 256*256/8;
+  if (len < hlen) {
+    throw std::runtime_error("serialized program is truncated");
+  }
+  const size_t icount = (len - hlen) / sizeof(Instruction);
 
   ProgramPtr p(new Program(0));
 
-- 
2.43.0


From b79ef3645889efb910f2f36d70f9ff6e78295e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 07/26] fix: Python binding truncated user indices to 32 bits
 and returned None for offset 0

---
 pylightgrep/lightgrep/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 8bdc9af..94975de 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -538,7 +538,7 @@ _LG.lg_create_fsm.restype = c_void_p
 _LG.lg_destroy_fsm.argtypes = [c_void_p]
 _LG.lg_destroy_fsm.restype = None
 
-_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_int, POINTER(POINTER(Err))]
+_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_uint64, POINTER(POINTER(Err))]
 _LG.lg_add_pattern.restype = c_int
 
 _LG.lg_add_pattern_list.argtypes = [c_void_p, c_char_p, c_char_p, POINTER(c_char_p), c_uint, POINTER(KeyOpts), POINTER(POINTER(Err))]
@@ -584,7 +584,7 @@ _LG.lg_reset_context.argtypes = [c_void_p]
 _LG.lg_reset_context.restype = None
 
 _LG.lg_search.argtypes = [c_void_p, POINTER(c_char), POINTER(c_char), c_uint64, py_object, _CBType]
-_LG.lg_search.restype = c_void_p
+_LG.lg_search.restype = c_uint64
 
 _LG.lg_closeout_search.argtypes = [c_void_p, py_object, _CBType]
 _LG.lg_closeout_search.restype = None
-- 
2.43.0


From 1b5f9f2dd576a0b840f20baf1f82f85b0c524b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:30 +0000
Subject: [PATCH 08/26] fix: Python programs read from a buffer did not keep
 the buffer alive

---
 pylightgrep/lightgrep/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 94975de..4462af6 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -347,7 +347,12 @@ class Fsm(Handle):
 
 class Program(Handle):
     def __init__(self, *args):
+        self.buf = None
+
         if len(args) == 1:
+            # The program refers to the buffer instead of copying it. Exporting
+            # the buffer keeps it from being freed, resized or closed.
+            self.buf = memoryview(args[0])
             handle = Program.from_buffer(args[0])
 
         elif len(args) == 2:
@@ -380,6 +385,7 @@ class Program(Handle):
     def close(self) -> None:
         _LG.lg_destroy_program(self.handle)
         super().close()
+        self.buf = None
 
     def count(self) -> int:
         return _LG.lg_prog_pattern_count(self.get())
-- 
2.43.0


From 31293afa4d8b52631cf6e1e3213b1d5ad40cf312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 09/26] fix: the CLI freed the memory of a loaded program
 before searching with it

---
 src/cmd/main.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 50fa9e1..c95e7fb 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -154,8 +154,9 @@ void searchRecursively(
   }
 }
 
+// NB: the program refers to the contents of buf, so buf must outlive it
 std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>
-loadProgram(const std::string& pfile) {
+loadProgram(const std::string& pfile, std::vector<char>& buf) {
   std::ifstream pin(pfile, std::ios::in | std::ios::binary);
   if (!pin) {
     std::cerr << "Could not open program file " << pfile << std::endl;
@@ -169,12 +170,12 @@ loadProgram(const std::string& pfile) {
   const std::streampos end = stream_size(pin);
   std::cerr << "program file is " << end << " bytes long" << std::endl;
 
-  std::vector<char> buf(end);
-  pin.read(&buf[0], end);
+  buf.resize(end);
+  pin.read(buf.data(), end);
   pin.close();
 
   return std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>(
-    lg_read_program(&buf[0], end),
+    lg_read_program(buf.data(), end),
     lg_destroy_program
   );
 }
@@ -290,11 +291,12 @@ void searchInputs(
 }
 
 void search(const Options& opts) {
+  std::vector<char> progBuf;
   std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> prog(nullptr, nullptr);
 
   if (!opts.ProgramFile.empty()) {
     // read a program in from file
-    prog = loadProgram(opts.ProgramFile);
+    prog = loadProgram(opts.ProgramFile, progBuf);
   }
   else {
     LgAppCollection col = parsePatterns(opts);
-- 
2.43.0


From 203319d148decad85faccc2c93a7037d78516f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:25 +0000
Subject: [PATCH 10/26] fix: print errors which have no message or source

---
 src/lib/errors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/errors.cpp b/src/lib/errors.cpp
index 4945fa0..f461f3d 100644
--- a/src/lib/errors.cpp
+++ b/src/lib/errors.cpp
@@ -38,12 +38,12 @@ void Errors::outputErrors(std::ostream &out, bool printFilename) {
   LG_Error* curr = Err;
   for ( ; curr; curr = curr->Next) {
     if (printFilename) {
-      out << curr->Source << ", ";
+      out << (curr->Source ? curr->Source : "") << ", ";
     }
     out << "pattern " << curr->Index
       << " " << (curr->Pattern ? curr->Pattern : "")
       << " " << (curr->EncodingChain ? curr->EncodingChain : "")
-      << ": " << curr->Message << '\n';
+      << ": " << (curr->Message ? curr->Message : "") << '\n';
     }
   out.flush();
 }
\ No newline at end of file
-- 
2.43.0


From 604161bc4e6226d24ce117d9516a462416d66b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:25 +0000
Subject: [PATCH 11/26] fix: report every pattern error, and fail, when
 generating samples

---
 src/cmd/main.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index c95e7fb..bef678b 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -441,7 +441,6 @@ void writeSampleMatches(const Options& opts) {
   // parse the patterns one at a time
   std::unique_ptr<FSMHandle, void(*)(FSMHandle*)> fsm(nullptr, nullptr);
 
-  size_t pnum = 0;
   //for (const std::pair<std::string,std::string>& pf : opts.getPatternLines()) {
 
   // FIXME: opts.getPatternLines() returns a vector of the pairs, it's not clear
@@ -453,8 +452,12 @@ void writeSampleMatches(const Options& opts) {
   fsm = std::move(col.fsm);
 
   if (err) {
-    out << err->Message << " on pattern " << pnum
-        << ", '"<< err->Pattern << "'\n";
+    for (; err; err = err->Next) {
+      out << (err->Message ? err->Message : "") << " on pattern " << err->Index
+          << ", '" << (err->Pattern ? err->Pattern : "") << "'\n";
+    }
+    out.flush();
+    THROW_RUNTIME_ERROR_WITH_CLEAN_OUTPUT("failed to parse the patterns");
   }
   else {
     // break on through the C API to get the graph
@@ -469,7 +472,6 @@ void writeSampleMatches(const Options& opts) {
   }
 
   out.flush();
-  ++pnum;
   // }
 }
 
-- 
2.43.0


From e8691cf252e15d3f12f41a6ffdd741aa3681f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 12/26] fix: declare ProgramHandle.init() and the constructor
 which the JNI code looks up

---
 .../com/lightboxtechnologies/lightgrep/ProgramHandle.java   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 3898e58..dc62435 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -7,6 +7,8 @@ public class ProgramHandle extends Handle {
     LibraryLoader.init();
   }
 
+  static native void init();
+
   /**
    * @throws IndexOutOfBoundsException
    */
@@ -16,6 +18,10 @@ public class ProgramHandle extends Handle {
     Pointer = ProgramHandle.create(numTotalPatternsSizeHint);
   }
 
+  private ProgramHandle(long ptr) {
+    super(ptr);
+  }
+
   private static native long create(int numTotalPatternsSizeHint);
 
   public native void destroy();
-- 
2.43.0


From 95670f8e4fa0aeebb55d529f5ae7b5dea04ce393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:49 +0000
Subject: [PATCH 13/26] fix: Java programs read from an array did not keep
 their data alive

---
 src/java/jni/jlightgrep.cpp                   | 46 +++++++++++++------
 .../lightgrep/ProgramHandle.java              |  6 ++-
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 2487c1c..4432173 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -91,10 +91,14 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_PatternInfo_init(
 }
 
 static jmethodID programHandleCtor;
+static jfieldID programHandleBufferField;
 
 JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_init(JNIEnv* env, jclass cl) {
   try {
-    programHandleCtor = env->GetMethodID(cl, "<init>", "(J)V");
+    programHandleCtor = env->GetMethodID(cl, "<init>", "(JJ)V");
+    throwIfException(env);
+
+    programHandleBufferField = env->GetFieldID(cl, "Buffer", "J");
     throwIfException(env);
   }
   catch (const PendingJavaException&) {
@@ -337,14 +341,15 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
   }
 }
 
-static jobject makeProgramHandle(JNIEnv* env, LG_HPROGRAM hProg) {
+static jobject makeProgramHandle(JNIEnv* env, LG_HPROGRAM hProg, const char* buf) {
   jclass cl = env->FindClass(programHandleClassName);
   throwIfException(env);
 
   jobject obj = env->NewObject(
     cl,
     programHandleCtor,
-    reinterpret_cast<jlong>(hProg)
+    reinterpret_cast<jlong>(hProg),
+    reinterpret_cast<jlong>(buf)
   );
   throwIfException(env);
 
@@ -570,6 +575,12 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_com
 
 JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_destroy(JNIEnv* env, jobject hProg) {
   destroyHandle<LG_HPROGRAM>(env, hProg, lg_destroy_program);
+
+  // the program might have referred to this memory, so free it only now
+  delete[] reinterpret_cast<const char*>(
+    env->GetLongField(hProg, programHandleBufferField)
+  );
+  env->SetLongField(hProg, programHandleBufferField, 0);
 }
 
 JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_sizeImpl(JNIEnv* env, jobject hProg) {
@@ -595,22 +606,27 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_wri
 
 JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jbyteArray buffer, jint offset, jint size) {
   try {
-    LG_HPROGRAM hProg = nullptr;
-
-    {
-      // convert all of the Java objects to C
-      std::unique_ptr<void,std::function<void(void*)>> data(unwrapCrit(env, buffer));
+    // The program refers to its data for as long as it exists, so give it
+    // a copy which the Java VM can neither move nor free.
+    std::unique_ptr<char[]> data(new char[size]);
 
-      char* buf = static_cast<char*>(data.get()) + (uint32_t) offset;
+    env->GetByteArrayRegion(
+      buffer, offset, size, reinterpret_cast<jbyte*>(data.get())
+    );
+    throwIfException(env);
 
-      // finally actually do something
-      hProg = lg_read_program(buf, (uint32_t) size);
-      if (!hProg) {
-        throwException(env, programExceptionClassName, "Bad program");
-      }
+    // finally actually do something
+    std::unique_ptr<ProgramHandle,void(*)(LG_HPROGRAM)> hProg(
+      lg_read_program(data.get(), size), lg_destroy_program
+    );
+    if (!hProg) {
+      throwException(env, programExceptionClassName, "Bad program");
     }
 
-    return makeProgramHandle(env, hProg);
+    jobject obj = makeProgramHandle(env, hProg.get(), data.get());
+    hProg.release();
+    data.release();
+    return obj;
   }
   catch (const PendingJavaException&) {
     return nullptr;
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index dc62435..3f7dfbc 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -18,10 +18,14 @@ public class ProgramHandle extends Handle {
     Pointer = ProgramHandle.create(numTotalPatternsSizeHint);
   }
 
-  private ProgramHandle(long ptr) {
+  private ProgramHandle(long ptr, long buf) {
     super(ptr);
+    Buffer = buf;
   }
 
+  // the native memory a program read from an array refers to
+  private long Buffer;
+
   private static native long create(int numTotalPatternsSizeHint);
 
   public native void destroy();
-- 
2.43.0


From 6e89413558bc3f1f1d7bb9aa8ff9819a82be136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:49 +0000
Subject: [PATCH 14/26] fix: do not allocate or throw between pinning and
 releasing Java arrays and strings

---
 src/java/jni/jlightgrep.cpp | 83 ++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 4432173..3c91991 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -20,7 +20,6 @@
 
 #include "jlightgrep.h"
 
-#include <functional>
 #include <limits>
 #include <memory>
 #include <sstream>
@@ -234,28 +233,30 @@ template <typename T> T unwrap(JNIEnv* env, jobject handle) {
 }
 */
 
-static std::unique_ptr<const char,std::function<void(const char*)>> unwrap(JNIEnv* env, jstring str) {
-  using namespace std::placeholders;
+struct StringReleaser {
+  JNIEnv* Env;
+  jstring Str;
 
-  std::unique_ptr<const char,std::function<void(const char*)>> ptr(
-    env->GetStringUTFChars(str, nullptr),
-    std::bind(&JNIEnv::ReleaseStringUTFChars, env, str, _1)
-  );
-
-  if (!ptr) {
-    // OutOfMemoryError already thrown
-    throw PendingJavaException();
+  void operator()(const char* chars) const {
+    Env->ReleaseStringUTFChars(Str, chars);
   }
+};
 
-  return ptr;
-}
+struct ArrayReleaser {
+  JNIEnv* Env;
+  jbyteArray Array;
 
-static std::unique_ptr<void,std::function<void(void*)>> unwrapCrit(JNIEnv* env, jbyteArray buffer) {
-  using namespace std::placeholders;
+  void operator()(jbyte* bytes) const {
+    Env->ReleaseByteArrayElements(Array, bytes, JNI_ABORT);
+  }
+};
+
+using StringPtr = std::unique_ptr<const char,StringReleaser>;
+using ArrayPtr = std::unique_ptr<jbyte,ArrayReleaser>;
 
-  std::unique_ptr<void,std::function<void(void*)>> ptr(
-    env->GetPrimitiveArrayCritical(buffer, nullptr),
-    std::bind(&JNIEnv::ReleasePrimitiveArrayCritical, env, buffer, _1, 0)
+static StringPtr unwrap(JNIEnv* env, jstring str) {
+  StringPtr ptr(
+    env->GetStringUTFChars(str, nullptr), StringReleaser{env, str}
   );
 
   if (!ptr) {
@@ -266,12 +267,9 @@ static std::unique_ptr<void,std::function<void(void*)>> unwrapCrit(JNIEnv* env,
   return ptr;
 }
 
-static std::unique_ptr<jbyte,std::function<void(jbyte*)>> unwrap(JNIEnv* env, jbyteArray buffer) {
-  using namespace std::placeholders;
-
-  std::unique_ptr<jbyte,std::function<void(jbyte*)>> ptr(
-    env->GetByteArrayElements(buffer, nullptr),
-    std::bind(&JNIEnv::ReleaseByteArrayElements, env, buffer, _1, JNI_ABORT)
+static ArrayPtr unwrap(JNIEnv* env, jbyteArray buffer) {
+  ArrayPtr ptr(
+    env->GetByteArrayElements(buffer, nullptr), ArrayReleaser{env, buffer}
   );
 
   if (!ptr) {
@@ -314,7 +312,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
 
 // TODO: C++11 stuff.
 
-    std::unique_ptr<const char,std::function<void(const char*)>> pat(unwrap(env, pattern));
+    StringPtr pat(unwrap(env, pattern));
 
     LG_KeyOptions opts{
       env->GetBooleanField(options, keyOptionsFixedStringField) != 0,
@@ -519,7 +517,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_FSMHandle_addPatt
       env->GetLongField(hPattern, handlePointerField)
     );
 
-    std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+    StringPtr enc(unwrap(env, encoding));
 
     // finally actually do something
     const int ret = lg_add_pattern(
@@ -591,17 +589,24 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_siz
 }
 
 JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_writeImpl(JNIEnv* env, jobject hProg, jbyteArray buffer, jint offset) {
-  // convert all of the Java objects to C
-  LG_HPROGRAM ptr = reinterpret_cast<LG_HPROGRAM>(
-    env->GetLongField(hProg, handlePointerField)
-  );
-
-  std::unique_ptr<void,std::function<void(void*)>> data(unwrapCrit(env, buffer));
+  try {
+    // convert all of the Java objects to C
+    LG_HPROGRAM ptr = reinterpret_cast<LG_HPROGRAM>(
+      env->GetLongField(hProg, handlePointerField)
+    );
 
-  char* buf = static_cast<char*>(data.get()) + (uint32_t) offset;
+    // finally actually do something
+    const jint size = lg_program_size(ptr);
+    std::unique_ptr<char[]> data(new char[size]);
+    lg_write_program(ptr, data.get());
 
-  // finally actually do something
-  lg_write_program(ptr, buf);
+    env->SetByteArrayRegion(
+      buffer, offset, size, reinterpret_cast<const jbyte*>(data.get())
+    );
+    throwIfException(env);
+  }
+  catch (const PendingJavaException&) {
+  }
 }
 
 JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jbyteArray buffer, jint offset, jint size) {
@@ -738,7 +743,7 @@ static int search(JNIEnv* env, jobject hCtx, const char* buf, jint offset, jint
 
 JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_searchImpl___3BIIJLcom_lightboxtechnologies_lightgrep_HitCallback_2(JNIEnv* env, jobject hCtx, jbyteArray buffer, jint offset, jint size, jlong startOffset, jobject callback) {
   try {
-    std::unique_ptr<jbyte,std::function<void(jbyte*)>> data(unwrap(env, buffer));
+    ArrayPtr data(unwrap(env, buffer));
     const char* buf = reinterpret_cast<const char*>(data.get());
     return search(env, hCtx, buf, offset, size, startOffset, callback);
   }
@@ -803,7 +808,7 @@ static void startsWith(JNIEnv* env, jobject hCtx, const char* buf, jint offset,
 
 JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_startsWithImpl___3BIIJLcom_lightboxtechnologies_lightgrep_HitCallback_2(JNIEnv* env, jobject hCtx, jbyteArray buffer, jint offset, jint size, jlong startOffset, jobject callback) {
   try {
-    std::unique_ptr<jbyte,std::function<void(jbyte*)>> data(unwrap(env, buffer));
+    ArrayPtr data(unwrap(env, buffer));
     const char* buf = reinterpret_cast<const char*>(data.get());
     startsWith(env, hCtx, buf, offset, size, startOffset, callback);
   }
@@ -853,7 +858,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
 
   const LG_Window inner{ (uint64_t) ibegin, (uint64_t) iend };
 
-  std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+  StringPtr enc(unwrap(env, encoding));
 
   LG_Window outer, decodedHit;
   const char* utf8;
@@ -889,7 +894,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
 
 JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_LGUtil_getHitContextImpl__Lcom_lightboxtechnologies_lightgrep_DecoderHandle_2_3BIIJJJLjava_lang_String_2II(JNIEnv* env, jclass, jobject hDec, jbyteArray buffer, jint offset, jint size, jlong startOffset, jlong ibegin, jlong iend, jstring encoding, jint windowSize, jint replacement) {
   try {
-    std::unique_ptr<jbyte,std::function<void(jbyte*)>> data(unwrap(env, buffer));
+    ArrayPtr data(unwrap(env, buffer));
     const char* buf = reinterpret_cast<const char*>(data.get());
 
     return getHitContext(env, hDec, buf, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
-- 
2.43.0


From 588a34bc6ca2d4d8aedd98425c09e13d72e7a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:51 +0000
Subject: [PATCH 15/26] fix: keep all C++ exceptions out of the Java VM

---
 src/java/jni/jlightgrep.cpp | 83 ++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 3c91991..2306f7b 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -39,6 +39,7 @@ static const char hitContextClassName[] = "com/lightboxtechnologies/lightgrep/Hi
 static const char keywordExceptionClassName[] = "com/lightboxtechnologies/lightgrep/KeywordException";
 static const char programExceptionClassName[] = "com/lightboxtechnologies/lightgrep/ProgramException";
 static const char indexOutOfBoundsExceptionClassName[] = "java/lang/IndexOutOfBoundsException";
+static const char outOfMemoryErrorClassName[] = "java/lang/OutOfMemoryError";
 static const char unsupportedEncodingExceptionClassName[] = "java/io/UnsupportedEncodingException";
 
 class PendingJavaException {};
@@ -60,7 +61,16 @@ static void throwException(JNIEnv* env, const char* exClassName, const char* mes
   throw PendingJavaException();
 }
 
-
+// Call this in handlers of C++ exceptions, to have a Java exception pending
+// also where the C++ exception did not come from one.
+static void makeExceptionPending(JNIEnv* env) {
+  if (!env->ExceptionCheck()) {
+    jclass ex = env->FindClass(outOfMemoryErrorClassName);
+    if (ex) {
+      env->ThrowNew(ex, "Out of native memory");
+    }
+  }
+}
 
 //
 // We cache field and method IDs in static init() methods for each class,
@@ -74,7 +84,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_Handle_init(JNIEn
     handlePointerField = env->GetFieldID(cl, "Pointer", "J");
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -85,7 +96,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_PatternInfo_init(
     patternInfoCtor = env->GetMethodID(cl, "<init>", "(Ljava/lang/String;Ljava/lang/String;I)V");
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -100,7 +112,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_ini
     programHandleBufferField = env->GetFieldID(cl, "Buffer", "J");
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -111,7 +124,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_ini
     contextHandleCtor = env->GetMethodID(cl, "<init>", "(J)V");
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -130,7 +144,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_KeyOptions_init(J
     keyOptionsUnicodeModeField = env->GetFieldID(cl, "UnicodeMode", "Z");
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -141,7 +156,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramOptions_in
     programOptionsDeterminizeField = env->GetFieldID(cl, "Determinize", "Z");
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -154,7 +170,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_HitContext_init(J
     );
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -210,7 +227,7 @@ JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM* jvm, void*) {
 
     return JNI_VERSION_1_6;
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
     return JNI_ERR;
   }
 }
@@ -333,7 +350,8 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
 
     return ret;
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     lg_free_error(err);
     return 0;
   }
@@ -433,7 +451,8 @@ jobject getPatternInfo(JNIEnv* env, jobject& h, jint patternIndex) {
     LG_PatternInfo* pinfo = get_pattern_info(ptr, patternIndex);
     return makePatternInfo(env, pinfo);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return nullptr;
   }
 }
@@ -460,7 +479,8 @@ jint getUserIndex(JNIEnv* env, jobject& h, jint patternIndex) {
     LG_PatternInfo* pinfo = get_pattern_info(ptr, patternIndex);
     return pinfo->UserIndex;
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return 0;
   }
 }
@@ -485,7 +505,8 @@ void setUserIndex(JNIEnv* env, jobject& h, jint patternIndex, jint userIndex) {
     LG_PatternInfo* pinfo = get_pattern_info(ptr, patternIndex);
     pinfo->UserIndex = userIndex;
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -533,7 +554,8 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_FSMHandle_addPatt
 
     return ret;
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     lg_free_error(err);
     return 0;
   }
@@ -566,7 +588,8 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_com
     }
     throwException(env, programExceptionClassName, "Failed to compile program");
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return 0;
   }
 }
@@ -605,7 +628,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_wri
     );
     throwIfException(env);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -633,7 +657,8 @@ JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_
     data.release();
     return obj;
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return nullptr;
   }
 }
@@ -673,7 +698,8 @@ JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_
 */
     return makeContextHandle(env, hCtx);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return nullptr;
   }
 }
@@ -747,7 +773,8 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_sea
     const char* buf = reinterpret_cast<const char*>(data.get());
     return search(env, hCtx, buf, offset, size, startOffset, callback);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return 0;
   }
 }
@@ -764,7 +791,8 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_sea
 
     return search(env, hCtx, buf, offset, size, startOffset, callback);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return 0;
   }
 }
@@ -781,7 +809,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_clo
     // finally actually do something
     lg_closeout_search(ptr, &userData, callbackShim);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -812,7 +841,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_sta
     const char* buf = reinterpret_cast<const char*>(data.get());
     startsWith(env, hCtx, buf, offset, size, startOffset, callback);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -828,7 +858,8 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ContextHandle_sta
 
     startsWith(env, hCtx, buf, offset, size, startOffset, callback);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
   }
 }
 
@@ -899,7 +930,8 @@ JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_LGUtil_getHitC
 
     return getHitContext(env, hDec, buf, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return nullptr;
   }
 }
@@ -916,7 +948,8 @@ JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_LGUtil_getHitC
 
     return getHitContext(env, hDec, buf, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
   }
-  catch (const PendingJavaException&) {
+  catch (...) {
+    makeExceptionPending(env);
     return nullptr;
   }
 }
-- 
2.43.0


From 972a6e341e2ca6153e2dcf0e53ce8646988b27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:51 +0000
Subject: [PATCH 16/26] fix: pass the HitContext constructor arguments of the
 types it takes

---
 src/java/jni/jlightgrep.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 2306f7b..90f2ea9 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -871,8 +871,8 @@ static jobject makeHitContext(JNIEnv* env, const LG_Window& outer, const LG_Wind
   throwIfException(env);
 
   jobject hc = env->NewObject(
-    cl, hitContextCtor, outer.begin, outer.end,
-    decodedHit.begin, decodedHit.end, decoded, bad
+    cl, hitContextCtor, (jlong) outer.begin, (jlong) outer.end,
+    (jint) decodedHit.begin, (jint) decodedHit.end, decoded, (jint) bad
   );
   throwIfException(env);
 
-- 
2.43.0


From 06f14d1ef38687ac31e9e3e2e13248b66932ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 17/26] fix: refuse a destroyed decoder in
 LGUtil.getHitContext()

---
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 81166ea..6dc3383 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -29,6 +29,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
     return getHitContextImpl(hDec, buffer, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
   }
@@ -49,6 +50,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
 // FIXME: this code is repeated in several places, factor it out.
     if (buffer.isDirect()) {
-- 
2.43.0


From 3e9ebda7148e246e9fd50459bc0fb7fbdabfbbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 18/26] fix: keep the last block with data for the text of hits
 reported at the end of the input

After the last block SearchController::searchFile gave the hit writer the
empty block that marks the end of the input. The context and histogram text
of every hit found when the search is closed out were then taken from memory
before that block's buffer.
---
 src/cmd/searchcontroller.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..10e6ca4 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -69,9 +69,8 @@ bool SearchController::searchFile(
   }
 
   // assert: all data has been read, offset + blkSize == file size,
-  // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
-
+  // cur is the empty block at the end; hinfo keeps the last block which has
+  // data, as that is where the text of the remaining hits is
   lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
 
   lg_closeout_search(searcher, hinfo, callback);
-- 
2.43.0


From 43cdd47b3ea66938bb370d3961ea047cb2b672ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 19/26] fix: clip a hit to the current buffer before decoding
 its context

HitOutputData::decodeContext passed the whole hit to lg_hit_context, which
expects it to lie inside the buffer. For a hit that started in an earlier
block, bytes before the buffer were read, and for one that ended there the
size of the hit's text underflowed; with a histogram this crashed.
---
 src/cmd/hitwriter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cmd/hitwriter.cpp b/src/cmd/hitwriter.cpp
index 122056f..ea48c2e 100644
--- a/src/cmd/hitwriter.cpp
+++ b/src/cmd/hitwriter.cpp
@@ -192,8 +192,14 @@ void HitOutputData::setBuffer(const char* buf, size_t blen, uint64_t boff) {
 }
 
 HitBuffer HitOutputData::decodeContext(const LG_SearchHit& searchHit) {
-  const char* const hbeg = CtxBuf.Buf + (searchHit.Start < CtxBuf.BufOff ? 0 : searchHit.Start - CtxBuf.BufOff);
-  const char* const hend = CtxBuf.Buf + std::min(searchHit.End - CtxBuf.BufOff, static_cast<uint64_t>(CtxBuf.BufLen));
+  // a hit may have started, or even ended, before the current buffer; only
+  // the part of it which lies in the buffer can be decoded
+  const uint64_t bufEnd = CtxBuf.BufOff + CtxBuf.BufLen;
+  const uint64_t hitStart = std::min(std::max(searchHit.Start, CtxBuf.BufOff), bufEnd);
+  const uint64_t hitEnd = std::min(std::max(searchHit.End, hitStart), bufEnd);
+
+  const char* const hbeg = CtxBuf.Buf + (hitStart - CtxBuf.BufOff);
+  const char* const hend = CtxBuf.Buf + (hitEnd - CtxBuf.BufOff);
 
   // beginning of context (left of hit)
   const char* const cbeg = OutInfo.BeforeContext < 0 ? hbeg : find_leading_context(CtxBuf.Buf, hbeg, OutInfo.BeforeContext);
@@ -205,7 +211,7 @@ HitBuffer HitOutputData::decodeContext(const LG_SearchHit& searchHit) {
 
   // transcode the context to UTF-8
   LG_Error* err = nullptr;
-  LG_Window inner{searchHit.Start, searchHit.End},
+  LG_Window inner{hitStart, hitEnd},
             outer,
             decodedHit;
   const char* utf8 = nullptr;
-- 
2.43.0


From e5c4fc2670e5bc8cf5399d089f8c642b8ecbe676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:59 +0000
Subject: [PATCH 20/26] fix: stop when the search context cannot be created

lg_create_context() returns null when it runs out of memory; the handle was
used without a test.
---
 src/cmd/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index bef678b..aede86e 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -341,6 +341,10 @@ void search(const Options& opts) {
     lg_destroy_context
   );
 
+  if (!searcher) {
+    THROW_RUNTIME_ERROR_WITH_CLEAN_OUTPUT("failed to create a search context");
+  }
+
   SearchController ctrl(opts.BlockSize);
 
   bool stdinUsed = false;
-- 
2.43.0


From c42d0d85f99b2990ac7bf822609b7ae4034b7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:22 +0000
Subject: [PATCH 21/26] fix: refuse to add a pattern which was not parsed

---
 include/parsetree.h         |  2 +-
 src/lib/lightgrep_c_api.cpp | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/parsetree.h b/include/parsetree.h
index 89a0b4d..abbcc5e 100644
--- a/include/parsetree.h
+++ b/include/parsetree.h
@@ -28,7 +28,7 @@ uint32_t nodesUpperBound(const std::string& expr);
 
 class ParseTree {
 public:
-  ParseNode* Root;
+  ParseNode* Root = nullptr;
 
   template <class... Args>
   ParseNode* add(Args&&... args) {
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 13cf9e0..edcdf5a 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -121,8 +121,12 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
     0,
     err
   );
-  if (result == 0 && err && *err) {
-    (*err)->Pattern = tryCopy(pattern, patLen);
+  if (result == 0) {
+    // never leave a partial or stale tree behind
+    hPattern->Tree.Root = nullptr;
+    if (err && *err) {
+      (*err)->Pattern = tryCopy(pattern, patLen);
+    }
   }
 
   return result;
@@ -167,6 +171,10 @@ void lg_destroy_fsm(LG_HFSM hFsm) {
 
 namespace {
   int addPattern(LG_HFSM hFsm, LG_HPATTERN hPattern, const char* encoding, uint64_t userIndex) {
+    if (!hPattern->Tree.Root) {
+      THROW_RUNTIME_ERROR_WITH_CLEAN_OUTPUT("Pattern was not parsed");
+    }
+
     const uint32_t label = hFsm->PMap->count();
     hFsm->Impl->addPattern(hPattern->Tree, encoding, label);
 
-- 
2.43.0


From 84c6b262d7c88fd79c962f314285f2660da10d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 22/26] fix: the size of a serialized pattern map was computed
 in an int

---
 src/lib/pattern_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pattern_map.cpp b/src/lib/pattern_map.cpp
index c0300e2..5d3ad55 100644
--- a/src/lib/pattern_map.cpp
+++ b/src/lib/pattern_map.cpp
@@ -105,7 +105,7 @@ size_t PatternMap::bufSize() const {
   return std::accumulate(
     Patterns.begin(),
     Patterns.end(),
-    0,
+    size_t(0),
     [](size_t s, const LG_PatternInfo& pi) {
       return s + std::strlen(pi.Pattern) + 1
                + std::strlen(pi.EncodingChain) + 1
-- 
2.43.0


From 076c2f135e3448a4b55af9a9622c659e50a9d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:02 +0000
Subject: [PATCH 23/26] fix: a decoded window was lost when its second array
 could not be allocated

---
 src/lib/lightgrep_c_util.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..e3bffd5 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -243,19 +243,23 @@ namespace {
       *dec, *decodedHit, cps
     );
 
-    *clen = cps.size();
-    *characters = new int32_t[*clen];
-    *offsets = new size_t[*clen];
+    // hand nothing out until everything has been allocated
+    std::unique_ptr<int32_t[]> chars(new int32_t[cps.size()]);
+    std::unique_ptr<size_t[]> offs(new size_t[cps.size()]);
 
     // unzip the result
     size_t i = 0;
     for (const std::pair<int32_t,const byte*>& p : cps) {
-      (*characters)[i] = p.first;
-      (*offsets)[i] = p.second - bbeg;
+      chars[i] = p.first;
+      offs[i] = p.second - bbeg;
       ++i;
     }
 
-    (*characters)[*clen-1] = LG_WINDOW_END;
+    chars[cps.size()-1] = LG_WINDOW_END;
+
+    *clen = cps.size();
+    *characters = chars.release();
+    *offsets = offs.release();
 
     return bad;
   }
-- 
2.43.0


From af32b4a34f19886c03aea633fac18f8fb3116476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:02 +0000
Subject: [PATCH 24/26] fix: a transition was lost when it could not be stored

---
 include/transitionfactory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/transitionfactory.h b/include/transitionfactory.h
index 158ba3b..25fadfe 100644
--- a/include/transitionfactory.h
+++ b/include/transitionfactory.h
@@ -123,7 +123,13 @@ public:
 
   Transition* get(Transition* t) {
     auto i = Exemplars.find(t);
-    return i == Exemplars.end() ? *Exemplars.insert(t->clone()).first : *i;
+    if (i == Exemplars.end()) {
+      // the clone must not be lost if it cannot be inserted
+      std::unique_ptr<Transition> c(t->clone());
+      i = Exemplars.insert(c.get()).first;
+      c.release();
+    }
+    return *i;
   }
 
 private:
-- 
2.43.0


From 5ec223249da1f87d9ab6bef5609c3f79e86e717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:51 +0000
Subject: [PATCH 25/26] fix: decoding pattern text ran past its end after a
 truncated UTF-8 sequence

---
 include/unicode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..9ad5adb 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -24,7 +24,7 @@
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
     cp = -1; \
-    return used; \
+    return used - 1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
-- 
2.43.0


From 27ac6dc7b81465c3c37aea1cae910d07997d5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:14 +0000
Subject: [PATCH 26/26] fix: byte-transforming encoders ignored the bytes they
 were asked to read back

---
 src/lib/byteencoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/byteencoder.cpp b/src/lib/byteencoder.cpp
index 0b54273..90459ee 100644
--- a/src/lib/byteencoder.cpp
+++ b/src/lib/byteencoder.cpp
@@ -15,6 +15,7 @@
  *
  */
 
+#include <algorithm>
 #include <memory>
 #include <sstream>
 
@@ -40,9 +41,9 @@ uint32_t ByteEncoder::write(int32_t cp, byte buf[]) const {
   return ret;
 }
 
-uint32_t ByteEncoder::write(const byte[], int32_t& cp) const {
-  // FIXME - Joel revisit this, note that first arg is unused
+uint32_t ByteEncoder::write(const byte buf[], int32_t& cp) const {
   std::unique_ptr<byte[]> tmp(new byte[maxByteLength()]);
+  std::copy(buf, buf + maxByteLength(), tmp.get());
   byteUntransform(tmp.get(), maxByteLength());
   return BaseEnc->write(tmp.get(), cp);
 }
-- 
2.43.0

