From 5ebb458617076f1452dacead16597b402d501e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 01/26] fix: parseOptions removed the wrong number of arguments
 (shadowed, uninitialised loop counter)

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From 5cc6bc99927f165901b4c3b2ee25e5edf7f9f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:53 +0000
Subject: [PATCH 02/26] fix: option range checks could never reject a value and
 non-numeric values were read as 0

---
 src/candy/frontend/CLIOptions.cc |  2 +-
 src/candy/utils/Options.h        | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..c41ead0 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -150,8 +150,8 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len) {
+                if (!(range.begin_inclusive ? tmp >= range.begin : tmp > range.begin) || !(range.end_inclusive ? tmp <= range.end : tmp < range.end)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -207,10 +207,10 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            long tmp = strtol(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -279,8 +279,8 @@ class Int64Option : public Option {
             char* end;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From 6f18193003fa28ec5a61ceeff5c4e9b86c307761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:53 +0000
Subject: [PATCH 03/26] fix: StringOption left long values without terminating
 NUL

---
 src/candy/utils/Options.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index c41ead0..350c213 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -349,7 +349,8 @@ class StringOption : public Option {
 
     void set(const char* val) {
         // memset(value, 0, 256);
-        strncpy(value, val, 256);
+        strncpy(value, val, 255);
+        value[255] = '\0';
     }
 
     char* get() {
-- 
2.43.0


From 137d8cba1b79d3d489d39d5086b737795f497582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 04/26] fix: RSAR mode crashed with its default configuration
 and when no conjectures were found

---
 src/candy/Main.cc                  | 2 +-
 src/candy/frontend/SolverFactory.h | 4 +++-
 src/candy/rsar/ARSolver.cc         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 52c5c86..f7180c4 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -228,7 +228,7 @@ int main(int argc, char** argv) {
         if (RSAROptions::opt_rsar_enable) {
             solver = createRSARSolver(problem);
         }
-        else {
+        if (solver == nullptr) { // RSAR disabled or not applicable
             solver = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable, RSILOptions::opt_rsil_advice_size);
         }
         solvers.push_back(solver); 
diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..42910a6 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -20,6 +20,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #ifndef SRC_CANDY_FRONTEND_SOLVERFACTORY_H_
 #define SRC_CANDY_FRONTEND_SOLVERFACTORY_H_
 
+#include <cstring>
+
 #include "candy/core/CNFProblem.h"
 #include "candy/core/CandySolverInterface.h"
 
@@ -60,7 +62,7 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	if (initializationComleted) {
 		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
+		if (strlen(RSAROptions::opt_rsar_inputDepCountHeurConf) > 0) {
 			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
 			if (limits.size() == 0) {
 				throw std::invalid_argument("invalid limits");
diff --git a/src/candy/rsar/ARSolver.cc b/src/candy/rsar/ARSolver.cc
index ea9bf84..d548372 100644
--- a/src/candy/rsar/ARSolver.cc
+++ b/src/candy/rsar/ARSolver.cc
@@ -161,7 +161,7 @@ namespace Candy {
     ARSolver::ARSolver(std::unique_ptr<Conjectures> conjectures,
         std::unique_ptr<RefinementHeuristic> heuristics, 
         CandySolverInterface* solver) : ARSolver(std::move(conjectures), solver) {
-        m_heuristics.push_back(std::move(heuristics));
+        if (heuristics != nullptr) m_heuristics.push_back(std::move(heuristics));
     }
     
     ARSolver::ARSolver(std::unique_ptr<Conjectures> conjectures, CandySolverInterface* solver)
-- 
2.43.0


From 46ba327cf18086fa73e11892fe2bb20ae94a0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 05/26] fix: RSAR reported UNSAT although approximation clauses
 were still enabled

---
 src/candy/rsar/ARSolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/rsar/ARSolver.cc b/src/candy/rsar/ARSolver.cc
index d548372..1f65094 100644
--- a/src/candy/rsar/ARSolver.cc
+++ b/src/candy/rsar/ARSolver.cc
@@ -286,7 +286,7 @@ namespace Candy {
                 sat = m_solver->solve();
                                 
                 // the loop can safely be exited if no approximation clauses were used during solve
-                abort |= (sat != l_True) || (currentDelta->countEnabledClauses() == 0);
+                abort |= (sat == l_Undef) || (currentDelta->countEnabledClauses() == 0);
             }
             else {
                 // no further steps after this one => deactivate the approximation clauses completely.
-- 
2.43.0


From c34885a81fc2bd83b2b83522cae95f8bbe11f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 06/26] fix: RSIL budgeted and vanishing modes were swapped in
 the solver builder

---
 src/candy/frontend/CandyBuilder.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CandyBuilder.h b/src/candy/frontend/CandyBuilder.h
index 5010cd1..65f25f8 100644
--- a/src/candy/frontend/CandyBuilder.h
+++ b/src/candy/frontend/CandyBuilder.h
@@ -53,24 +53,24 @@ public:
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
+    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
+    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
     }
 
     constexpr auto branchWithRSILUnrestricted2() const -> CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2> {
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
+    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
+    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
     }
 
     constexpr auto propagateStaticClauses() const -> CandyBuilder<StaticPropagate, TLearning, TBranching> { 
-- 
2.43.0


From 97ffafbbb5982325d1f123fc4780d36c48393b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 07/26] fix: DIMACS reader lost or invented literals at buffer
 boundaries and looped on malformed numbers

---
 src/candy/utils/StreamBuffer.cc | 18 ++++++++++++++----
 src/candy/utils/StreamBuffer.h  |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..96a0f8c 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -54,6 +54,7 @@ namespace Candy {
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // strtol() must not run past the checked part of the buffer
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -62,7 +63,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || number > std::numeric_limits<int32_t>::max()/2 || number < -(std::numeric_limits<int32_t>::max()/2)) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
@@ -74,6 +75,9 @@ namespace Candy {
             incPos(static_cast<intptr_t>(end - str));
             return static_cast<int>(number);
         }
+        else {
+            throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
+        }
     }
 
     void StreamBuffer::check_refill_buffer() {
@@ -82,15 +86,21 @@ namespace Candy {
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            int count = gzread(in, buffer + offset, buffer_size - offset);
+            if (count < 0) {
+                throw ParserException(std::string("ERROR! Could not read file"));
+            }
+            size = offset + count;
             offset = 0;
+            buffer[size] = '\0';
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) offset = 0;
         }
     }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..7e19da4 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,7 +42,7 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1]; // terminating zero
         check_refill_buffer();
     }
 
-- 
2.43.0


From edebe079ad8d0c0d0146d1d307748d7a25e92034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 08/26] fix: clauses with more than 65535 literals were
 silently truncated

---
 src/candy/core/clauses/Clause.h              | 6 +++---
 src/candy/simplification/SubsumptionClause.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..0fc5865 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
+    uint32_t length;
     uint16_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..83d49a2 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,7 +68,7 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
-- 
2.43.0


From 5d03a2d501fa764ac2b1ffb8c2df2d19db815fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 09/26] fix: clauses larger than the default page were written
 past the end of the page

---
 src/candy/core/clauses/ClauseAllocatorMemory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/clauses/ClauseAllocatorMemory.h b/src/candy/core/clauses/ClauseAllocatorMemory.h
index 0db4d43..24fa943 100644
--- a/src/candy/core/clauses/ClauseAllocatorMemory.h
+++ b/src/candy/core/clauses/ClauseAllocatorMemory.h
@@ -219,7 +219,8 @@ public:
 
     inline void* allocate(size_t length) {
         if (pages.size() == 0 || !pages.back().hasMemory(length)) { 
-            pages.emplace_back(default_page_size); 
+            size_t bytes = sizeof(Clause) + sizeof(Lit) * length;
+            pages.emplace_back(bytes < default_page_size ? default_page_size : bytes); 
         }
         return pages.back().allocate(length);
     }
-- 
2.43.0


From b73ce604d3f8fb80760f24fc6b4e257f5e6bcd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 10/26] fix: assuming a variable that occurs in no clause
 accessed memory out of bounds

---
 src/candy/core/Trail.h          | 4 ++--
 src/candy/ipasir/ipasircandy.cc | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..ed3734c 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -131,8 +131,8 @@ public:
     void setAssumptions(const std::vector<Lit>& assumptions) {
         this->assumptions.clear();
         for (Lit lit : assumptions) {
-            if (lit.var() > (Var)variables) {
-                init(variables);
+            if (lit.var() >= (Var)variables) {
+                init(lit.var() + 1);
             }
             this->assumptions.push_back(lit);
         }
diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..9378190 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -80,7 +80,9 @@ public:
     void assume(int lit) {
         drop_analysis();
         nomodel = true;
-        assumptions.push_back(import(lit));
+        Lit p = import(lit);
+        while ((Var)problem.nVars() <= p.var()) problem.newVar();
+        assumptions.push_back(p);
     }
 
     int solve() {
-- 
2.43.0


From 6bc35acc1793b011f03229d53e3ec49731e4c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 11/26] fix: ipasir_val contradicted itself and ipasir_failed
 read out of bounds on unknown variables

---
 src/candy/ipasir/ipasircandy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 9378190..ec8351b 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -99,13 +99,14 @@ public:
     int val(int lit) {
         if (nomodel) return 0;
         CandySolverResult& result = solver->getCandySolverResult();
-        return result.satisfies(import(lit)) ? lit : -lit;
+        Lit p = import(lit);
+        return result.satisfies(p) ? lit : (result.satisfies(~p) ? -lit : 0);
     }
 
     int failed(int lit) {
         if (!fmap) analyze();
         int tmp = import(lit).var();
-        return fmap[tmp] != 0;
+        return tmp < (int)solver->nVars() && fmap[tmp] != 0;
     }
 
     void set_terminate(void* state, int(*callback)(void* state)) {
-- 
2.43.0


From 93ab1a00ee77bcfdc82ecb5fd09d07891f261a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 12/26] fix: resetting the termination callback to NULL crashed
 the next solve

---
 src/candy/core/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..0905902 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -144,7 +144,7 @@ public:
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
-        this->termCallback = termCallback;
+        this->termCallback = termCallback != nullptr ? termCallback : [](void*) -> int { return 0; };
     }
 
     void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) override { 
-- 
2.43.0


From ab794d0dbc145041e4840980eb91d56db6a72995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 13/26] fix: minimized model of a previous solve survived
 CandySolverResult::clear

---
 src/candy/core/CandySolverResult.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 6dc896a..bdb6e22 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -49,6 +49,7 @@ public:
     void clear() {
         status = l_Undef;
         model.clear();
+        minimizedModel.clear();
         conflict.clear();
     }
 
-- 
2.43.0


From 2235e80df12dab66e16fc47fe8991899b4dae566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 14/26] fix: undoing a variable elimination left later
 eliminated variables of the restored clauses eliminated

---
 src/candy/simplification/VariableElimination.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..49311e4 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,16 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // restored clauses may contain variables that have been eliminated later on
+        for (size_t i = 0, size = correction_set.size(); i < size; i++) {
+            Cl clause = correction_set[i];
+            for (Lit lit : clause) {
+                if (is_eliminated(lit.var())) {
+                    std::vector<Cl> cor = undo_elimination(lit.var());
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
@@ -133,7 +143,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return v < (Var)eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 4159e87d184d09466120db0a6ed8f3f27280e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 15/26] fix: LBD computation wrote out of bounds with more
 decision levels than variables

---
 src/candy/core/Trail.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index ed3734c..286d00a 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -300,6 +300,7 @@ public:
     inline uint_fast16_t computeLBD(Iterator it, Iterator end) {
         // TODO: exclude selectors from lbd computation
         uint_fast16_t nblevels = 0;
+        stamp.grow(decisionLevel() + 1); // repeated assumptions add more levels than variables
         stamp.clear();
 
         for (; it != end; it++) {
-- 
2.43.0


From 83efbaaaddbd59fabf3522d97bd252afd6f693bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 16/26] fix: proof checker accessed memory out of bounds on
 variables that are not part of the problem

---
 src/candy/core/DRATChecker.cc | 10 +++++++++-
 src/candy/core/DRATChecker.h  |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..c16c7ea 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -74,6 +74,13 @@ long DRATChecker::proof_size(const char* filename) {
     return (rc == 0) ? stat_buf.st_size : -1;
 }
 
+bool DRATChecker::known_variables(const Cl& lits) {
+    for (Lit lit : lits) {
+        if (lit.var() >= (Var)clause_db.nVars()) return false;
+    }
+    return true;
+}
+
 bool DRATChecker::check_proof(gzFile input_stream) {
     Cl lits;
     StreamBuffer in(input_stream);
@@ -89,6 +96,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
             // std::cout << "c *** Checking Delete: " << lits << " *** " << std::endl;
+            if (!known_variables(lits)) return false;
             check_clause_remove(lits.begin(), lits.end());
         }
         else {
@@ -97,7 +105,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
             // std::cout << "c *** Checking Learned: " << lits << " *** " << std::endl;
-            if (!check_clause_add(lits.begin(), lits.end())) {
+            if (!known_variables(lits) || !check_clause_add(lits.begin(), lits.end())) {
                 return false;
             }
         }
diff --git a/src/candy/core/DRATChecker.h b/src/candy/core/DRATChecker.h
index 7ccde4e..26412c5 100644
--- a/src/candy/core/DRATChecker.h
+++ b/src/candy/core/DRATChecker.h
@@ -53,6 +53,8 @@ public:
 private:
     bool check_proof(gzFile input_stream);
 
+    bool known_variables(const Cl& lits);
+
     template <typename Iterator>
     bool check_clause_add(Iterator begin, Iterator end);
 
-- 
2.43.0


From c42f0f80b1678d9b78b9c5cf465e8f817711105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 17/26] fix: subsumption iterated over a container that it
 extends

---
 src/candy/simplification/Subsumption.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/simplification/Subsumption.h b/src/candy/simplification/Subsumption.h
index 7bce3e6..6ef7cd2 100644
--- a/src/candy/simplification/Subsumption.h
+++ b/src/candy/simplification/Subsumption.h
@@ -73,7 +73,10 @@ public:
     bool subsume() {
         nDuplicates = nSubsumed = nStrengthened = 0; 
                 
-        for (const SubsumptionClause* clause : database) {
+        std::vector<const SubsumptionClause*> clauses; // creating clauses invalidates the iterators of the database
+        for (const SubsumptionClause* clause : database) clauses.push_back(clause);
+
+        for (const SubsumptionClause* clause : clauses) {
             if (!clause->is_deleted()) {
                 // std::cout << "c Subsumption with clause " << *clause->get_clause() << "\r";
                 if (clause->size() == 1) {
-- 
2.43.0


From 063913d450c07cd9a6e066f1fe610b03543e8919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 18/26] fix: clauses of eliminated variables kept propagating
 during simplification and corrupted model and trail

---
 src/candy/core/Solver.h                       | 1 +
 src/candy/systems/propagate/Propagate.h       | 2 +-
 src/candy/systems/propagate/StaticPropagate.h | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 0905902..29d0a04 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -259,6 +259,7 @@ private:
 
             if (elimination.nTouched() > 0) {
                 augmented_database.cleanup();
+                propagator.reset(); // clauses of eliminated variables must not propagate any more
                 if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Eliminiated " << elimination.nTouched() << " variables" << std::endl;
             }
 
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index ebdeb94..9e2ebd5 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -78,7 +78,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
diff --git a/src/candy/systems/propagate/StaticPropagate.h b/src/candy/systems/propagate/StaticPropagate.h
index a53808a..6d5e16f 100644
--- a/src/candy/systems/propagate/StaticPropagate.h
+++ b/src/candy/systems/propagate/StaticPropagate.h
@@ -65,7 +65,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
-- 
2.43.0


From a8d9e2e7354ced55edae451a8445d44a6b3cf774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 19/26] fix: clauses removed by preprocessing re-entered the
 clause database view of the next incremental solve

---
 src/candy/core/Solver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 29d0a04..03d6b44 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -443,6 +443,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
     if (this->preprocessing_enabled) {
         std::cout << "c Preprocessing ... " << std::endl;
         processClauseDatabase();
+        clause_db.reorganize();
         propagator.reset();
     }
 
-- 
2.43.0


From c3e35f2fc28221c362c761e26cd46bd20c8f049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 20/26] fix: output line without comment prefix when building
 the LRB solver

---
 src/candy/frontend/CandyBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/frontend/CandyBuilder.cc b/src/candy/frontend/CandyBuilder.cc
index 4495156..956989a 100644
--- a/src/candy/frontend/CandyBuilder.cc
+++ b/src/candy/frontend/CandyBuilder.cc
@@ -63,7 +63,7 @@ CandySolverInterface* createSolver(bool staticPropagate, bool lrb, bool vsidsc,
             std::cout << "c Building Solver of Type Solver<StaticPropagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().propagateStaticClauses().build();
         } else {
-            std::cout << "Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
+            std::cout << "c Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().build();
         }
     } 
-- 
2.43.0


From 5af480f270829627c0d553efc603ce1e4130c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:02 +0000
Subject: [PATCH 21/26] fix: portfolio threads published verdict and winning
 solver without synchronisation

---
 src/candy/Main.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index f7180c4..3b8b028 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <mutex>
+#include <thread>
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
@@ -155,6 +157,17 @@ static void printGateStatistics(CNFProblem& problem) {
     
 CandySolverInterface* solver = nullptr;
 lbool result = l_Undef;
+static std::mutex result_lock; // protects solvers, solver and result in multi-threaded mode
+
+static bool hasResult() {
+    std::lock_guard<std::mutex> guard(result_lock);
+    return result != l_Undef;
+}
+
+static size_t nInitializedSolvers() {
+    std::lock_guard<std::mutex> guard(result_lock);
+    return solvers.size();
+}
 
 static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFProblem& problem, ClauseAllocator*& global_allocator) {
     std::cout << "c Sort Variables: " << SolverOptions::opt_sort_variables << std::endl;
@@ -169,11 +182,15 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
         global_allocator = solver_->setupGlobalAllocator();
     }
 
-    solvers.push_back(solver_);
     solver_->setTermCallback(solver_, interrupted_callback);
 
+    result_lock.lock();
+    solvers.push_back(solver_);
+    result_lock.unlock();
+
     lbool result_ = solver_->solve();
 
+    std::lock_guard<std::mutex> guard(result_lock);
     if (result == l_Undef) {
         result = result_;
         solver = solver_;
@@ -245,7 +262,7 @@ int main(int argc, char** argv) {
             std::cout << "Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
-        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
+        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && !hasResult(); count++) {
             std::cout << "c Initializing Solver " << count << std::endl;
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
@@ -302,12 +319,12 @@ int main(int argc, char** argv) {
             do { 
                 // wait till solver is initialized (and wait a bit longer)
                 std::this_thread::sleep_for(std::chrono::milliseconds(ParallelOptions::opt_thread_initialization_delay)); 
-            } while (solvers.size() <= count);
+            } while (nInitializedSolvers() <= count);
         }
 
         installSignalHandlers(true);
         // problem.clear();
-        while (result == l_Undef && !interrupted) {
+        while (!hasResult() && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
         installSignalHandlers(false);
-- 
2.43.0


From 3c22a26c8f98c8376169ba7d7ef8ac5306020377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 22/26] fix: end by exit() after model and proof check, solver
 threads may still be running

Returning from main destroys the joinable solver threads, which terminates the
program abnormally (candy -threads=4 -test-model).
---
 src/candy/Main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 3b8b028..2454345 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -375,12 +375,12 @@ int main(int argc, char** argv) {
             if (satisfied) {
                 std::cout << "c Result verified by model checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                exit(0);
             }
             else {
                 std::cout << "c Result could not be verified by model checker" << std::endl;
                 assert(satisfied);
-                return 1;
+                exit(1);
             }
         }
         else if (TestingOptions::test_proof && result == l_False) {
@@ -392,12 +392,12 @@ int main(int argc, char** argv) {
             if (proved) {
                 std::cout << "c Result verified by proof checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                exit(0);
             }
             else {
                 std::cout << "c Result could not be verified by proof checker" << std::endl;
                 assert(proved);
-                return 1;
+                exit(1);
             }
         }
     }
-- 
2.43.0


From cf8c960119d1886efc5a5ad1a5b70a95b981ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 23/26] fix: do not let solver threads replace the answer while
 it is being reported

After an interrupted wait, a thread that finishes late could set result and solver
between the answer line and the exit code.
---
 src/candy/Main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 2454345..2b1da28 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -328,6 +328,7 @@ int main(int argc, char** argv) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
         installSignalHandlers(false);
+        result_lock.lock(); // the answer is final: solver threads must not replace it any more
     }
 
     printf(result == l_True ? "s SATISFIABLE\n" : result == l_False ? "s UNSATISFIABLE\n" : "s INDETERMINATE\n");
-- 
2.43.0


From 5b2771d8a754ce0e3303bc2b53d24812649e4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 24/26] fix: a clause whose LBD is 65535 is not a deleted
 clause

The largest weight marks deleted clauses, so such a clause was dropped by the next
reorganisation (ClauseDatabase::init with lemma=false on a clause of 65535 literals).
---
 src/candy/core/clauses/Clause.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 0fc5865..356d7c3 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -58,7 +58,7 @@ private:
     }
 
     inline void setLBD(uint16_t lbd) {
-        weight = lbd;
+        weight = std::min<uint16_t>(lbd, std::numeric_limits<uint16_t>::max() - 1); // max marks deleted clauses
     }
 
 public:
@@ -66,7 +66,7 @@ public:
     Clause(Iterator begin, Iterator end, uint16_t lbd) {
         copyLiterals(begin, end, literals);
         length = static_cast<decltype(length)>(std::distance(begin, end));
-        weight = lbd; // not frozen, not deleted and not learnt; lbd=0
+        setLBD(lbd); // not frozen, not deleted and not learnt; lbd=0
         assert(lbd <= length);
     }
     
-- 
2.43.0


From 88c80c3ab41e5312962452a749221e2d11c92e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 25/26] fix: VSIDSC reads centrality of variables that are not
 part of its graph

---
 src/candy/systems/branching/VSIDSC.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..8caf64a 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -212,7 +212,11 @@ public:
                 double bumpFactor = var_inc;
                 if (use_centrality_bump)
                 {
-                        bumpFactor = var_inc * (1 + (centrality[graph.mapNode(v.id)] * centralityFactor));
+                        // variables that are not part of the graph have no centrality
+                        size_t node = graph.mapNode(v.id);
+                        if (node < centrality.size()) {
+                                bumpFactor = var_inc * (1 + (centrality[node] * centralityFactor));
+                        }
                 }
                 varBumpActivity(v, bumpFactor);
         }
-- 
2.43.0


From ba7061ee0a0a7048b8ed9416bb25c77e7e5c214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:39 +0000
Subject: [PATCH 26/26] fix: CandySolverResult::value read beyond the end of
 incomplete models

The model checker prints the values of an unsatisfied clause and crashed when its
variables lie beyond the model, instead of rejecting the model.
---
 src/candy/core/CandySolverResult.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index bdb6e22..82289fe 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -80,7 +80,10 @@ public:
 
     // return satisfied literal for given variable
     Lit value(Var x) const {
-        if (model[x] == l_False) {
+        if (x >= (Var)model.size()) {
+            return lit_Undef;
+        }
+        else if (model[x] == l_False) {
             return Lit(x, true);
         } 
         else if (model[x] == l_True) {
-- 
2.43.0

