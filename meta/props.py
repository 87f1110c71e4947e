"""The single source of properties.jsonl and MANIFEST.json (regenerate with: python3 meta/gen.py)."""

S = "src/candy/"
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                      mech=[dict(name=n, where=S + w) for n, w in mech], technique=technique, note=note, state=state, observe=observe))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                      mech=[dict(name=n, where=S + w) for n, w in mech], technique=None, note=None, state=None, observe=None))
    NA.append((id, reason))


prop("P01", "UNSAT proofs contain every derived clause and end with the empty clause",
     "When a proof file is requested (single-threaded run), every clause the solver derives - learnt clauses, resolvents, strengthened clauses, units - is written to the proof before it is used, "
     "and input clauses are not written. An unconditional UNSAT answer is always accompanied by the empty clause in the proof. No clause changes its literals silently after it was created.",
     ["inputs", "configurations", "histories"], "every formula, every configuration of pre-/inprocessing and branching, every sequence of incremental calls",
     "tests check the proof of a handful of formulas; an unlogged derivation in a rarely taken simplification branch only shows on formulas that take it",
     ["core/clauses/ClauseDatabase.h", "core/clauses/Certificate.h", "core/Solver.h", "simplification/Subsumption.h", "simplification/VariableElimination.h", "simplification/SubsumptionClauseDatabase.h"],
     [("logging clause factory", "core/clauses/ClauseDatabase.h createClause"), ("empty clause", "core/clauses/ClauseDatabase.h emptyClause"), ("unit materialisation", "core/Solver.h propagateAndMaterializeUnitClauses")],
     "interprocedural path-sensitive dataflow over clang's CFG: who may construct clause objects (call-graph ownership), must-log-before-use automaton, effect analysis of clause contents",
     "All paths of the inlined control-flow graphs; std library trusted; threads>1 out of scope")

prop("P02", "Proof deletions are exact and never precede the derivations that need them",
     "Every clause removed from the database is written to the proof as one deletion with exactly its literals, and only clauses that are still alive are removed. "
     "A replacement clause (strengthened clause, resolvent) is derived before the clauses it stems from are deleted. The simplifier's view and the clause database stay in step.",
     ["inputs", "configurations", "histories"], "every formula and every order in which subsumption, strengthening, elimination and database reduction remove clauses",
     "deleting an antecedent too early or twice only breaks proofs whose later steps need that antecedent; sampled formulas rarely do",
     ["core/clauses/ClauseDatabase.h", "core/clauses/Certificate.h", "simplification/Subsumption.h", "simplification/SubsumptionClauseDatabase.h", "simplification/VariableElimination.h", "systems/ReduceDB.h"],
     [("removal", "core/clauses/ClauseDatabase.h removeClause"), ("strengthening", "core/clauses/ClauseDatabase.h strengthenClause"), ("simplifier view", "simplification/SubsumptionClauseDatabase.h")],
     "typestate analysis of clauses (alive/deleted) plus derive-before-delete ordering automata over inlined control-flow graphs",
     "All paths; aliasing of clause pointers approximated by access paths")

prop("P03", "Proof lines follow the DRAT text format",
     "A proof consists of lines that are the signed, one-based literals of a clause separated by blanks and terminated by 0, prefixed by 'd ' exactly for deletions. "
     "Nothing is written unless a proof was requested and its file could be opened.",
     ["inputs", "configurations"], "every clause (any length, any sign pattern) that is logged", "a wrong sign or missing terminator for particular clause shapes is invisible to tests that do not check the proof",
     ["core/clauses/Certificate.h"], [("writer", "core/clauses/Certificate.h added/removed/proof"), ("activation", "core/clauses/Certificate.h Certificate")],
     "symbolic token automaton over the stream insertions of the proof writer (dataflow on all paths), with affine evaluation of the printed literal",
     "All paths of the writer")

prop("P04", "SAT answers come with a complete, consistent model; other answers with none",
     "The solver answers SAT only for a propagated, conflict-free, complete assignment in which all assumptions hold. The published model gives each variable the value of its true literal, including eliminated variables, and is published for SAT answers only. "
     "Results of earlier calls are discarded before a new answer is recorded.",
     ["inputs", "histories", "configurations"], "every formula, assumption set and sequence of incremental calls",
     "a stale or incomplete model needs a particular sequence of calls or a particular eliminated variable",
     ["core/Solver.h", "core/CandySolverResult.h", "simplification/VariableElimination.h", "core/Trail.h"],
     [("search loop", "core/Solver.h search"), ("publication", "core/Solver.h solve"), ("values", "core/CandySolverResult.h setModelValue"), ("completion", "simplification/VariableElimination.h propagate_eliminated_variables")],
     "path-sensitive automata over the inlined search and solve loops (facts on lifted booleans), value-flow of stored literals",
     "All paths; correctness of the clauses themselves is not part of the argument")

prop("P05", "Variable elimination preserves satisfiability and is reversible",
     "Eliminating a variable first saves all its clauses, adds every non-tautological resolvent complete, then removes all its clauses. Assigned variables and assumptions are never eliminated. "
     "A variable that returns as an assumption or in a new clause is restored with all saved clauses, transitively, and models are completed in reverse elimination order so that the saved clauses are satisfied.",
     ["inputs", "histories", "configurations"], "every formula, elimination order and later sequence of added clauses and assumptions",
     "an omitted clause or resolvent changes answers only for formulas where it is the decisive one, often only after further incremental calls",
     ["simplification/VariableElimination.h", "core/Solver.h", "simplification/SubsumptionClauseDatabase.h"],
     [("elimination", "simplification/VariableElimination.h eliminate"), ("resolution", "simplification/VariableElimination.h merge"), ("restoration", "simplification/VariableElimination.h undo_elimination, reset"), ("completion", "simplification/VariableElimination.h propagate_eliminated_variables")],
     "for-all-elements traversal analysis and ordering automata over inlined control-flow graphs",
     "All paths; every loop is shown to handle each element of its container")


prop("P07", "Unit propagation is exact and complete",
     "A clause propagates a literal or is reported as conflict only if all its other literals are false (for a conflict: all literals), and the clause itself is recorded as reason. "
     "A watch is only moved to a literal of the same clause that is not false. Watchers are neither lost nor duplicated. "
     "Propagation ends without conflict only when every assigned literal has been propagated through binary and longer clauses.",
     ["inputs", "histories", "configurations"], "every clause length, watch position and assignment history, for both propagation engines",
     "a literal that is skipped for a particular clause length or watch position gives wrong answers only on formulas where that clause is decisive",
     ["systems/propagate/Propagate.h", "systems/propagate/StaticPropagate.h", "core/Trail.h"],
     [("long clauses", "systems/propagate/Propagate.h propagate_watched_clauses"), ("static watchers", "systems/propagate/StaticPropagate.h propagate_watched_clauses"), ("binary clauses", "systems/propagate/Propagate.h propagate_binary_clauses"), ("queue", "systems/propagate/Propagate.h propagate")],
     "path-sensitive watcher automaton: facts on literal values along all paths of the inlined scan loops, complete-traversal analysis of clause literals and watch lists, compaction bookkeeping",
     "All paths of both engines; that the watch lists mirror the clause set is a separate property")

prop("P06", "Watch lists mirror the clause set",
     "Every clause of length at least three that is added is watched at its first two literals, by the solver's own watch index, and its watchers are removed when the clause is removed; binary clauses are registered at both literals. "
     "(Re-)initialising the propagator after simplification registers all live clauses exactly once, and every new decision-relevant clause (learnt or added) reaches the watch lists before the next propagation.",
     ["inputs", "histories", "configurations"], "every clause added, learnt, strengthened or removed, in every order, for both propagation engines",
     "a clause that is not watched is silently ignored: answers are wrong only on formulas where it is decisive",
     ["systems/propagate/Propagate.h", "systems/propagate/StaticPropagate.h", "core/clauses/ClauseDatabase.h", "core/Solver.h"],
     [("attach", "systems/propagate/Propagate.h attachClause"), ("static attach", "systems/propagate/StaticPropagate.h attachClause"), ("detach", "systems/propagate/Propagate.h detachClause"), ("re-initialisation", "systems/propagate/Propagate.h init"), ("binary watchers", "core/clauses/ClauseDatabase.h createClause, initBinaryWatchers")],
     "complete-traversal analysis of clause and watch lists, value-flow of watch positions, must-attach-before-propagate automata over the inlined control-flow graphs",
     "All paths of both engines; the order of watchers within a list is not constrained")

prop("P08", "The assignment trail is consistent bookkeeping",
     "Each assignment enters the trail once, with its value, its reason and the current decision level; values of both polarities agree. Undoing to a level removes exactly the assignments above it, newest first, including value and reason, and keeps the others. "
     "Levels are opened at the current trail end, one per decision, assumptions first; a reset forgets all values, levels and queued literals. No other component writes the trail's storage.",
     ["histories", "inputs"], "every interleaving of assignments, decisions, backjumps, variable growth and resets",
     "tests exercise short histories; a stale reason or value needs a specific backjump sequence",
     ["core/Trail.h", "core/Solver.h"],
     [("assignment", "core/Trail.h decide, propagate, fact"), ("backtracking", "core/Trail.h backtrack"), ("reset", "core/Trail.h reset"), ("levels", "core/Trail.h newDecisionLevel")],
     "effect and value-flow analysis of the trail's fields, complete-traversal analysis of the undo loop, write-ownership over the call graph",
     "All paths of Trail's member functions and all writers in the program")

prop("P09", "Conflict analysis derives implied, asserting clauses",
     "The learnt clause is the first-UIP resolvent of the conflict and the reasons: every literal of each involved clause is accounted for (resolved away at the current level, kept below it, dropped only at level 0). "
     "Minimization drops a literal only if it is implied by the negations of the remaining ones. The clause starts with its asserting literal, the second literal has the highest remaining level, and that level is the backjump level. Marks never leak from one analysis to the next.",
     ["inputs", "histories"], "every implication graph and conflict", "an unsound or non-asserting clause needs a particular implication graph; wrong answers appear on few formulas",
     ["systems/learning/ConflictAnalysis.h", "mtl/Stamp.h", "core/clauses/ClauseDatabase.h"],
     [("resolution", "systems/learning/ConflictAnalysis.h analyze"), ("minimization", "systems/learning/ConflictAnalysis.h minimization, litRedundant, minimizationWithBinaryResolution"), ("hand-over", "systems/learning/ConflictAnalysis.h handle_conflict"), ("marks", "mtl/Stamp.h")],
     "complete-traversal analysis of antecedent clauses with marking typestate, path facts on levels and reasons, value-flow of the backjump level, overflow typestate of the stamp class",
     "All paths of the analysis; that the implication graph itself is right is the subject of the propagation and trail properties")

prop("P10", "Failed assumptions are exactly analysed",
     "When the formula is unsatisfiable under the assumptions, the final conflict contains the falsified assumption and all assumptions that imply its negation, found by tracing back all reasons, and only such literals. It is stored completely with the answer and dropped before the next call.",
     ["inputs", "histories"], "every formula, set of assumptions and history of calls", "a missing assumption in the core is only visible for specific implication chains",
     ["systems/learning/ConflictAnalysis.h", "core/Solver.h", "core/CandySolverResult.h"],
     [("analysis", "systems/learning/ConflictAnalysis.h analyzeFinal"), ("detection", "core/Solver.h search"), ("storage", "core/CandySolverResult.h setConflict, clear")],
     "complete-traversal and marking typestate analysis over the trail walk, affine range check of the walk, value-flow of the stored conflict, write-ownership",
     "All paths")

prop("P11", "The IPASIR interface translates clauses, assumptions and answers faithfully",
     "A literal n is variable |n| with its sign; a clause handed over by 0 contains exactly the literals added since the last 0. solve uses all clauses added and exactly the assumptions made since the last call and returns 10, 20 or 0 for satisfiable, unsatisfiable and undecided. "
     "val gives the literal's variable with its model sign, or 0 without value or model; failed holds exactly for variables of the current final conflict. The learnt-clause callback receives every learnt clause within the length limit, as numbers, terminated by 0.",
     ["inputs", "histories"], "every literal value, clause, assumption and sequence of IPASIR calls",
     "stale assumptions, clauses or analyses only matter for particular call sequences", 
     ["ipasir/ipasircandy.cc", "core/Trail.h", "core/Solver.h", "core/CandySolverResult.h", "rsar/ARSolver.h"],
     [("wrapper", "ipasir/ipasircandy.cc IPASIRCandy"), ("C functions", "ipasir/ipasircandy.cc ipasir_add, ipasir_solve, ..."), ("assumptions", "core/Trail.h setAssumptions"), ("callback", "core/Solver.h ipasir_callback")],
     "path-sensitive automata over the inlined wrapper functions (complete hand-over, reset between calls) and finite-domain evaluation of the translated values along all paths",
     "All paths of the wrapper; the solver's answers themselves are the subject of other properties")

prop("P27", "Termination requests and resource limits are honoured between search episodes",
     "Every search episode is preceded by a poll of the termination callback, with its state, that did not ask to stop; an interrupted call is answered undecided. All solvers store or forward the callback. "
     "The command line tool installs its callback in every solver before solving, its signal handlers while solving, raises the interruption flag exactly when the time or memory limit is exceeded, and stops waiting for an answer once it is raised.",
     ["inputs", "histories", "configurations"], "every callback behaviour, limit and signal", "tests never interrupt a running solver",
     ["core/Solver.h", "Main.cc", "rsar/ARSolver.h"],
     [("poll", "core/Solver.h solve"), ("storage", "core/Solver.h setTermCallback"), ("forwarding", "rsar/ARSolver.h setTermCallback"), ("limits", "Main.cc interrupted_callback"), ("signals", "Main.cc installSignalHandlers")],
     "must-poll automaton over the inlined solve loop, value-flow of stored callbacks, finite-domain evaluation of the limit checks",
     "All paths; the duration of a single search episode is not bounded")

prop("P13", "The DIMACS reader reads exactly the clauses of the input",
     "Every number up to the terminating 0 becomes a literal (n is variable |n| with n's sign) of its clause, comments and headers are skipped and nothing else, up to the end of the input. Numbers are converted completely: out-of-range numbers, missing numbers, "
     "an end of input inside a clause, unreadable files and negative header counts raise an error. The result does not depend on where buffer boundaries fall: incomplete words at the end of the buffer are held back and continued.",
     ["inputs"], "every input text of any length, compressed or not", "a buffer boundary inside a number, a comment or a file of a particular length is not hit by the test instances",
     ["core/CNFProblem.cc", "utils/StreamBuffer.h", "utils/StreamBuffer.cc"],
     [("parser", "core/CNFProblem.cc readDimacs"), ("numbers", "utils/StreamBuffer.cc readInteger"), ("buffer", "utils/StreamBuffer.cc check_refill_buffer"), ("skipping", "utils/StreamBuffer.cc skipWhitespace, skipLine, skipString")],
     "typestate automaton of the parser loop, path facts on characters and positions decided over a finite sample domain, ordering automaton of the buffer refill",
     "All paths; zlib and strtol behave as specified; words longer than the buffer are out of scope")

prop("P32", "Problems store every clause normalised and count all variables",
     "A clause that is added is stored once, with all its literals, sorted and without duplicates; it is dropped exactly if it is tautological, the empty clause is kept. The number of variables covers every variable of every clause read, tautological ones included, and never decreases by reading. "
     "All clauses of a given formula enter the problem. Printing gives the counts and every clause with all its literals and a terminating 0.",
     ["inputs"], "every clause and order of clauses", "empty, duplicate or tautological clauses that bring the largest variable are rare in test formulas",
     ["core/CNFProblem.cc", "core/CNFProblem.h"],
     [("storage", "core/CNFProblem.cc readClause"), ("formulas", "core/CNFProblem.cc readClauses"), ("counts", "core/CNFProblem.h nVars, newVar"), ("printing", "core/CNFProblem.cc printDIMACS")],
     "ordering automaton over the normalisation steps, complete-traversal analysis, finite-domain evaluation of the counts and of the comparison predicate",
     "All paths; std::sort and std::unique behave as specified")

prop("P20", "The model checker accepts exactly the models that satisfy every clause",
     "A result is accepted only if every clause of the problem has a literal that is true in the model, and rejected only if all literals of some clause were examined and are not true. A literal is true exactly if its variable has a value in the model that makes it true. "
     "The lists of model literals contain each variable that has a value, with its value, and no other; minimised models are kept apart.",
     ["inputs", "configurations"], "every problem and model, including short models and variables without value", "a checker that accepts too much makes all other tests pass",
     ["core/CNFProblem.cc", "core/CandySolverResult.h"],
     [("check", "core/CNFProblem.cc checkResult"), ("literal", "core/CandySolverResult.h satisfies"), ("lists", "core/CandySolverResult.h getModelLiterals, getMinimizedModelLiterals")],
     "path-sensitive traversal automaton over the checker's loops and exhaustive finite-domain evaluation of the literal tests",
     "All paths")


prop("P12", "The command line tool reports the solver's answer, code and model correctly",
     "After solving, exactly one answer line is printed and it, the exit code (10, 20, 0) and the solver's answer agree. The problem that was read is the one solved, checked and reported on. A model line is printed for satisfiable answers only, lists every variable once with its value and ends with 0; a model or check that is asked for is printed or made. "
     "'Verified' is reported only after the matching check succeeded and a failed check ends with an error code; an unreadable input ends with an error code and without an answer; when a proof is to be checked, a proof is recorded.",
     ["inputs", "configurations"], "every answer, model size and combination of reporting options", "no test runs the command line tool",
     ["Main.cc"],
     [("answer", "Main.cc main"), ("model line", "Main.cc main"), ("checks", "Main.cc main")],
     "automaton over main's control-flow graph with finite-domain evaluation of the printed text and exit code per answer, value-flow of problem and model",
     "All paths; the text of other comment lines is not judged")

prop("P14", "Options take exactly the values given by their full name and within range",
     "A numeric option is set exactly if the argument begins with its name followed by '=' and a number, and a number outside its range is an error; a string option keeps the text behind its name, cut to the buffer and terminated; a Boolean option is set by '-name' and reset by '-no-name', completely matched. "
     "Options register themselves, give out the value they hold, and keep their defaults. Each argument is offered to all options until one accepts; unknown options are an error, and other arguments are kept in order.",
     ["inputs"], "every argument list", "names that are prefixes of other names, values at the limits of a range and long texts are not tried by the tests",
     ["utils/Options.h", "utils/Options.cc"],
     [("numbers", "utils/Options.h IntOption::parse, DoubleOption::parse"), ("text", "utils/Options.h StringOption::set"), ("flags", "utils/Options.h BoolOption::parse"), ("arguments", "utils/Options.cc parseOptions")],
     "path facts of the parse functions decided over a finite sample domain, ordering automaton of the argument loop",
     "All paths; strstr, strtol and strtod behave as specified; trailing text behind a number is accepted")

prop("P16", "The parallel portfolio publishes one definite answer race-free",
     "Result, answering solver and the list of solvers are accessed by the solver threads and the waiting main thread only while holding their lock. The first definite answer is stored together with the solver that found it and is never replaced, and it does not change while it is reported. "
     "The options of a solver do not change while it is being set up. The main thread waits for an answer or an interruption, and the program ends without destroying running threads.",
     ["schedules", "inputs", "configurations"], "every interleaving of the solver threads", "no test starts threads; the races need unlucky timing",
     ["Main.cc"],
     [("lock", "Main.cc result_lock"), ("publication", "Main.cc runSolverThread"), ("waiting", "Main.cc main, hasResult, nInitializedSolvers")],
     "lockset typestate analysis of all accesses to the shared variables, atomic publication automaton, waiting automaton of the main thread",
     "All paths; solver-internal state is not shared between threads (the shared clause allocator mode is disabled); options read by solver threads after set-up are out of scope")


prop("P15", "Clause memory keeps every clause whole until it is deleted",
     "The memory of a clause covers its header and all its literals; pages hand out memory that lies within them and behind everything they handed out before, and a page is used only if the clause fits. Reorganisation copies every clause that is not deleted completely and once, into memory that is not freed, before the old memory is given up. "
     "Collecting yields every clause that is not deleted and no other, from all memories clauses are allocated in, and iteration visits every clause of every page. A clause holds the literals it was made from, and only deleting it marks it deleted.",
     ["inputs", "histories"], "every sequence of allocations, deletions and reorganisations", "page borders, clauses larger than a page and marks that collide with other values need long runs",
     ["core/clauses/Clause.h", "core/clauses/ClauseAllocator.h", "core/clauses/ClauseAllocatorMemory.h"],
     [("sizes", "core/clauses/ClauseAllocatorMemory.h clauseBytes, hasMemory, allocate"), ("reorganisation", "core/clauses/ClauseAllocatorMemory.h reallocate"), ("collecting", "core/clauses/ClauseAllocator.h collect"), ("iteration", "core/clauses/ClauseAllocatorMemory.h const_iterator"), ("clauses", "core/clauses/Clause.h")],
     "finite-domain evaluation of size and position expressions per path, traversal automata over the reorganisation and collection loops, write-effect analysis of the deletion mark",
     "All paths; page arithmetic is decided on sample sizes; the shared allocator mode for parallel static databases (disabled) is not judged")

prop("P18", "Branching decides every variable before a model is claimed",
     "Every decision is a variable that has no value and has not been eliminated, and the search is told that no variable is left only if the queue of the heuristic is empty. A variable whose assignment is undone returns to the queue before the next decision, once; a reset brings every variable that may be decided into the queue. "
     "The tables of a heuristic cover all variables whenever it is initialised, also in incremental use. Implicit learning decides only such variables too, and leaves the decision to the default heuristic when it has no advice. Only variable elimination withdraws variables from decisions.",
     ["inputs", "histories"], "every search with every heuristic", "a lost variable shows as an incomplete model, and only if the lost variable matters; incremental growth is hardly tested with the other heuristics",
     ["systems/branching/VSIDS.h", "systems/branching/LRB.h", "systems/branching/VSIDSC.h", "systems/branching/rsil/BranchingHeuristics.h", "systems/branching/rsil/BranchingHeuristics.cc", "systems/branching/rsil/ImplicitLearningAdvice.h", "core/Solver.h"],
     [("decision", "systems/branching/*.h pickBranchLit"), ("conflict", "systems/branching/*.h process_conflict"), ("reset", "systems/branching/*.h reset, init, clear"), ("implicit learning", "systems/branching/rsil getAdvice, getSignAdvice"), ("protocol", "core/Solver.h search, solve, init")],
     "path facts at every return of a decision, traversal automata over the undone part of the trail and over all variables, ordering automaton of search and solve",
     "All paths; the order of the queue and the numeric scores are heuristic and not judged")

prop("P28", "Literals, truth values and variables have consistent semantics",
     "A literal is a variable with a sign: making, taking apart, negating, indexing and comparing agree for every variable and sign; the undefined and error literals differ from every proper one. "
     "Truth values follow three-valued logic: true, false and undefined are told apart by comparison, sign flipping leaves undefined undefined, conjunction and disjunction follow their tables. "
     "A literal prints as its one-based number with the sign, a truth value as 1, 0 or X, a clause as all its literals.",
     ["inputs"], "every variable, sign and truth value", "tests use few literals and never the alternative encodings of undefined",
     ["core/SolverTypes.h"],
     [("literals", "core/SolverTypes.h Lit, mkLit, sign, var, toInt"), ("truth values", "core/SolverTypes.h lbool"), ("printing", "core/SolverTypes.h operator<<")],
     "constant folding of the inlined operators over a finite value domain, compared with the truth tables",
     "All operators; variables sampled from a finite domain (the operators are affine in the variable)")

prop("P31", "The queue of variables keeps its elements, indices and order; marks are exact",
     "Every element of the queue knows its position through all moves; children and parents of positions agree; an element moves up only over a parent it precedes and down only below the preceding child, and stays only where neither is possible; "
     "taking the first element removes exactly it; rank changes move the element into the right direction; rebuilding adds every element, emptying takes every index. "
     "After clearing a stamp no entry counts as stamped, for every counter value, and setting or unsetting affects exactly the given entry.",
     ["inputs", "histories"], "every sequence of queue and stamp operations, including counter overflow", "counter overflows and particular heap shapes need long histories",
     ["mtl/Heap.h", "mtl/Stamp.h"],
     [("queue moves", "mtl/Heap.h percolateUp, percolateDown"), ("removal", "mtl/Heap.h removeMin"), ("rebuild", "mtl/Heap.h build, clear"), ("stamps", "mtl/Stamp.h clear, set, unset, isStamped")],
     "paired-write automata, path facts at moves, affine evaluation of positions, finite-domain evaluation of the stamp counter",
     "All paths of one operation; the order of the whole queue follows by induction, which is not mechanised; positions are sampled")

prop("P17", "Input clauses are never deleted; reductions drop the worse learnt clauses",
     "An input clause, and every clause that replaces input clauses during simplification, is persistent: it never becomes eligible for deletion, whatever its LBD is estimated at later. A reduction of the clause database deletes learnt clauses only, none with an LBD within the persistent limit, and at most the half with the higher LBD. "
     "A deleted clause is told apart from every other clause, whatever its LBD. Clauses are deleted only between searches, when none is the reason of an assignment, and the propagator is rebuilt before the search continues.",
     ["inputs", "histories"], "every input and every sequence of conflicts, restarts and reductions", "a lost input clause shows only when a later model happens to violate it; reductions start after thousands of conflicts",
     ["systems/ReduceDB.h", "core/clauses/Clause.h", "core/clauses/ClauseDatabase.h", "core/Solver.h", "simplification/VariableElimination.h"],
     [("selection", "systems/ReduceDB.h reduce"), ("classes of clauses", "core/clauses/Clause.h isPersistent, isLearnt, isDeleted, setLBD"), ("creation", "core/clauses/ClauseDatabase.h createClause, strengthenClause, init"), ("re-estimation", "core/clauses/ClauseDatabase.h reestimateClauseWeights"), ("order", "core/Solver.h solve")],
     "evaluation of the selecting predicate over all classes of clause weights, interprocedural automaton for the order of reduction and rebuild, value analysis of the LBD at each clause creation",
     "All paths; weights, limits and lengths from a finite sample that covers every class; which learnt clauses are useful is not judged")

prop("P29", "Subsumption removes only implied clauses and strengthens only by resolution",
     "The subsumption test accepts a clause only if every literal of it occurs in the other clause, at most one of them negated, and reports that literal. A clause is removed only when another one subsumes it, never itself; a persistent clause is not left to a learnt one. A clause is strengthened only by the literal that the test reported, negated, or by the negation of a unit. "
     "Unsatisfiability is only declared when the empty clause follows. Occurrence lists hold every clause with a variable and lose only deleted or strengthened ones; asymmetric reduction removes a literal only after a conflict under the negations of the others, outside the temporary assumptions. Strengthening replaces a clause by itself minus one literal, and removed clauses are never used again.",
     ["inputs", "histories"], "every clause database", "wrong removals keep most formulas equisatisfiable, so samples rarely show them",
     ["simplification/Subsumption.h", "simplification/SubsumptionClause.h", "simplification/SubsumptionClauseDatabase.h", "simplification/AsymmetricVariableReduction.h"],
     [("test", "simplification/SubsumptionClause.h subsumes"), ("removal", "simplification/Subsumption.h subsume, unit_resolution"), ("occurrence lists", "simplification/SubsumptionClauseDatabase.h"), ("asymmetric reduction", "simplification/AsymmetricVariableReduction.h reduce")],
     "path-fact automata over the inlined loops: what is known of the test result and of both clauses at each removal, nested all-elements automaton for the test, traversal automata for the occurrence lists",
     "All paths of one step; that the sequence of steps preserves satisfiability follows by induction, which is not mechanised")

prop("P19", "The proof checker accepts nothing that does not follow",
     "The built-in checker accepts a proof only if the empty clause was derived and every added clause was checked: it leads to a conflict when its literals are assumed to be false, or all resolvents with the clauses that contain the negation of one of its literals do. "
     "Checks never use the literal that is resolved upon, nor assumptions of other checks, and the clause added is the one checked. The checker finds every clause with a literal, checks only clauses over known variables, reads the number n as literal n, and a result is reported as verified only after a successful check.",
     ["inputs"], "every formula and every proof file", "the tests check proofs of correct runs only; a checker that accepts too much passes all of them",
     ["core/DRATChecker.cc", "core/DRATChecker.h", "Main.cc"],
     [("lines", "core/DRATChecker.cc check_proof"), ("implication", "core/DRATChecker.cc check_asymm"), ("addition", "core/DRATChecker.cc check_clause_add"), ("occurrences", "core/DRATChecker.cc DRATChecker, cleanup_deleted"), ("report", "Main.cc main")],
     "path automata with the results of the checks in the state, traversal automaton over all clauses of the pivot's occurrence list, evaluation of the accepting conditions",
     "All paths; soundness of acceptance only (valid proofs may be rejected); deletion is sound in any form and not judged")

prop("P22", "Abstraction refinement answers for the problem, not for its approximations",
     "The abstraction-refining solver reports unsatisfiability only if its last search used no enabled approximation clause; other results are passed on as they are. Every search runs after all new approximation clauses were added and with the current assumption literals. "
     "An approximation clause is the conjectured implication or backbone literal plus the literal that deactivates it, over a fresh variable; it is enabled exactly until its conjecture is removed, and the number of enabled clauses counts exactly those. "
     "Each refinement step reports all removed and all new implications and backbones, and keeps its tables and lists in step; an equivalence stays connected when variables leave it.",
     ["inputs", "histories"], "every formula, every set of conjectures, every sequence of refinement steps", "the tests refine a few hand-made states; soundness depends on the last enabled clause of every refinement history",
     ["rsar/ARSolver.cc", "rsar/ARSolver.h", "rsar/Refinement.cc", "rsar/ApproximationState.cc"],
     [("verdict", "rsar/ARSolver.cc ARSolver::solve"), ("clauses", "rsar/ARSolver.cc ARSolver::addApproximationClauses"), ("encoding", "rsar/Refinement.cc encodeImplication, encodeBackbone, getAssumptionLit"), ("strategy", "rsar/Refinement.cc SimpleRefinementStrategy"), ("state", "rsar/ApproximationState.cc commitWorkQueue, createDelta")],
     "automaton over the solve loop with the possible verdicts, the kind of assumptions and Boolean locals in the state; finite-domain evaluation of the encodings; traversal automata over the change sets",
     "All paths; whether conjectures hold is irrelevant for the claim; the heuristics that choose what to remove are not judged")

prop("P24", "The configured solver is the one that is built and used",
     "The solver factory builds the kind of solver that its arguments ask for: static propagation exactly on request, and LRB if requested, otherwise RSIL in the requested mode (unrestricted, vanishing or with implication budgets) and advice size, otherwise VSIDSC if requested, otherwise VSIDS. It always builds a solver, and rejects unknown RSIL modes. "
     "The command line tool passes each option to the argument of the same meaning, uses abstraction refinement only with conjectures of a gate analysis and random simulation within their time limits, falls back to the plain solver otherwise, and hands the problem over before solving.",
     ["inputs"], "every combination of options and every outcome of gate analysis and random simulation", "every kind of solver gives correct answers, so a factory that builds another one passes all tests",
     ["frontend/CandyBuilder.cc", "frontend/CandyBuilder.h", "frontend/SolverFactory.h", "Main.cc"],
     [("kind of solver", "frontend/CandyBuilder.cc createSolver"), ("mode", "frontend/CandyBuilder.cc getRSILMode"), ("refinement", "frontend/SolverFactory.h createRSARSolver"), ("use", "Main.cc main, runSolverThread")],
     "type of the object created on each path, evaluated for every combination of arguments; path automata over the set-up of the tool",
     "All paths; paths through exception handlers are not followed; the parallel mode leaves the advice size at its default")
