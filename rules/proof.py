"""Proof logging: P01 completeness, P02 deletions, P03 record format."""
from .lib import *

DB = "Candy::ClauseDatabase"
CERT = "Candy::Certificate"
ALLOC = ("Candy::ClauseAllocator::*", "Candy::ClauseAllocatorMemory::*", "Candy::ClauseAllocatorPage::*")
CLAUSE = ("Candy::Clause::*",)


def full_range(cx, a=0, b=1):
    """container X when arguments a,b of the call are its complete range, 'params' for a (begin,end) parameter pair"""
    x, y = cx.arg(a), cx.arg(b)
    if x[0] == "iter" and y[0] == "iter" and x[1] == y[1] and x[2] == 0 and y[2] == "end": return x[1]
    if x[0] == "param" and y[0] == "param" and (x[2], y[2]) == (0, 1): return "params"
    return None


def is_new_clause(v):
    return v[0] == "new" and "Clause" in v[1] or v[0] == "obj"


def p_create(ck, rule="every created clause is logged unless imported as input"):
    fs = ck.fns(DB + "::createClause")
    for f in fs:
        bools = [n for n, p in enumerate(f.params) if p["t"] == "bool"]
        if len(bools) != 1: raise AnalysisError("createClause: no unique lemma flag")
        lem = ("param", f.params[bools[0]]["n"] or "arg%d" % bools[0], bools[0], f.id)
        g = ck.graph(f, ALLOC + CLAUSE + (CERT + "::*",))
        def tr(n, cx):
            if calls(CERT + "::added")(n):
                r = full_range(cx)
                if r is None or not (r == "params" or is_new_clause(r)):
                    cx.run.report("the logged literals are not the complete literal range of the new clause", n)
                return min(cx.ust + 1, 2)
            return cx.ust
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            if ust == 0 and not holds(facts, ("zero", lem), False): return "a clause can be created without a proof line although it is not an imported input clause"
            if ust == 2: return "a clause is logged twice"
        ck.run(rule, g, tr, 0, lambda k: k == ("zero", lem), final=fin)


def p_lemma_sites(ck, rule="the input flag is only set for clauses of an imported problem"):
    prog = ck.prog
    for f, e, x in sites(prog, DB + "::createClause"):
        t = prog.targets(x)
        if not t: continue
        bools = [n for n, p in enumerate(t[0].params) if p["t"] == "bool"]
        if not bools or bools[0] >= len(x["args"]): continue
        g = ck.graph(f, ("Candy::*",))
        v = g.val(g.rootframe, x["args"][bools[0]])
        src = g.val(g.rootframe, x["args"][0])
        subj = "%s (%s)" % (f.q, f.where(e))
        bad = [a for a in either(v) if a != ("int", 0)]
        imported = has(src, lambda w: w[0] == "param" and len(w) > 2 and isinstance(w[2], int) and w[2] < len(f.params) and "CNFProblem" in f.params[w[2]]["t"])
        if not bad:
            ck.judge(rule, subj, not imported or has(src, lambda w: w[0] == "call" and w[1].startswith("Candy::VariableElimination")) or only_if_unset(ck, f, e), f.where(e), "a clause of the input formula is written to the proof as if it were derived"); continue
        ck.judge(rule, subj, imported, f.where(e), "a derived clause is created with the input flag %s and never reaches the proof" % vstr(v))


def p_lemma_flag(ck, rule="formulas are handed over as input, so that they are not written to the proof"):
    """every init(problem, allocator, lemma) call passes the input flag on, or sets it"""
    prog = ck.prog
    for q in ("Candy::CandySolverInterface::init", DB + "::init", "Candy::Solver::init", "Candy::ARSolver::init"):
        try: ss = list(sites(prog, q))
        except AnalysisError: continue
        for f, e, x in ss:
            t = prog.targets(x)
            ix = [n for t0 in t[:1] for n, p in enumerate(t0.params) if p["t"] == "bool"]
            if len(ix) != 1 or ix[0] >= len(x["args"]): continue
            g = ck.graph(f, ("Candy::*",))
            v = g.val(g.rootframe, x["args"][ix[0]])
            ck.judge(rule, "%s (%s)" % (f.q, f.where(e)), ("int", 0) not in either(v), f.where(e), "the clauses of a given formula are treated as derived clauses and written to the proof")


def p_construct(ck, rule="clause objects are only constructed by the logging factory"):
    prog = ck.prog
    ctors = [f for f in prog.funcs.values() for e, x in f.elems() if x["k"] == "new" and x["nt"].replace("const ", "") == "Candy::Clause"]
    ctors = [f for f in set(ctors) if "/gates/" not in f.file]
    if not ctors: raise AnalysisError("no construction of clause objects found")
    only_via(ck, rule, ctors, [DB + "::createClause"], "clause constructed outside of the logging factory")
    # the working set only receives clauses from the factory or from the allocator
    for f, e, x, k in writes(prog, DB + "::clauses"):
        if k == "init": continue
        sn = short(x.get("fn", "")) if x["k"] == "call" else "="
        subj = "%s %s" % (f.where(e), sn)
        if sn in ("clear", "erase", "pop_back", "reserve", "shrink_to_fit", "resize", "swap") or k == "algo": ck.ok(rule, subj); continue
        g = ck.graph(f, ("Candy::*",))
        arg = x["args"][0] if x["k"] == "call" else x["b"]
        v = g.val(g.rootframe, arg)
        ok = v[0] == "new" or has(v, lambda w: w[0] == "call" and short(w[1]) in ("collect", "createClause") or w[0] == "new") or v[0] in ("param", "obj", "var", "local", "iter")
        ck.judge(rule, subj, ok, f.where(e), "the clause working set receives %s, which is neither a newly logged clause nor the allocator's content" % vstr(v))


def p_content(ck, rule="clause contents never change in place"):
    """literals and length of a clause are written by its constructor and the literal swap only (a changed clause would not be in the proof)"""
    prog = ck.prog
    n = 0
    for f, e, x, k in writes(prog, "Candy::Clause::literals", "Candy::Clause::length"):
        n += 1
        subj = f.where(e)
        if f.kind == "ctor" or k == "init": ck.ok(rule, subj); continue
        # a swap writes back values read from the same literal array
        r = prog.lvfield(f, x["a"]) if x["k"] in ("bin", "un") else None
        if r is not None and r[1] == "Candy::Clause::literals" and x["k"] == "bin" and x["op"] == "=":
            g = ck.graph(f, ("Candy::*",))
            v = g.val(g.rootframe, x["b"])
            tgt = g.val(g.rootframe, x["a"])
            ck.judge(rule, subj, v[0] == "at" and tgt[0] == "at" and v[1] == tgt[1], f.where(e), "a literal of an existing clause is overwritten with %s" % vstr(v)); continue
        if x["k"] == "call" and short(x.get("fn", "")) in ("swap", "iter_swap", "copy", "operator="):
            ck.ok(rule, subj); continue
        ck.bad(rule, subj, f.where(e), "%s modifies the literals or the length of an existing clause, so the clause in use is not the one in the proof" % f.q)
    if not n: raise AnalysisError("no writes of clause contents found")


def p_empty(ck, rule="deriving the empty clause is logged"):
    for f, e, x, k in writes(ck.prog, DB + "::emptyClause_"):
        if k == "init" or f.kind == "ctor": continue
        roots = [f]
        g0 = ck.graph(f, ("Candy::*",))
        v = g0.val(g0.rootframe, x["b"]) if x["k"] == "bin" else ("other",)
        if v == ("int", 0): continue
    # every public entry of the database that may set the flag logs the contradiction on the same path
    prog = ck.prog
    for f in [f for f in prog.funcs.values() if f.q.startswith(DB + "::") and DB + "::emptyClause_" in prog.mod(f.id) and f.kind != "ctor"]:
        if short(f.q) in ("clear",) or "lambda" in f.q: continue
        g = ck.graph(f, ALLOC + CLAUSE + (CERT + "::*",))
        def tr(n, cx):
            s, log = cx.ust
            if n.kind == "write" and n.x["k"] in ("bin", "call") and fieldof(cx.lhs()) == "emptyClause_":
                v = cx.rhs()
                if v != ("int", 0): return (True, log)
            if calls(CERT + "::proof")(n): return (s, True)
            if calls(CERT + "::added")(n): return (s, True)
            return cx.ust
        lems = [("param", p["n"] or "arg%d" % n, n, f.id) for n, p in enumerate(f.params) if p["t"] == "bool"]
        callers_in_db = [c for c in prog.callers_closure([f.id]) if prog.funcs[c].q.startswith(DB + "::") and c != f.id]
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            if ust[0] and not ust[1] and not any(holds(facts, ("zero", l), False) for l in lems):
                return "the database is marked contradictory without writing the empty clause to the proof"
        # a helper that only sets the flag is judged in its callers
        try_helper = callers_in_db and not any(calls(CERT + "::proof", CERT + "::added")(n) for n in g.nodes if n.x)
        if try_helper: continue
        ck.run(rule, g, tr, (False, False), lambda k: k[0] == "zero" and any(k[1] == l for l in lems), final=fin)


SOLVER_PRIMS = ("Candy::Sonification*", "Candy::Trail::*", "Candy::ReduceDB::*", "Candy::Restart::*", "Candy::VSIDS::*", "Candy::VSIDSC::*", "Candy::LRB::*", "Candy::RSIL*",
                "Candy::Propagate::*", "Candy::StaticPropagate::*", "Candy::ConflictAnalysis::*", "Candy::Subsumption::*", "Candy::VariableElimination::*", "Candy::AsymmetricVariableReduction::*",
                "Candy::SubsumptionClauseDatabase::*", "Candy::ClauseDatabase::*", "Candy::CandySolverResult::*", "Candy::ClauseAllocator::*")


def p_unsat(ck, rule="an unconditional UNSAT verdict ends the proof with the empty clause"):
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, [p for p in SOLVER_PRIMS if p != "Candy::CandySolverResult::*"])
        def tr(n, cx):
            if calls(DB + "::emptyClause")(n): return "proved"
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                ats = atoms(("op", "==", v, ("lb", 1)), False)
                notfalse = all(holds(cx.facts, k, w) for k, w in ats)
                if cx.ust != "proved" and not notfalse:
                    nonempty = any(k[0] == "lt" and k[2] == 1 and vv is False and k[1][0] == "size" and fieldof(k[1][1]) == "conflict" for k, vv in cx.facts.items())
                    if not nonempty: cx.run.report("UNSAT can be reported without assumptions being involved and without the empty clause in the proof", n)
            return cx.ust
        ck.run(rule, g, tr, None, lambda k: k[0] == "lbv" and not mentions(k, "value") or mentions(k, "conflict", "emptyClause_"), subject=f.pretty)


def p_reachproof(ck, rule="every clause produced by inference goes through the logging factory"):
    """the learnt clause, resolvents, strengthened and recreated clauses enter the database through createClause"""
    prog = ck.prog
    want = {"Candy::Solver::search": "learnt clauses", "Candy::VariableElimination::eliminate": "resolvents", "Candy::SubsumptionClauseDatabase::strengthen": "strengthened clauses",
            "Candy::Solver::propagateAndMaterializeUnitClauses": "derived unit clauses"}
    cc = set(f.id for f in ck.fns(DB + "::createClause"))
    for q, what in want.items():
        for f in prog.by_q.get(q, [])[:2]:
            ck.judge(rule, q, bool(prog.reachable([f]) & cc), f.where(), "%s no longer reach the logging factory" % what)




def p_units(ck, rule="units derived at the root level are logged before they are used as facts"):
    """facts are only installed from clauses of the database: every Trail::fact argument is a literal of a clause obtained from the database"""
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, [p for p in SOLVER_PRIMS])
        n0 = 0
        def tr(n, cx):
            if calls("Candy::Trail::fact")(n):
                v = cx.arg(0)
                ok = all(a[0] == "at" and (a[1][0] in ("call", "elem", "obj", "phi", "new")) for a in either(v))
                if not ok: cx.run.report("a fact is installed from %s, which is not a literal of a clause in the database" % vstr(v), n)
            return None
        ck.run(rule, g, tr, None, subject=f.pretty)


def p_rootunits(ck, rule="every literal propagated at the root level outside of the search enters the proof as a unit"):
    """between root-level propagation and the next step of the solver each literal the propagation put on the trail becomes a logged unit clause"""
    PR = tuple(p for p in SOLVER_PRIMS) + ("Candy::Solver::search",)
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, PR)
        isprop = lambda n: n.kind == "call" and short(n.fn()) == "propagate" and n.fn().rsplit("::", 2)[-2] in ("Propagate", "StaticPropagate")
        step = calls("Candy::Solver::search", "Candy::Subsumption::subsume", "Candy::VariableElimination::eliminate", "Candy::AsymmetricVariableReduction::reduce", "Candy::ReduceDB::reduce", DB + "::reorganize")
        def trail_end(v):
            return v[0] == "iter" and v[2] == "end" and mentions(v, "trail") or fieldof(v) == "trail_size" or v[0] == "call" and v[1] in ("Candy::Trail::size", "Candy::Trail::end")
        # state: (literals pending, (loop key, logged) or None)
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            pend, cur = cx.ust
            if calls(DB + "::emptyClause")(n): return (False, None)
            if isprop(n) or step(n) or n.kind == "ret" and n.frame is g.rootframe:
                if pend and not contra(cx.facts): cx.run.report("literals propagated at the root level are used without having been written to the proof as units", n)
                return (isprop(n), None)
            if cur is not None and calls(DB + "::createClause")(n): return (pend, (cur[0], True))
            return cx.ust
        def contra(facts):
            return any(k[0] == "zero" and v is False and (fieldof(k[1]) == "emptyClause_" or k[1][0] == "call" and short(k[1][1]) == "propagate") for k, v in facts.items())
        def edge(n, c, cx, st):
            if c[0] == "case": return st
            pend, cur = st
            if not pend: return st
            v, pol = cx.g.val(n.frame, c[0], dict(cx.env)), c[1]
            if any(k[0] == "zero" and w is False and fieldof(k[1]) == "emptyClause_" for k, w in atoms(v, pol)): return (False, None)
            while v[0] == "not": v, pol = v[1], not pol
            if v[0] == "op" and v[1] in ("!=", "==", "<", ">", "<=", ">="):
                a, b = v[2], v[3]; op = v[1]
                if trail_end(a) and not trail_end(b): a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                key = next((w for w in walk(a) if isinstance(w, tuple) and w and w[0] in ("ivar", "iterv")), None)
                if trail_end(b) and key is not None:
                    more = pol if op in ("!=", "<") else not pol
                    kk = key[1] if key[0] == "ivar" else key[3]
                    if cur is not None and cur[0] == kk and not cur[1]: cx.run.report("a literal propagated at the root level is not written to the proof as a unit", n)
                    if more: return (pend, (kk, False))
                    return (False, None)
            return st
        ck.run(rule, g, tr, (False, None), None, edge, subject=f.pretty)


def p_open(ck, rule="the proof is active exactly when its file could be opened"):
    f = [f for f in ck.fns(CERT + "::Certificate") if f.params and f.kind == "ctor"][0]
    g = ck.graph(f)
    def tr(n, cx):
        if n.kind == "write" and fieldof(cx.lhs()) == "active":
            v = cx.rhs()
            if v[0] == "int": return ("c", v[1])
            if v[0] == "call" and short(v[1]) == "is_open": return ("open",)
            return ("?",)
        return None
    def fin(kind, ust, facts, cx):
        if kind != "exit" or ust is None or ust[0] in ("open", "?"): return None
        op = [vv for k, vv in facts.items() if k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "is_open"]
        if ust[1] == 0 and (not op or op[0] is False): return "proof logging stays off although the proof file is open"
        if ust[1] == 1 and op and op[0] is True: return "proof logging is on although the proof file is not open"
    ck.run(rule, g, tr, None, lambda k: mentions(k, "is_open"), final=fin)
    # an old file is replaced
    for fo in ck.fns(CERT + "::Certificate"):
        go = ck.graph(fo)
        for n in go.nodes:
            if n.kind in ("call", "ctor") and n.x is not None and (short(n.fn()) == "open" or "basic_ofstream" in n.fn() and n.kind == "ctor") and len(n.x.get("args", [])) > 1:
                m = go.val(n.frame, n.x["args"][1])     # libstdc++: app 1, ate 2, in 8, out 16, trunc 32
                if m[0] != "int": continue
                ck.judge(rule, "open mode %s" % n.line(), not m[1] & 3 and (not m[1] & 8 or bool(m[1] & 32)), n.line(), "the proof is written into an existing file without replacing its contents")
    # nobody else switches it off
    for f, e, x, k in writes(ck.prog, CERT + "::active"):
        ck.judge(rule, f.where(e), f.kind == "ctor" or k == "init" or short(f.q) == "close" or not has_false(ck, f, x), f.where(e), "%s switches proof logging off" % f.q)
    only = [f for f in ck.prog.by_q.get(CERT + "::close", [])]
    if only: only_via_dtor(ck, rule, only)


def has_false(ck, f, x):
    g = ck.graph(f, ("Candy::*",))
    return x["k"] == "bin" and g.val(g.rootframe, x["b"]) == ("int", 0)


def only_via_dtor(ck, rule, fs):
    for f, e, x in sites(ck.prog, *[f.q for f in fs]):
        ck.judge(rule, f.where(e), "~" in f.q, f.where(e), "%s closes the proof before the database is destroyed" % f.q)


# ---------------------------------------------------------------- P02
SUBDB = "Candy::SubsumptionClauseDatabase"
SUBCL = "Candy::SubsumptionClause"


def p_remove(ck, rule="every removed clause is logged as deleted exactly once"):
    for f in ck.fns(DB + "::removeClause"):
        g = ck.graph(f, ALLOC + CLAUSE + (CERT + "::*",))
        cl = [("param", p["n"], n, f.id) for n, p in enumerate(f.params) if "Clause" in p["t"]][0]
        def tr(n, cx):
            a, b = cx.ust
            if calls(CERT + "::removed")(n):
                if full_range(cx) != cl: cx.run.report("the deletion line does not list the complete removed clause", n)
                return (min(a + 1, 2), b)
            if calls("Candy::ClauseAllocator::deallocate")(n):
                if cx.arg(0) != cl: cx.run.report("another clause than the logged one is released", n)
                return (a, min(b + 1, 2))
            return cx.ust
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            if ust[0] == 0: return "a clause is removed without a deletion line"
            if ust[0] == 2: return "a removed clause is logged twice"
            if ust[1] == 0: return "a deletion line is written for a clause that stays in use"
        ck.run(rule, g, tr, (0, 0), None, final=fin)


def p_remove_only(ck, rule="clauses are released and logged as deleted only by the removal operation"):
    prog = ck.prog
    T = {f for f, e, x in sites(prog, "Candy::Clause::setDeleted")}
    only_via(ck, rule, T, [DB + "::removeClause"], "clause marked as deleted without deletion line", allowed=["Candy::ClauseAllocatorMemory::import", "Candy::ClauseAllocator::synchronize"])
    T = {f for f, e, x in sites(prog, CERT + "::removed")}
    if not T: ck.bad(rule, "removed", prog.fn(CERT + "::removed")[0].where(), "deletion lines are never written")
    only_via(ck, rule, T, [DB + "::removeClause"], "deletion line without removal")
    for f, e, x, k in writes(prog, "Candy::Clause::weight"):
        g = ck.graph(f, ("Candy::*",))
        if x["k"] != "bin": continue
        v = g.val(g.rootframe, x["b"])
        if v == ("int", 65535) or has(v, lambda w: w[0] == "call" and short(w[1]) == "max" and not w[3]):
            ck.judge(rule, f.where(e), short(f.q) == "setDeleted", f.where(e), "%s marks a clause deleted behind the back of the proof" % f.q)


DERIVERS = (("Candy::Subsumption::subsume", 1), ("Candy::Subsumption::unit_resolution", 1), ("Candy::VariableElimination::eliminate", 3), (SUBDB + "::strengthen", 2), (SUBDB + "::remove", 1), (DB + "::strengthenClause", 2),
            ("Candy::AsymmetricVariableReduction::reduce", 1), ("Candy::ReduceDB::reduce", 0))


def clause_root(v):
    """the clause (or clause holder) whose literals a value refers to"""
    while isinstance(v, tuple) and v and v[0] in ("iter", "elem", "at", "iterv") or (isinstance(v, tuple) and v and v[0] == "field" and v[2] == SUBCL + "::clause"):
        v = v[1]
    return v


def p_order(ck, rule="a clause is derived before the clauses it stems from are deleted, and no clause is deleted twice"):
    prims = ALLOC + CLAUSE + (CERT + "::*", DB + "::createClause", DB + "::removeClause", SUBCL + "::subsumes", SUBCL + "::calc_abstraction", "Candy::Trail::*", "Candy::Propagate::*", "Candy::StaticPropagate::*", "Candy::Memory::*", "Candy::VariableElimination::merge")
    ve = "Candy::VariableElimination::eliminate"
    for q, np in DERIVERS:
        fs = [f for f in ck.prog.by_q.get(q, []) if len(f.params) == np]
        if not fs: raise AnalysisError("anchor vanished: " + q)
        for f in fs[:2]:
            g = ck.graph(f, prims)
            cnt = [0]
            def tr(n, cx):
                removed, filled = cx.ust
                if n.kind == "algoloop" or n.kind == "write" and (n.x["k"] == "un" or n.x.get("opcall") in ("++", "--", "+=")): return (frozenset(), filled)   # next element
                if n.kind == "write" and removed:
                    ks = cx.run.kills(n); lh = cx.lhs()
                    if fieldof(lh) == "clause": return (removed - frozenset(either(clause_root(lh))), filled)
                    live = frozenset(v for v in removed if not (cx.run.deps(v) & {k for k in ks if isinstance(k, tuple)}))
                    return (live, filled)
                if calls(DB + "::removeClause")(n):
                    cnt[0] += 1
                    a = clause_root(cx.arg(0))
                    if a in removed: cx.run.report("a clause is deleted a second time", n)
                    return (removed | {a}, filled) if a[0] not in ("phi", "cond") else cx.ust
                if calls(DB + "::createClause")(n):
                    src = clause_root(cx.arg(0))
                    if src in removed: cx.run.report("a clause is derived from the literals of an already deleted clause", n)
                    if removed and q == ve: cx.run.report("a resolvent is added after clauses of the eliminated variable have been deleted", n)
                return cx.ust
            ck.run(rule, g, tr, (frozenset(), frozenset()), None, subject=f.pretty)


def p_strengthen(ck, rule="strengthening replaces a clause by itself minus the given literal"):
    for f in ck.fns(DB + "::strengthenClause"):
        cl = [("param", p["n"], n, f.id) for n, p in enumerate(f.params) if "Clause" in p["t"]][0]
        li = [("param", p["n"], n, f.id) for n, p in enumerate(f.params) if p["t"].replace("const ", "").rstrip(" &") == "Candy::Lit"][0]
        g = ck.graph(f, ALLOC + CLAUSE + (CERT + "::*", DB + "::createClause", DB + "::removeClause"))
        fe = ForEach(lambda c: c == cl, lambda n, cx: meth("push_back", "emplace_back")(n) and cx.arg(0)[0] == "elem" and cx.arg(0)[1] == cl,
                     lambda cx: any(k[0] == "eq" and v is True and li in k[1:] and any(isinstance(w, tuple) and w[0] == "elem" and w[1] == cl for w in k[1:]) for k, v in cx.facts.items()))
        def tr(n, cx):
            st, made, gone = cx.ust
            if meth("push_back", "emplace_back")(n) and cx.arg(0)[0] == "elem" and cx.arg(0)[1] == cl:
                if not any(k[0] == "eq" and v is False and li in k[1:] for k, v in cx.facts.items()):
                    cx.run.report("the removed literal can remain in the strengthened clause", n)
            if calls(DB + "::createClause")(n):
                made = True
                if any(meth("push_back", "emplace_back")(m) for m in g.nodes if m.x) and not st[1]: cx.run.report("a literal other than the removed one is dropped from the strengthened clause", n)
            if calls(DB + "::removeClause")(n):
                gone = True
                if cx.arg(0) != cl: cx.run.report("another clause than the strengthened one is removed", n)
                if not made: cx.run.report("the strengthened clause is logged after the original has been deleted", n)
            if n.kind == "ret":
                v = cx.val(n.x["a"])
                if v == cl: cx.run.report("strengthening returns the removed clause", n)
            return (fe.step(n, cx, st), made, gone)
        def edge(n, c, cx, st):
            return (fe.edge(n, c, cx, st[0]), st[1], st[2])
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            if not ust[1]: return "strengthening does not create the strengthened clause"
            if not ust[2]: return "strengthening does not remove the original clause"
        ck.run(rule, g, tr, (ForEach.INIT, False, False), lambda k: k[0] == "eq" and li in k[1:], edge, final=fin, fe=[fe])


def p_subdb(ck, rule="simplification keeps its view and the clause database in step"):
    """remove(): the holder is marked deleted after the clause has been removed; strengthen(): the holder takes the new clause"""
    prims = ALLOC + CLAUSE + (CERT + "::*", DB + "::createClause", DB + "::removeClause", DB + "::strengthenClause", SUBCL + "::calc_abstraction", "Candy::Memory::*")
    for f in ck.fns(SUBDB + "::remove"):
        g = ck.graph(f, prims)
        h = ("param", f.params[0]["n"], 0, f.id)
        def tr(n, cx):
            rem, mark = cx.ust
            if calls(DB + "::removeClause")(n):
                if cx.arg(0) != ("field", h, SUBCL + "::clause"): cx.run.report("another clause than the requested one is removed", n)
                if mark: cx.run.report("the clause reference is dropped before the clause is removed", n)
                return (True, mark)
            if n.kind == "write" and cx.lhs() == ("field", h, SUBCL + "::clause") and cx.rhs() == ("int", 0): return (rem, True)
            return cx.ust
        def fin(kind, ust, facts, cx):
            if kind == "exit" and not ust[0]: return "the clause stays in the clause database"
            if kind == "exit" and not ust[1]: return "a removed clause is not marked as deleted and can be removed (and logged) again"
        ck.run(rule, g, tr, (False, False), None, final=fin)
    for f in ck.fns(SUBDB + "::strengthen"):
        g = ck.graph(f, prims)
        h = ("param", f.params[0]["n"], 0, f.id); l = ("param", f.params[1]["n"], 1, f.id)
        def tr(n, cx):
            if calls(DB + "::strengthenClause")(n):
                if cx.arg(0) != ("field", h, SUBCL + "::clause") or cx.arg(1) != l: cx.run.report("strengthening is applied to %s with %s" % (vstr(cx.arg(0)), vstr(cx.arg(1))), n)
                return "called"
            if n.kind == "write" and cx.lhs() == ("field", h, SUBCL + "::clause") and cx.ust == "called":
                return "reset" if has(cx.rhs(), lambda w: w[0] == "call" and w[1] == DB + "::strengthenClause") else cx.ust
        def fin(kind, ust, facts, cx):
            if kind == "exit" and ust != "reset": return "after strengthening the simplifier still refers to the removed clause"
        ck.run(rule, g, tr, None, None, final=fin)


def p_live(ck, rule="only clauses that are not yet deleted are removed or strengthened"):
    prims = ALLOC + CLAUSE + (CERT + "::*", DB + "::*", SUBCL + "::subsumes", SUBCL + "::calc_abstraction", "Candy::Memory::*")
    for q in ("Candy::Subsumption::subsume", "Candy::Subsumption::unit_resolution"):
        for f in [f for f in ck.fns(q) if len(f.params) == 1]:
            g = ck.graph(f, prims)
            def livefacts(cx, live):
                add = {k[1][1] for k, v in cx.facts.items() if k[0] == "zero" and v is False and k[1][0] == "field" and k[1][2] == SUBCL + "::clause"}
                return live | frozenset(add)
            def tr(n, cx):
                live = cx.ust
                if n.kind == "write":
                    ks = {k for k in cx.run.kills(n) if isinstance(k, tuple)}
                    return frozenset(v for v in live if not (cx.run.deps(v) & ks))
                if calls(SUBDB + "::remove", SUBDB + "::strengthen")(n):
                    for a in either(cx.arg(0)):
                        if a[0] == "param" or a[0] == "new": continue
                        if a not in live: cx.run.report("a clause that may already be deleted is processed again: %s" % vstr(a)[:80], n)
                return live
            def edge(n, c, cx, st): return livefacts(cx, st)
            ck.run(rule, g, tr, frozenset(), lambda k: k[0] == "zero" and k[1][0] == "field" and k[1][2] == SUBCL + "::clause", edge, subject=f.pretty)
    # the occurrence split of variable elimination skips deleted clauses
    f = [f for f in ck.fns("Candy::VariableElimination::eliminate") if not f.params][0]
    g = ck.graph(f, prims + ("Candy::Trail::*", "Candy::VariableElimination::merge"), only=None)
    def tr(n, cx):
        if meth("push_back", "emplace_back")(n) and cx.nargs() == 1:
            v = cx.arg(0)
            if v[0] == "elem" and mentions(v, "occurrences", "refOccurences") and "SubsumptionClause" in n.x.get("pt", [""])[0]:
                key = ("zero", ("field", v, SUBCL + "::clause"))
                if not holds(cx.facts, key, False): cx.run.report("a deleted clause takes part in variable elimination", n)
        return None
    ck.run(rule, g, tr, None, lambda k: k[0] == "zero" and k[1][0] == "field" and k[1][2] == SUBCL + "::clause", subject=f.pretty)




# ---------------------------------------------------------------- P03
def p_format(ck, rule="proof lines follow the DRAT text format"):
    def chars(n, cx):
        ev = out_event(n, cx)
        if ev is None or fieldof(ev[0]) != "out": return None
        t = ev[1]
        if t[0] == "endl": return "\n"
        if t[0] == "s": return t[1]
        if t[0] == "v":
            l = dimacs_of(t[1], cx.facts)
            if l is False: cx.run.report("a literal is written as %s, which is not its signed one-based number" % vstr(t[1]), n)
            if l is None: return "?"
            return "L"
        return ""
    for q, prefix, lits in ((CERT + "::added", "", True), (CERT + "::removed", "d", True), (CERT + "::proof", "", False)):
        for f in ck.fns(q):
            g = ck.graph(f)
            P = [("param", p["n"], n, f.id) for n, p in enumerate(f.params)]
            # line automaton: start -> (d) -> literals separated by blanks -> 0 -> newline
            def step(st, c, n, cx):
                k, word = st
                out = st
                for ch in c:
                    k, word = out
                    if ch in " \n":
                        if word == "": 
                            if ch == "\n" and k != "end": 
                                cx.run.report("a proof line ends without its terminating 0", n)
                            out = (("done", "") if ch == "\n" else (k, "")); continue
                        if word == "d" and k == "start": k = "lits" if prefix == "d" else "err"
                        elif word in ("L", "?"): k = "lits" if k in (("start", "lits") if prefix == "" else ("lits",)) and lits else "err"
                        elif word == "0": k = "end" if (k == "lits" or (k == "start" and prefix == "")) else "err"
                        else: k = "err"
                        if k == "err":
                            cx.run.report("malformed proof line: unexpected token %r" % word, n); k = "lits"
                        if ch == "\n":
                            if k != "end": cx.run.report("a proof line ends without its terminating 0", n)
                            out = ("done", "")
                        else: out = (k, "")
                    else:
                        if k == "done": cx.run.report("text after the end of the proof line", n); return ("err", "")
                        if word in ("L", "?") or (ch in "L?" and word): cx.run.report("two tokens of a proof line are not separated", n)
                        out = (k, word + ch)
                return out
            def tr(n, cx):
                c = chars(n, cx)
                if c is None: return cx.ust
                act = [v for k, v in cx.facts.items() if k[0] == "zero" and fieldof(k[1]) == "active"]
                fst, s, lp = cx.ust
                if "L" in c or "?" in c: lp = ("in", True) if lp and lp[0] == "in" else lp
                return (True, step(s, c, n, cx), lp)
            def edge(n, c, cx, st):
                if c[0] == "case" or not lits: return st
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                a = None
                w, pol = v, c[1]
                while w[0] == "not": w, pol = w[1], not pol
                if w[0] == "op" and w[1] in ("==", "!=", "<"):
                    x, y = w[2], w[3]
                    if y[0] == "ivar": x, y = y, x
                    if x[0] == "ivar" and x[2] == P[0] and y == P[1] and all(q in ("++", "p++") for q in x[3]):
                        more = (w[1] != "==") == pol
                        if st[2] and st[2] == ("in", False): cx.run.report("a literal of the clause is missing in the proof line", n)
                        return (st[0], st[1], ("in", False) if more else ("done",))
                return st
            def fin(kind, ust, facts, cx):
                if kind != "exit": return None
                act = [v for k, v in facts.items() if k[0] == "zero" and fieldof(k[1]) == "active"]
                on = act and act[0] is False; off = act and act[0] is True
                if ust[1][0] == "start" and not ust[0] and not off: return "no proof line is written although logging is active"
                if ust[0] and off: return "a proof line is written although logging is off"
                if ust[0] and ust[1] != ("done", ""): return "the proof line is not terminated"
                if ust[0] and lits and ust[2] != ("done",) and P: return "the proof line does not list all literals of the clause"
            ck.run(rule, g, tr, (False, ("start", ""), None), lambda k: k[0] == "zero" and (fieldof(k[1]) == "active" or k[1][0] == "sign_of"), edge, final=fin)


P01 = [p_create, p_lemma_sites, p_lemma_flag, p_construct, p_content, p_empty, p_unsat, p_reachproof, p_units, p_rootunits, p_open]
P02 = [p_remove, p_remove_only, p_order, p_strengthen, p_subdb, p_live]
P03 = [p_format, p_open]
