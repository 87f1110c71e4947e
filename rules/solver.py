"""Solver core: P04 model publication, P05 variable elimination, P06 watcher freshness."""
from .lib import *
from .cnf import sat_table

DB = "Candy::ClauseDatabase"
VE = "Candy::VariableElimination"
RES = "Candy::CandySolverResult"
SDB = "Candy::SubsumptionClauseDatabase"
UNITS = ("Candy::Sonification*", "Candy::Trail::*", "Candy::ReduceDB::*", "Candy::Restart::*", "Candy::VSIDS::*", "Candy::VSIDSC::*", "Candy::LRB::*", "Candy::RSIL*", "Candy::ImplicitLearningAdvice*",
         "Candy::Propagate::*", "Candy::StaticPropagate::*", "Candy::ConflictAnalysis::*", "Candy::Subsumption::*", VE + "::*", "Candy::AsymmetricVariableReduction::*",
         SDB + "::*", DB + "::*", RES + "::*", "Candy::ClauseAllocator::*")


# ---------------------------------------------------------------- P04
def m_solve(ck, rule="solve publishes a model exactly for satisfiable answers, after completing it, and forgets earlier answers first"):
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, UNITS + ("Candy::Solver::search", "Candy::Solver::processClauseDatabase", "Candy::Solver::propagateAndMaterializeUnitClauses"))
        pub = on("result", "setModel", "setModelValue"); anyset = on("result", "setModel", "setModelValue", "setConflict", "setStatus")
        # state: cleared, model published, eliminated variables completed, status value, backtracked after publication
        def tr(n, cx):
            cl, mod, elim, stat, bt = cx.ust
            if n.kind == "call":
                if on("result", "clear")(n, cx): cl, mod, stat = True, False, None
                elif anyset(n, cx):
                    if not cl: cx.run.report("a new answer is recorded before the previous one has been discarded", n)
                    if short(n.fn()) == "setStatus": stat = cx.arg(0)
                    elif pub(n, cx):
                        if not elim: cx.run.report("the model is published before the eliminated variables have been assigned", n)
                        if bt: cx.run.report("the model is read after the assignment has been retracted", n)
                        mod = True
                elif n.fn() == VE + "::propagate_eliminated_variables":
                    if bt: cx.run.report("eliminated variables are assigned after the assignment has been retracted", n)
                    elim = True
                elif short(n.fn()) == "search": elim = mod = bt = False
                elif on("trail", "backtrack", "reset")(n, cx):
                    if n.fn().endswith("reset") or cx.arg(0) == ("int", 0): bt = True
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if mod and not lbs(cx.facts, v, [0]): cx.run.report("a model is published although the answer may be other than satisfiable", n)
                if not mod and not lbs(cx.facts, v, [1, 2]): cx.run.report("the answer can be satisfiable without a published model", n)
                if not cl: cx.run.report("the previous answer is never discarded", n)
                if stat is None: cx.run.report("the answer is not recorded", n)
                elif stat != v and lbv_of(cx.facts, stat) != lbv_of(cx.facts, v): cx.run.report("the recorded status differs from the returned one", n)
                if not bt and not lbs(cx.facts, v, [1, 2]): cx.run.report("the assignment is not retracted after the answer", n)
            return (cl, mod, elim, stat, bt)
        ck.run(rule, g, tr, (False, False, False, None, False), lambda k: k[0] == "lbv" and not mentions(k, "value"), subject=f.pretty)


def lit_value(lit, val):
    """is val the lifted boolean that makes lit true (sign set: false)?  True / False / None (unrecognised)"""
    def ev(v, sign):
        if v[0] == "lb": return v[1]
        if v[0] == "lbool":
            b = boolsign(v[1], sign, {"lit": lit}); return None if b is None else (0 if b else 1)
        if v[0] == "cond":
            c = boolsign(v[1], sign, {"lit": lit})
            return None if c is None else ev(v[2] if c else v[3], sign)
        if v[0] == "lbxor":
            a = ev(v[1], sign); b = boolsign(v[2], sign, {"lit": lit})
            return None if a is None or b is None else ({0: 1, 1: 0, 2: 2}[a] if b else a)
        return None
    a, b = ev(val, 0), ev(val, 1)
    if a is None or b is None: return None
    return (a, b) == (0, 1)


def lit_value_f(facts, lit, val):
    """same, with the sign possibly decided by the path facts"""
    for k, v in facts.items():
        if k == ("zero", ("sign_of", lit)):
            if val[0] == "lb": return val[1] == (0 if v else 1)
    return lit_value(lit, val)


def m_values(ck, rule="the value stored for a variable is the polarity of its true literal"):
    for q, fld in ((RES + "::setModelValue", "model"), (RES + "::setMinimizedModelValue", "minimizedModel")):
        for f in ck.fns(q):
            g = ck.graph(f); l = P(f, 0)
            def tr(n, cx):
                if n.kind == "write" and n.x["k"] in ("bin", "call"):
                    lh = cx.lhs()
                    if lh[0] == "at" and fieldof(lh[1]) == fld:
                        if lh[2] != ("var_of", l): cx.run.report("the value is stored for %s instead of the literal's variable" % vstr(lh[2]), n); return True
                        r = lit_value_f(cx.facts, l, cx.rhs())
                        if r is False: cx.run.report("the stored value %s is not the one that makes the literal true" % vstr(cx.rhs()), n)
                        return True
                if n.kind == "call" and on(fld, "resize")(n, cx):
                    d = linear1(cx.arg(0), ("var_of", l))
                    if d is not None and d < 1: cx.run.report("the model is resized to %s, too small for the literal's variable" % vstr(cx.arg(0)), n)
                    if cx.nargs() < 2: cx.run.report("variables without a value are not marked undefined when the model grows", n)
                    elif cx.arg(1) != ("lb", 2) : cx.run.report("variables without a value are reported as %s" % vstr(cx.arg(1)), n)
                return cx.ust
            def fin(kind, ust, facts, cx):
                if kind == "exit" and not ust: return "the value of the literal is not stored"
            ck.run(rule, g, tr, False, lambda k: k[0] == "zero" and k[1][0] == "sign_of", final=fin)
    f = ck.fns(RES + "::setModel")[0]
    g = ck.graph(f, (RES + "::setModelValue",)); t = P(f, 0)
    isTrail = lambda c: c == t or c[0] == "field" and c[1] == t and fieldof(c) == "trail"
    fe = ForEach(isTrail, lambda n, cx: calls(RES + "::setModelValue")(n) and cx.arg(0)[0] == "elem")
    each(ck, rule, g, fe, "an assigned literal is missing in the model", soft=True)
    # reading back
    sat_table(ck, rule)
    for q, fld in ((RES + "::getModelLiterals", "model"), (RES + "::getMinimizedModelLiterals", "minimizedModel"), (RES + "::value", "model")):
        for f in ck.fns(q):
            g = ck.graph(f)
            def tr(n, cx):
                v = None
                if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back"):
                    if cx.nargs() == 1: v = cx.arg(0)
                    elif cx.nargs() == 2: v = ("mk", "Candy::Lit", (cx.arg(0), cx.arg(1)))
                elif n.kind == "ret" and short(q) == "value": v = cx.val(n.x["a"])
                if v is None or v[0] != "mk": return None
                var, sign = v[2]
                ent = [(k, s) for k, s in cx.facts.items() if k[0] == "lbv" and mentions(k, fld)]
                same = [s for k, s in ent if k[1][0] in ("at", "elem")]
                if is_int(sign) and len(same) == 1:
                    want = frozenset([1 if sign[1] else 0])
                    if same[0] <= want: return None
                    if not (same[0] & want): cx.run.report("a variable with value %s is reported as a %s literal" % ("/".join("TFU"[i] for i in same[0]), "negative" if sign[1] else "positive"), n)
                    elif not same[0] <= want: cx.run.report("a variable that may be %s is reported as a %s literal" % ("/".join("TFU"[i] for i in same[0] - want), "negative" if sign[1] else "positive"), n)
                elif is_int(sign) and not same: cx.run.report("a literal is reported without consulting the stored value", n)
                return None
            ck.run(rule, g, tr, None, lambda k: k[0] == "lbv")


def linear1(v, base):
    """constant c when v == base + c"""
    if v == base: return 0
    if v[0] == "op" and v[1] == "+":
        if is_int(v[3]):
            r = linear1(v[2], base); return None if r is None else r + v[3][1]
        if is_int(v[2]):
            r = linear1(v[3], base); return None if r is None else r + v[2][1]
    if v[0] == "op" and v[1] == "-" and is_int(v[3]):
        r = linear1(v[2], base); return None if r is None else r - v[3][1]
    return None


def each(ck, rule, g, fe, msg, track=None, soft=False, subject=None):
    """a complete pass of fe happens on every path to the exit"""
    def tr(n, cx): return fe.step(n, cx, cx.ust) if n.kind != "block" else cx.ust
    def edge(n, c, cx, st): return fe.edge(n, c, cx, st)
    def fin(kind, ust, facts, cx):
        if kind == "exit" and not ust[1]: return msg
    return ck.run(rule, g, tr, ForEach.INIT, track, edge, final=fin, subject=subject, fe=[fe])


def m_extend(ck, rule="eliminated variables are assigned in reverse order of elimination so that their clauses are satisfied"):
    f = ck.fns(VE + "::propagate_eliminated_variables")[0]
    g = ck.graph(f, ("Candy::Trail::set_value",))
    E = lambda v: v[0] in ("elem", "at") and fieldof(v[1]) == "eliminiated_variables"
    clauses_of = lambda v: v[0] == "at" and fieldof(v[1]) == "eliminated_clauses" and E(v[2])
    def unsat_facts(cx):
        """clauses known to have no true literal"""
        out = set()
        for k, v in cx.facts.items():
            if k[0] == "zero" and k[1][0] == "algo" and k[1][1] == ("any_of" if v else "none_of"): out.add(k[1][2])
            elif k[0] == "zero" and v and k[1][0] == "call" and short(k[1][1]) == "satisfies" and k[1][3] and k[1][3][0][0] == "iter": out.add(k[1][3][0][1])
        return out
    loops = set()
    def edge(n, c, cx, st):
        if c[0] != "case":
            lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
            if lc is not None and fieldof(lc[0]) == "eliminiated_variables":
                loops.add(lc[2])
                if lc[2] == "fwd": cx.run.report("eliminated variables are completed in the order of their elimination instead of the reverse order", n)
            if lc is not None and clauses_of(lc[0]) and lc[2] not in ("fwd", "rev"): cx.run.report("stored clauses of an eliminated variable are not examined when its value is chosen", n)
        return st | frozenset(unsat_facts(cx))
    def tr(n, cx):
        un = cx.ust
        if n.kind == "write" and un:
            ks = {k for k in cx.run.kills(n) if isinstance(k, tuple)}
            un = frozenset(v for v in un if not (cx.run.deps(v) & ks))
        if calls("Candy::Trail::set_value", "Candy::Trail::decide", "Candy::Trail::propagate")(n):
            v = cx.arg(0)
            l, ng = (v[1], True) if v[0] == "neg" else (v, False)
            if l[0] == "elem":
                cl = l[1]
                isvar = any(k[0] == "eq" and w is True and ("var_of", l) in k[1:] and any(isinstance(y, tuple) and E(y) for y in k[1:]) for k, w in cx.facts.items())
                if not isvar: cx.run.report("a literal of another variable than the eliminated one is assigned", n)
                inlist = cl[0] in ("elem", "at") and clauses_of(cl[1])
                if not inlist: return un
                if not ng and cl not in un: cx.run.report("the value is taken from a clause that may already be satisfied", n)
                if ng and cl in un: cx.run.report("the eliminated variable is set so that an unsatisfied clause stays unsatisfied", n)
        return un
    ck.run(rule, g, tr, frozenset(), lambda k: k[0] == "eq" and mentions(k, "eliminiated_variables") or k[0] == "zero" and (k[1][0] == "algo" or mentions(k[1], "satisfies")), edge)


def m_search(ck, rule="satisfiable is only answered for a propagated, conflict-free, complete assignment that meets all assumptions"):
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, UNITS)
        prop = on("propagator", "propagate")
        changes = on("trail", "decide", "propagate", "set_value", "fact")
        def tr(n, cx):
            if n.kind == "call":
                if prop(n, cx): return ("p", None)
                if changes(n, cx) or on("trail", "backtrack")(n, cx): return ("dirty", None)
                if on("branch", "pickBranchLit")(n, cx): return (cx.ust[0], "picked")
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if lbs(cx.facts, v, [1, 2]): return None
                if cx.ust[0] != "p": cx.run.report("satisfiable is answered although the last assignment has not been propagated", n)
                noconf = any(k[0] == "zero" and w is True and mentions(k, "propagate") for k, w in cx.facts.items())
                if not noconf: cx.run.report("satisfiable is answered although propagation may have found a conflict", n)
                full = any(k[0] == "eq" and w is True and mentions(k, "lit_Undef") and mentions(k, "pickBranchLit") for k, w in cx.facts.items())
                if not full: cx.run.report("satisfiable is answered although variables may be unassigned", n)
                if any(k[0] == "eq" and w is True and mentions(k, "lit_Undef") and mentions(k, "assumptions") for k, w in cx.facts.items()): return None    # not a literal
                ass = any(k[0] == "lt" and w is False and mentions(k, "assumptions") and mentions(k, "decisionLevel") for k, w in cx.facts.items())
                if not ass: cx.run.report("satisfiable is answered although assumptions may not be set", n)
            return None
        ck.run(rule, g, tr, ("dirty", None), lambda k: mentions(k, "propagate", "pickBranchLit", "assumptions", "lit_Undef") , subject=f.pretty)


def m_forget(ck, rule="discarding an answer resets the status and drops models and conflict"):
    for f in ck.fns(RES + "::clear"):
        g = ck.graph(f)
        need = {"status", "model", "minimizedModel", "conflict"}
        def tr(n, cx):
            if n.kind == "write" and n.x["k"] in ("bin", "call"):
                l = cx.lhs()
                if l[0] == "field" and fieldof(l) in need:
                    if fieldof(l) == "status" and cx.rhs() is not None and cx.rhs()[0] == "lb" and cx.rhs() != ("lb", 2): cx.run.report("discarding an answer sets the status to %s" % vstr(cx.rhs()), n)
                    return cx.ust | {fieldof(l)}
            if n.kind == "call" and n.x.get("obj", -1) >= 0 and short(n.fn()) in ("clear", "resize", "swap", "assign", "erase") and fieldof(cx.obj()) in need: return cx.ust | {fieldof(cx.obj())}
            return cx.ust
        def fin(kind, ust, facts, cx):
            if kind == "exit" and ust and need - ust: return "%s of an earlier answer can survive" % " and ".join(sorted(need - ust))
        ck.run(rule, g, tr, frozenset(), "all", final=fin, subject=f.q)


def m_assumed(ck, rule="an assumption is passed over only if it is already true"):
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, UNITS)
        isA = lambda v: has(v, lambda w: w[0] == "call" and short(w[1]) == "nextAssumption" or w[0] in ("at", "elem") and fieldof(w[1]) == "assumptions")
        def tr(n, cx):
            if n.kind != "call": return cx.ust
            if on("trail", "newDecisionLevel")(n, cx):
                vs = [s for k, s in cx.facts.items() if k[0] == "lbv" and isA(k)]
                sat = any(s == frozenset([0]) for s in vs) or any(k[0] == "zero" and v is False and k[1][0] == "call" and short(k[1][1]) == "satisfies" and isA(k) for k, v in cx.facts.items())
                return "pass" if vs and not sat else ""
            if on("trail", "decide", "propagate", "backtrack", "reset")(n, cx): return ""
            if cx.ust == "pass" and (on("trail", "hasAssumptionsNotSet", "nextAssumption")(n, cx) or on("branch", "pickBranchLit")(n, cx)):
                cx.run.report("an assumption that may not be true is passed over", n); return ""
            return cx.ust
        ck.run(rule, g, tr, "", "all", subject=f.pretty)


P04 = [m_forget, m_assumed, m_solve, m_values, m_extend, m_search]


# ---------------------------------------------------------------- P05
def not_elim(k, v):
    """the fact says that a variable has no stored clauses (is not eliminated)"""
    if not mentions(k, "eliminated_clauses", "is_eliminated"): return False
    if k[0] == "lt": return v is True if k[2] == 1 else v is False and isinstance(k[2], tuple) and mentions(k[2], "eliminated_clauses")
    return k[0] == "zero" and v is True or k[0] in ("and", "or") and v is False


def ve_eliminate(f2):
    return [f for f in f2 if len(f.params) == 3]


def full_copy_of(v, what):
    """does value v hold all literals of clause value `what` (constructed from its full range)?"""
    for w in walk(v):
        if isinstance(w, tuple) and w and w[0] in ("mk", "ilist", "call"):
            xs = w[2] if w[0] == "mk" else w[1] if w[0] == "ilist" else w[3]
            if len(xs) >= 2 and xs[0] == ("iter", what, 0) and xs[1] == ("iter", what, "end"): return True
    return v == what


def clause_of_elem(v, cont):
    """v is (the clause of) an element of container cont"""
    if v[0] == "field" and fieldof(v) == "clause": v = v[1]
    return v[0] == "elem" and v[1] == cont


def e_commit(ck, rule="eliminating a variable stores all its clauses, adds all resolvents, then removes all its clauses and records the elimination"):
    for f in ve_eliminate(ck.fns(VE + "::eliminate")):
        g = ck.graph(f, (VE + "::merge", SDB + "::*", "Candy::Trail::*"))
        var = P(f, 0); pos, neg = P(f, 1), P(f, 2)
        def store(c):
            def ev(n, cx):
                if not (n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back")): return False
                o = cx.obj()
                if not (o[0] == "at" and fieldof(o[1]) == "eliminated_clauses" and o[2] == var): return False
                if cx.nargs() == 2: a = ("ilist", (cx.arg(0), cx.arg(1)))
                else: a = cx.arg(0)
                return has(a, lambda w: w[0] == "iter" and w[2] == 0 and clause_of_elem(w[1], c)) and has(a, lambda w: w[0] == "iter" and w[2] == "end" and clause_of_elem(w[1], c))
            return ev
        def rem(c): return lambda n, cx: calls(SDB + "::remove")(n) and clause_of_elem(cx.arg(0), c)
        machines = {"store positive": ForEach(lambda c: c == pos, store(pos)), "store negative": ForEach(lambda c: c == neg, store(neg)),
                    "remove positive": ForEach(lambda c: c == pos, rem(pos)), "remove negative": ForEach(lambda c: c == neg, rem(neg)),
                    "resolve": ForPairs((pos, neg), lambda n, cx: calls(SDB + "::create")(n),
                                       lambda cx: any(k[0] == "zero" and v is True and k[1][0] == "call" and short(k[1][1]) == "merge" and k[1][3][3][0] in ("field", "obj") and "size" not in vstr(k[1][3][3]) for k, v in cx.facts.items()))}
        names = list(machines)
        def tr(n, cx):
            st, removed, recorded, flag = cx.ust
            if calls(SDB + "::remove")(n):
                for w in ("store positive", "store negative"):
                    if not st[names.index(w)][1]: cx.run.report("clauses are removed before every %s clause has been stored" % w.split()[1], n)
                removed = True
            if on("eliminiated_variables", "push_back", "emplace_back")(n, cx):
                recorded = cx.arg(0) == var
            if calls("Candy::Trail::setDecisionVar")(n) and cx.arg(0) == var: flag = cx.arg(1) == ("int", 0)
            if n.kind == "block": return cx.ust
            return (tuple(m.step(n, cx, s) for m, s in zip(machines.values(), st)), removed, recorded, flag)
        def edge(n, c, cx, u):
            return (tuple(m.edge(n, c, cx, s) for m, s in zip(machines.values(), u[0])),) + u[1:]
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            st, removed, recorded, flag = ust
            if not removed and not recorded: return None
            # vacuous: nothing to remove
            if recorded and not (st[2][1] and st[3][1]): return "a clause of the eliminated variable stays in the problem"
            if recorded and not (st[0][1] and st[1][1]): return "a clause of the eliminated variable is not stored"
            if removed and not recorded: return "clauses are removed without recording the elimination, so the variable cannot be completed or restored"
            if recorded and not flag: return "an eliminated variable stays eligible for decisions"
            if recorded and not st[4][1]: return "a resolvent of the eliminated variable is not added"
        ck.run(rule, g, tr, (tuple(m.INIT for m in machines.values()), False, False, False), lambda k: k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "merge", edge, final=fin, fe=machines.values())
        # resolvents are exactly what merge produced from the pair
        def guard(cx):
            a = cx.arg(0)
            return a[0] == "iter" and a[2] == 0 and cx.arg(1) == ("iter", a[1], "end") and any(k[0] == "zero" and v is False and k[1][0] == "call" and short(k[1][1]) == "merge" and len(k[1][3]) > 3 and k[1][3][3] == a[1] for k, v in cx.facts.items())
        only_when(ck, "a resolvent is added only if merging its two parents succeeded", g, calls(SDB + "::create"), guard, "a clause is added that is not the complete result of a successful merge", lambda k: k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "merge", need=True)


def e_merge(ck, rule="resolution keeps every literal of both parents except the eliminated variable"):
    for f in ck.fns(VE + "::merge"):
        if "vector" not in f.params[3]["t"]: continue
        g = ck.graph(f, (), leaf=True)
        a, b, v, out = P(f, 0), P(f, 1), P(f, 2), P(f, 3)
        got = {}
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            covered, cur, cleared = cx.ust
            if n.kind == "call" and cx.obj() == out if n.kind == "call" and n.x.get("obj", -1) >= 0 else False:
                sn = short(n.fn())
                if sn == "clear": return (covered, cur, True)
                if sn in ("push_back", "emplace_back"):
                    l = cx.arg(0)
                    if not cleared: cx.run.report("the resolvent is not cleared before it is built", n)
                    if l[0] != "elem" or not (set(either(l[1])) <= {a, b}):
                        cx.run.report("the resolvent receives %s, which is not a literal of a parent" % vstr(l), n)
                    elif not any(k[0] == "eq" and w is False and ("var_of", l) in k[1:] and v in k[1:] for k, w in cx.facts.items()):
                        cx.run.report("the eliminated variable can remain in the resolvent", n)
                    if cur is not None: cur = (cur[0], True, cur[2], cur[3])
            if n.kind == "ret":
                r = cx.val(n.x["a"])
                if r == ("int", 0):
                    taut = any(k[0] == "eq" and w is True and any(isinstance(y, tuple) and y[0] == "neg" for y in k[1:]) for k, w in cx.facts.items())
                    taut = taut or any(k[0] == "zero" and w is False and has(k, lambda y: y[0] == "call" and short(y[1]) == "contains" and y[3] and y[3][0][0] == "neg") for k, w in cx.facts.items())
                    sgn = any(k[0] == "eq" and w is False and mentions(k, "sign_of") or has(k, lambda y: y[0] == "sign_of") for k, w in cx.facts.items())
                    if not taut and not sgn: cx.run.report("a resolvent is discarded although it may not be a tautology", n)
                elif r == ("int", 1):
                    if not covers(covered, a, b): cx.run.report("literals of a parent are missing in the resolvent", n)
            return (covered, cur, cleared)
        def covers(cov, a, b):
            cs = list(cov)
            for i, x in enumerate(cs):
                for y in cs[i + 1:]:
                    if x != y and set(either(x)) | set(either(y)) >= {a, b}: return True
            return False
        def edge(n, c, cx, st):
            covered, cur, cleared = st
            if c[0] != "case":
                lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                if lc is not None and set(either(lc[0])) <= {a, b} and lc[2] in ("fwd", "rev"):
                    ok = True
                    if cur is not None and cur[0] == lc[0]: ok = cur[1] and cur[2]
                    if lc[1]: return (covered, (lc[0], False, ok, lc[3]), cleared)
                    return (covered | ({lc[0]} if ok else set()), None, cleared)
            if cur is not None and not cur[1]:
                el = ("elem", cur[0], cur[3])
                ex = False
                for k, w in cx.facts.items():
                    if k[0] == "eq" and w is True and ("var_of", el) in k[1:] and v in k[1:]: ex = True
                    # a literal of the same variable occurs in the other parent (searched there)
                    if k[0] == "eq" and w is False and any(isinstance(y, tuple) and y[0] == "iter" and y[2] == "end" for y in k[1:]) and has(k, lambda y: y[0] == "algo" and y[1] in ("find_if", "find")): ex = True
                    if k[0] == "zero" and w is False and has(k, lambda y: y[0] == "algo" and y[1] == "any_of"): ex = True
                    if k[0] == "zero" and w is False and has(k, lambda y: y[0] == "call" and short(y[1]) == "contains"): ex = True
                if ex: cur = (cur[0], True, cur[2], cur[3])
            return (covered, cur, cleared)
        ck.run(rule, g, tr, (frozenset(), None, False), lambda k: k[0] in ("eq", "zero"), edge)
    # the size-only variant must agree on tautologies
    for f in ck.fns(VE + "::merge"):
        if "vector" in f.params[3]["t"]: continue
        g = ck.graph(f)
        def ev(n, cx): return n.kind == "ret" and cx.val(n.x["a"]) == ("int", 0)
        only_when(ck, rule, g, ev, lambda cx: any(k[0] == "eq" and w is True and any(isinstance(y, tuple) and y[0] == "neg" for y in k[1:]) or has(k, lambda y: y[0] == "sign_of") for k, w in cx.facts.items()),
                  "a resolvent is skipped although it may not be a tautology", lambda k: k[0] == "eq")


def e_candidates(ck, rule="only unassigned variables that are neither assumptions nor already eliminated are eliminated"):
    f = [f for f in ck.fns(VE + "::eliminate") if not f.params][0]
    g = ck.graph(f, tuple(x for x in (VE + "::merge", SDB + "::*", "Candy::Trail::*")), only=lambda q: True)
    el = ve_eliminate(ck.fns(VE + "::eliminate"))[0]
    # (1) frozen variables are computed from the current assumptions first
    fe = ForEach(lambda c: fieldof(c) == "assumptions", wr(lambda l: l[0] in ("at", "elem") and fieldof(l[1]) == "frozen" and l[2] and has(l[2], lambda w: w[0] == "elem" and fieldof(w[1]) == "assumptions")))
    def tr(n, cx):
        if n.kind == "block": return cx.ust
        st = fe.step(n, cx, cx.ust)
        if n.kind == "call" and n.x.get("fid") == el.id:
            v = cx.arg(0)
            if not st[1]: cx.run.report("variables are eliminated before the assumptions have been protected", n)
            if not lbs(cx.facts, ("call", "Candy::Trail::value", ("field", ("this",), VE + "::trail"), (v,)), [2]):
                if not any(k[0] == "lbv" and s <= frozenset([2]) and has(k, lambda w: w == v) for k, s in cx.facts.items()):
                    cx.run.report("a variable that may be assigned is eliminated", n)
            direct = any(k[0] == "zero" and w is True and has(k, lambda y: y[0] in ("at", "elem") and fieldof(y[1]) == "frozen") for k, w in cx.facts.items())
        if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and "Var" in n.x.get("pt", [""])[0] and cx.nargs() == 1:
            v = cx.arg(0)
            o = cx.obj()
            if o[0] == "obj":
                fz = any(k[0] == "zero" and w is True and k[1][0] in ("at", "elem") and fieldof(k[1][1]) == "frozen" for k, w in cx.facts.items())
                if not fz: cx.run.report("a frozen variable (an assumption) can be selected for elimination", n)
                ne = any(not_elim(k, w) for k, w in cx.facts.items())
                if not ne: cx.run.report("an already eliminated variable can be selected for elimination", n)
        return st
    def edge(n, c, cx, st): return fe.edge(n, c, cx, st)
    ck.run(rule, g, tr, ForEach.INIT, lambda k: mentions(k, "frozen", "eliminated_clauses", "value", "is_eliminated"), edge, fe=[fe])


def e_split(ck, rule="all clauses with the variable that are not deleted take part in its elimination"):
    """the two lists handed to eliminate(variable, pos, neg) are filled with every occurrence that is not deleted"""
    el = ve_eliminate(ck.fns(VE + "::eliminate"))[0]
    for f in [f for f in ck.fns(VE + "::eliminate") if not f.params]:
        g = ck.graph(f, (VE + "::merge", "Candy::Trail::*", el.q) + tuple(x for x in (SDB + "::create", SDB + "::remove", SDB + "::strengthen")))
        calls_el = [n for n in g.nodes if n.kind == "call" and n.x.get("fid") == el.id]
        if not calls_el: ck.note(rule, "%s: no direct elimination step" % f.where()); continue
        occ = lambda c: mentions(c, "occurrences", "refOccurences")
        isel = lambda w: w[0] == "elem" and occ(w[1])
        push = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and cx.obj()[0] == "obj" and isel(cx.arg(0))
        def gone(cx):
            return any(v is True and (k[0] == "zero" and fieldof(k[1]) == "clause" and isel(k[1][1]) or k[0] == "eq" and any(fieldof(x) == "clause" and isel(x[1]) for x in k[1:]))
                       or v is False and k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "is_deleted" for k, v in cx.facts.items())
        fe = ForEach(occ, push, gone)
        def tr(n, cx):
            st, pol = cx.ust
            if n.kind == "call" and n.x.get("fid") == el.id:
                if not st[1] and fe.seen: cx.run.report("a clause with the variable can be left out of its elimination", n)
                return (ForEach.INIT, frozenset())
            if push(n, cx):
                for k, v in cx.facts.items():
                    if k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "contains" and k[1][3]:
                        l = k[1][3][0]
                        if l[0] == "mk":
                            sg = len(l[2]) > 1 and l[2][1] == ("int", 1)
                        elif l[0] == "neg": sg = True
                        else: continue
                        p = (cx.obj(), sg == v)
                        if (p[0], not p[1]) in pol: cx.run.report("clauses of both polarities of the variable are not told apart", n)
                        pol = pol | {p}
            return (fe.step(n, cx, st), pol)
        def edge(n, c, cx, u): return (fe.edge(n, c, cx, u[0]), u[1])
        ck.run(rule, g, tr, (ForEach.INIT, frozenset()), "all", edge, subject=f.pretty, fe=[fe])


def e_unsat(ck, rule="variable elimination reports unsatisfiability only for an empty resolvent"):
    for f in ck.fns(VE + "::eliminate"):
        three = len(f.params) == 3
        g = ck.graph(f, (VE + "::merge", "Candy::Trail::*", SDB + "::*") + (() if three else (VE + "::eliminate",)))
        def tr(n, cx):
            if n.kind == "call" and short(n.fn()) == "merge" and cx.nargs() > 3: return cx.arg(3)
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0 and cx.val(n.x["a"]) == ("int", 0):
                if three:
                    merged = cx.ust
                    empty = any(v is True and (k[0] == "zero" and (k[1] == merged or k[1] == ("size", merged)) or k[0] == "lt" and k[1] in (merged, ("size", merged)) and k[2] == 1 or k[0] == "eq" and merged in k[1:] and ("int", 0) in k[1:]) for k, v in cx.facts.items())
                    other = any(k[0] in ("eq", "lt") and v is True and has(k, lambda w: w[0] == "size" and w[1] != merged) for k, v in cx.facts.items())
                    if merged is None or not empty and not other: cx.run.report("the formula is declared unsatisfiable although no empty resolvent was found", n)
                else:
                    if not any(k[0] == "zero" and v is True and k[1][0] == "call" and short(k[1][1]) == "eliminate" for k, v in cx.facts.items()): cx.run.report("the formula is declared unsatisfiable although no elimination step found it to be", n)
            return cx.ust
        ck.run(rule, g, tr, None, "all", subject=f.pretty)
    for f in ck.fns(VE + "::merge"):
        if "vector" in f.params[3]["t"]: continue
        out = P(f, 3); cls = (P(f, 0), P(f, 1))
        g = ck.graph(f, ())
        def tr(n, cx):
            if n.kind == "write" and cx.lhs() == out and cx.rhs() is not None:
                v = cx.rhs()
                for a in either(v):
                    if a[0] == "op" and a[1] == "-" and a[3][0] == "int" and has(a[2], lambda w: w[0] == "size") and a[3][1] != 1: cx.run.report("the size of a resolvent does not count all literals but the eliminated one", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.pretty)


def e_undo(ck, rule="restoring a variable returns all clauses stored for it and, transitively, those of later eliminated variables in them"):
    f = ck.fns(VE + "::undo_elimination")[0]
    g = ck.graph(f, (VE + "::undo_elimination", "Candy::Trail::*"))
    var = P(f, 0)
    stored = lambda c: c[0] == "at" and fieldof(c[1]) == "eliminated_clauses" and c[2] == var
    def bulk(n, cx):
        vals = [cx.arg(i) for i in range(cx.nargs())] if n.kind in ("call", "ctor") else [cx.rhs()]
        if any(v[0] == "iter" and v[2] == 0 and stored(v[1]) for v in vals) and any(v[0] == "iter" and v[2] == "end" and stored(v[1]) for v in vals): return True
        if any(stored(v) for v in vals) and (n.kind != "call" or short(n.fn()) in ("operator=", "swap", "move", "vector")): return True
        return n.kind == "call" and short(n.fn()) == "swap" and stored(cx.obj())
    fe = ForEach(stored, lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and has(cx.arg(0), lambda w: w[0] == "elem" and stored(w[1])), bulk=bulk)
    rec = lambda n: n.kind == "call" and n.fn() == VE + "::undo_elimination"
    # transitive part: every literal of every restored clause is tested
    def tr(n, cx):
        if n.kind == "block": return cx.ust
        a, flag, lst, inner, took = cx.ust
        had = a[1]
        if n.kind == "decl":
            for v in n.x["vars"]:
                if v.get("init", -1) >= 0:
                    iv = cx.val(v["init"])
                    if stored(iv) and not v.get("ref"): a = (a[0], True)
        a = fe.step(n, cx, a)
        if n.kind == "call" and n.x.get("obj", -1) >= 0:
            o = cx.obj()
            if stored(o) and short(n.fn()) in ("clear", "resize", "erase", "shrink_to_fit") and not a[1]: cx.run.report("the stored clauses are dropped before they have been restored", n)
            if stored(o) and short(n.fn()) in ("clear", "swap"): took = True
            if fieldof(o) == "eliminiated_variables" and short(n.fn()) in ("resize", "erase", "pop_back", "clear", "assign", "swap"): lst = True
        if n.kind == "call" and short(n.fn()) in ("swap", "iter_swap") and any(fieldof(cx.arg(i)) == "eliminiated_variables" for i in range(cx.nargs())): lst = True
        if n.kind == "write" and (stored(cx.lhs()) or n.x.get("opcall") == "=" and cx.rhs() is not None and fieldof(cx.lhs()) == "eliminiated_variables"):
            if stored(cx.lhs()): took = True
            else: lst = True
        if calls("Candy::Trail::setDecisionVar")(n):
            if cx.arg(0) == var and cx.arg(1) == ("int", 1): flag = True
            elif cx.arg(0) == var: cx.run.report("a restored variable is excluded from decisions", n)
        if rec(n): inner = "called"
        elif inner == "called" and n.kind == "call" and short(n.fn()) in ("insert", "push_back", "emplace_back", "append") and any(mentions(cx.arg(i), "undo_elimination") for i in range(cx.nargs())): inner = "kept"
        elif inner == "called" and n.kind == "ctor": pass
        if n.kind == "ret" and inner == "called": cx.run.report("clauses restored recursively are dropped", n)
        return (a, flag, lst, inner, took)
    listed = lambda v: v[0] in ("at", "elem") and fieldof(v[1]) == "eliminiated_variables"
    def keep(n, cx):
        """the element is kept: copied within the list or into another one"""
        return n.kind == "write" and cx.rhs() is not None and listed(cx.rhs()) or n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and listed(cx.arg(0))
    def isvar(cx): return any(k[0] == "eq" and v is True and var in k[1:] and any(listed(x) for x in k[1:]) for k, v in cx.facts.items())
    ke = ForEach(lambda c: fieldof(c) == "eliminiated_variables", keep, isvar)
    def finkeep(kind, ust, facts, cx):
        if kind == "exit" and ke.seen and not ust[1]: return "another variable leaves the list of eliminated variables while its clauses stay eliminated"
    ck.run(rule, g, lambda n, cx: cx.ust if n.kind == "block" else ke.step(n, cx, cx.ust), ForEach.INIT, "all", lambda n, c, cx, u: ke.edge(n, c, cx, u), final=finkeep, fe=[ke], subject=f.pretty + " (others)")
    def edge(n, c, cx, st):
        absent = any(k[0] == "eq" and v is True and mentions(k, "eliminiated_variables") and has(k, lambda w: w[0] == "algo" and w[1] in ("find", "find_if")) for k, v in cx.facts.items())
        return (fe.edge(n, c, cx, st[0]), st[1], st[2] or absent) + st[3:]
    def fin(kind, ust, facts, cx):
        if kind != "exit": return None
        if not ust[0][1]: return "not all stored clauses of the variable are returned"
        if not ust[1]: return "a restored variable stays excluded from decisions"
        if not ust[2]: return "a restored variable stays listed as eliminated"
        if not ust[4]: return "the stored clauses are kept after the variable has been restored"
    ck.run(rule, g, tr, (ForEach.INIT, False, False, None, False), lambda k: k[0] == "eq" and mentions(k, "eliminiated_variables"), edge, final=fin, fe=[fe])
    # recursion exists and is guarded by is_eliminated of a literal of a restored clause
    recs = [n for n in g.nodes if n.x and rec(n)]
    ck.judge(rule, "transitive restoration", bool(recs) or any(meth("has_eliminated_variables")(n) for n in g.nodes if n.x), f.where(), "restored clauses may contain other eliminated variables that are not restored")
    if recs: e_reinsert(ck, rule, f, g, rec)


def e_reinsert(ck, rule, f, g, rec):
    """on the true edge of 'literal's variable is eliminated' its restoration is called before the next literal"""
    def tr(n, cx):
        if n.kind == "block": return cx.ust
        if rec(n): return "ok"
        return cx.ust
    def edge(n, c, cx, st):
        if c[0] != "case":
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            lc = loopcond(v, c[1])
            if lc is not None:
                if st == "need": cx.run.report("an eliminated variable of a restored clause is not restored", n)
                return "idle"
            if c[1] and has(v, lambda w: w[0] == "at" and fieldof(w[1]) == "eliminated_clauses" or w[0] == "call" and short(w[1]) == "is_eliminated") and has(v, lambda w: w[0] == "var_of" and w[1][0] == "elem") and entails(cx.facts, v, True): return "need"
        return st
    ck.run(rule, g, tr, "idle", lambda k: mentions(k, "eliminated_clauses"), edge, subject="undo_elimination: literals of restored clauses")


def e_assume(ck, rule="variables that return as assumptions or in new clauses are restored, and every restored clause re-enters the problem"):
    # VariableElimination::reset: each assumption is frozen and, if eliminated, restored
    f = ck.fns(VE + "::reset")[0]
    g = ck.graph(f, (VE + "::undo_elimination", "Candy::Trail::*"))
    isA = lambda w: w[0] == "elem" and fieldof(w[1]) == "assumptions"
    undo = lambda n, cx: calls(VE + "::undo_elimination")(n) and has(cx.arg(0), isA)
    notel = lambda cx: any(not_elim(k, v) and has(k, isA) for k, v in cx.facts.items())
    froz = wr(lambda l: l[0] == "at" and fieldof(l[1]) == "frozen" and has(l[2], isA))
    A = ForEach(lambda c: fieldof(c) == "assumptions", undo, notel)
    B = ForEach(lambda c: fieldof(c) == "assumptions", froz)
    def tr(n, cx):
        if n.kind == "block": return cx.ust
        a, b, pend = cx.ust
        if undo(n, cx): pend = True
        elif pend and n.kind == "call" and short(n.fn()) in ("insert", "push_back", "emplace_back") and any(mentions(cx.arg(i), "undo_elimination") for i in range(cx.nargs())): pend = False
        elif pend and n.kind == "ret" and not mentions(cx.val(n.x["a"]), "undo_elimination"): cx.run.report("clauses of a restored assumption variable are dropped", n)
        return (A.step(n, cx, a), B.step(n, cx, b), pend)
    def edge(n, c, cx, st):
        if st[2] and c[0] != "case":
            lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
            if lc is not None and fieldof(lc[0]) == "assumptions": cx.run.report("clauses of a restored assumption variable are dropped", n)
        return (A.edge(n, c, cx, st[0]), B.edge(n, c, cx, st[1]), st[2])
    def fin(kind, ust, facts, cx):
        if kind != "exit": return None
        if not ust[0][1]: return "an eliminated variable is not restored although it is assumed"
        if not ust[1][1]: return "an assumption is not protected from elimination"
    ck.run(rule, g, tr, (ForEach.INIT, ForEach.INIT, False), lambda k: mentions(k, "eliminated_clauses", "is_eliminated"), edge, final=fin, fe=[A, B])
    # Solver::solve adds them before anything else; Solver::init does so for the literals of new clauses
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, UNITS + ("Candy::Solver::search", "Candy::Solver::processClauseDatabase", "Candy::Solver::propagateAndMaterializeUnitClauses"))
        src = lambda c: c[0] == "call" and c[1] == VE + "::reset"
        F = ForEach(src, lambda n, cx: calls(DB + "::createClause")(n) and full_of(cx, lambda c: c[0] == "elem" and src(c[1])))
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            called, s = cx.ust
            if calls(VE + "::reset")(n): called, s = True, ForEach.INIT
            elif n.kind == "call" and short(n.fn()) in ("search", "processClauseDatabase", "propagateAndMaterializeUnitClauses"):
                if not called: cx.run.report("solving starts before eliminated assumption variables have been restored", n)
                elif not s[1]: cx.run.report("solving starts although not every restored clause has been added", n)
            return (called, F.step(n, cx, s))
        def edge(n, c, cx, st): return (st[0], F.edge(n, c, cx, st[1]))
        ck.run(rule, g, tr, (False, ForEach.INIT), None, edge, subject=f.pretty, fe=[F])
    for f in ck.inst("Candy::Solver::init"):
        g = ck.graph(f, UNITS)
        prob = [P(f, i) for i, p in enumerate(f.params) if "CNFProblem" in p["t"]][0]
        isP = lambda c: c == prob or c[0] == "field" and c[1] == prob
        lit = lambda w: w[0] == "elem" and w[1][0] == "elem" and isP(w[1][1])
        undo = lambda n, cx: calls(VE + "::undo_elimination")(n) and has(cx.arg(0), lit)
        src = lambda c: c[0] == "call" and c[1] == VE + "::undo_elimination"
        notel = lambda cx: any(not_elim(k, v) and has(k, lit) for k, v in cx.facts.items())
        none = lambda cx: any((k[0] == "lt" and k[2] == 1 and v is True or k[0] == "zero" and v is True) and mentions(k, "eliminiated_variables", "has_eliminated_variables") for k, v in cx.facts.items())
        A = ForEach(lambda c: c[0] == "elem" and isP(c[1]), undo, notel)
        F = ForEach(src, lambda n, cx: calls(DB + "::createClause")(n) and full_of(cx, lambda c: c[0] == "elem" and src(c[1])))
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            a, fst, pend, o = cx.ust
            if undo(n, cx):
                pend, fst = True, ForEach.INIT
            fst = F.step(n, cx, fst)
            if pend and fst[1]: pend = False
            return (A.step(n, cx, a), fst, pend, o)
        def edge(n, c, cx, st):
            a, fst, pend, o = st
            fst = F.edge(n, c, cx, fst)
            if pend and fst[1]: pend = False
            if c[0] != "case":
                lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                if lc is not None and (isP(lc[0]) or lc[0][0] == "elem" and isP(lc[0][1])):
                    if pend: cx.run.report("clauses of a restored variable are not added", n); pend = False
                    if isP(lc[0]):
                        if o == "in" and not a[1]: cx.run.report("a new clause can mention an eliminated variable without restoring it", n)
                        o = "in" if lc[1] else "done"; a = ForEach.INIT
            if none(cx): a = (a[0], True); o = "done" if o != "in" else o
            return (A.edge(n, c, cx, a), fst, pend, o)
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            if ust[3] is None: return "new clauses are added without restoring the eliminated variables in them"
            if ust[2]: return "clauses of a restored variable are not added"
        ck.run(rule, g, tr, (ForEach.INIT, ForEach.INIT, False, None), lambda k: mentions(k, "eliminated_clauses", "eliminiated_variables", "is_eliminated", "has_eliminated_variables"), edge, final=fin, subject=f.pretty, fe=[A, F])


def full_of(cx, pred, a=0, b=1):
    x, y = cx.arg(a), cx.arg(b)
    return x[0] == "iter" and y[0] == "iter" and x[1] == y[1] and x[2] == 0 and y[2] == "end" and pred(x[1])


P05 = [e_commit, e_merge, e_candidates, e_split, e_unsat, e_undo, e_assume, m_extend]
