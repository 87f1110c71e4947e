"""P06: watch lists mirror the clause set."""
from .lib import *
from .solver import UNITS, each, linear1

DB = "Candy::ClauseDatabase"
ENG = ("Candy::Propagate", "Candy::StaticPropagate")
NODB = ("Candy::ClauseAllocator::*", "Candy::Certificate::*")


def wl(c): return c[0] == "at" and fieldof(c[1]) == "watchers"
def bl(c): return c[0] == "at" and fieldof(c[1]) == "binaryWatchers"


def key_of(idx):
    """(clause, position) when idx is the negation of a literal of a clause at a fixed position; False when it is the literal itself"""
    if idx[0] == "neg" and idx[1][0] == "at" and is_int(idx[1][2]): return (idx[1][1], idx[1][2][1])
    if idx[0] == "at" and is_int(idx[2]): return False
    return None


def pushes(n, cx, lst):
    if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and lst(cx.obj()): return cx.obj()[2], [cx.arg(i) for i in range(cx.nargs())]
    return None


def clauses_in(v, c):
    return has(v, lambda w: w == c)


def w_attach(ck, rule="a clause is watched under the negations of two of its literals, exactly once each"):
    for cls in ENG:
        for f in ck.fns(cls + "::attachClause"):
            g = ck.graph(f); c = P(f, 0)
            def tr(n, cx):
                p = pushes(n, cx, wl)
                if p is None: return cx.ust
                k = key_of(p[0])
                if k is False: cx.run.report("the clause is entered in the list of a literal instead of its negation", n)
                if not k: return cx.ust + ("?",)
                if k[0] != c: return cx.ust + ("?",)
                if not any(clauses_in(v, c) for v in p[1]): cx.run.report("another clause is entered in the watch list", n)
                if k[1] > (2 if cls.endswith("StaticPropagate") else 1): cx.run.report("the clause is watched under the literal at position %d" % k[1], n)
                ws = watched(p[1], c)
                if cls.endswith("StaticPropagate") and ws is not None and k[1] not in ws: cx.run.report("the watcher does not name the literal it is entered for", n)
                if k[1] in cx.ust: cx.run.report("the clause is entered twice for the same literal", n)
                return tuple(sorted(cx.ust + (k[1],), key=str))
            def fin(kind, ust, facts, cx):
                if kind == "exit" and "?" not in ust and len(set(ust)) != 2: return "the clause is watched under %d of its literals instead of two" % len(set(ust))
            ck.run(rule, g, tr, (), None, final=fin, subject=f.q)


def watched(vals, c):
    """positions of the literals named by a watcher object"""
    for v in vals:
        for w in walk(v):
            if isinstance(w, tuple) and w and w[0] in ("mk", "new") and "Watcher" in str(w[1]):
                out = [x[2][1] for x in walk(w) if isinstance(x, tuple) and x and x[0] == "at" and x[1] == c and is_int(x[2])]
                if out: return set(out)
    return None


def w_detach(ck, rule="a detached clause leaves both of its watch lists and no other clause does"):
    f = ck.fns("Candy::Propagate::detachClause")[0]
    g = ck.graph(f); c = P(f, 0)
    erased(ck, rule, f, g, c, wl, None)


def erased(ck, rule, f, g, c, lst, when, pre=None):
    def tr(n, cx):
        if n.kind == "call" and short(n.fn()) in ("erase",) and lst(cx.obj()):
            k = key_of(cx.obj()[2])
            if k is False: cx.run.report("watchers are removed from the list of a literal instead of its negation", n); return cx.ust | {0, 1}
            if k is None or k[0] != c: return cx.ust | {"?"}
            return cx.ust | {k[1]}
        if n.kind == "ret" and n.frame.key != 0:
            v = cx.val(n.x["a"])
            if v[0] == "op" and v[1] == "!=" and any(clauses_in(x, c) for x in v[2:]) and in_remove(n, cx): cx.run.report("the watchers of all other clauses are removed", n)
        return cx.ust
    def in_remove(n, cx):
        return any(m.kind == "call" and short(m.fn()) == "remove_if" for m in g.nodes if m.inl and True)
    def fin(kind, ust, facts, cx):
        if kind != "exit" or "?" in ust: return None
        if when is not None and when(facts) is not True: return None
        miss = {0, 1} - ust
        if miss: return "the watcher under literal %s stays behind" % "/".join(str(i) for i in sorted(miss))
    ck.run(rule, g, tr, frozenset(), lambda k: mentions(k, "size") or k[0] == "eq" and has(k, lambda w: w[0] == "size"), final=fin, subject=f.q)


def size_is(facts, c, what):
    """None unknown / bool: does the size of c satisfy what (a set of ints; 9 stands for anything larger)"""
    dom = set(range(10))
    for k, v in facts.items():
        if k[0] == "eq" and ("size", c) in k[1:]:
            o = k[2] if k[1] == ("size", c) else k[1]
            if is_int(o): dom = {d for d in dom if (d == min(o[1], 9)) == v}
        elif k[0] == "lt" and k[1] == ("size", c) and is_num(k[2]): dom = {d for d in dom if (d < num(k[2])) == v}
    if dom <= what: return True
    if not dom & what: return False
    return None


def is_num(v): return isinstance(v, int) or is_int(v)
def num(v): return v if isinstance(v, int) else v[1]


def w_init(ck, rule="rebuilding the watch lists drops all old entries and attaches every long clause of the database that has not been removed, once"):
    for cls in ENG:
        for f in ck.fns(cls + "::reset"):
            g = ck.graph(f)
            inDB = lambda c: fieldof(c) == "clauses"
            def cur(p):
                for v in [p[0]] + p[1]:
                    for w in walk(v):
                        if isinstance(w, tuple) and w and w[0] in ("elem", "at") and inDB(w[1]): return w
                return None
            def ev(n, cx):
                p = pushes(n, cx, wl)
                return p is not None and cur(p) is not None
            def removed(facts, c):
                for k, v in facts.items():
                    if k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "isDeleted" and k[1][2] == c: return not v
                return None
            def exempt(cx):
                for k, v in cx.facts.items():
                    for w in walk(k):
                        if isinstance(w, tuple) and w and w[0] in ("elem", "at") and inDB(w[1]):
                            if size_is(cx.facts, w, {0, 1, 2}) is True or removed(cx.facts, w) is True: return True
                return False
            fe = ForEach(inDB, ev, exempt)
            def tr(n, cx):
                m, cleared, sized, seen = cx.ust
                if n.kind == "call" and fieldof(cx.obj()) == "watchers" and short(n.fn()) == "clear": cleared = True; sized = False
                if n.kind == "call" and fieldof(cx.obj()) == "watchers" and short(n.fn()) in ("resize", "assign"):
                    sized = True
                    if too_small(cx.arg(0)): cx.run.report("there are fewer watch lists than literals", n)
                p = pushes(n, cx, wl)
                if p is not None and cur(p) is not None:
                    c = cur(p)
                    if not cleared: cx.run.report("clauses are attached while the old watch lists are still in place", n)
                    if cleared and not sized: cx.run.report("clauses are attached before the watch lists exist", n)
                    if size_is(cx.facts, c, set(range(3, 10))) is not True and size_is(cx.facts, c, {0, 1}) is not False:
                        cx.run.report("a clause with fewer than two literals may be attached", n)
                    if removed(cx.facts, c) is not False: cx.run.report("a removed clause may be attached", n)
                    if p[0] in seen: cx.run.report("a clause is attached twice", n)
                    seen = seen | {p[0]}
                return (fe.step(n, cx, m), cleared, sized, seen)
            def edge(n, c, cx, st):
                s = st[3]
                if c[0] != "case":
                    lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                    if lc is not None and inDB(lc[0]): s = frozenset()
                return (fe.edge(n, c, cx, st[0]), st[1], st[2], s)
            def fin(kind, ust, facts, cx):
                if kind == "exit" and not ust[1]: return "the old watch lists stay in place"
                if kind == "exit" and not ust[0][1]: return "a clause of the database may not be attached"
            tk = lambda k: k[0] in ("eq", "lt") and has(k, lambda w: w[0] == "size") or mentions(k, "isDeleted")
            ck.run(rule, g, tr, (ForEach.INIT, False, False, frozenset()), tk, edge, final=fin, subject=f.q, fe=[fe])


def too_small(v):
    """is v certainly smaller than twice the number of variables?"""
    if v[0] in ("field", "call") : return fieldof(v) == "variables"
    if v[0] == "op" and v[1] == "*" and is_int(v[3]) and v[3][1] < 2 and mentions(v[2], "variables"): return True
    return v[0] == "int" and v[1] < 2


def w_binary(ck, rule="every binary clause is listed under the negation of each of its literals with the other literal, as long as it exists"):
    # creation
    for f in ck.fns(DB + "::createClause"):
        g = ck.graph(f, NODB)
        bin_push(ck, rule, f, g, None)
        break
    # rebuild
    f = ck.fns(DB + "::reinitBinaryWatchers")[0]
    g = ck.graph(f, NODB)
    bin_push(ck, rule, f, g, lambda c: fieldof(c) == "clauses")
    # removal
    f = ck.fns(DB + "::removeClause")[0]
    g = ck.graph(f, NODB); c = P(f, 0)
    def two(facts): return size_is(facts, c, {2})
    def when(facts):
        r = size_is(facts, c, {0, 1, 3, 4, 5, 6, 7, 8, 9})
        return r is not True
    erased(ck, rule, f, g, c, bl, when)
    # the clause list itself
    f = ck.fns(DB + "::reorganize")[0]
    for q in (DB + "::reorganize", DB + "::setGlobalClauseAllocator"):
        for f in ck.fns(q):
            g = ck.graph(f, NODB + (DB + "::reinitBinaryWatchers",))
            def tr(n, cx):
                ms, moved = cx.ust
                if n.kind in ("call",) and short(n.fn()) in ("reorganize", "synchronize", "set_global_allocator") and n.fn().startswith("Candy::ClauseAllocator"): return (True, True)
                if n.kind == "write" and fieldof(cx.lhs()) == "clauses" and has(cx.rhs(), lambda w: w[0] == "call" and short(w[1]) == "collect"): return (False, True)
                if n.kind == "call" and short(n.fn()) in ("swap", "assign") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "clauses": return (False, True)
                if calls(DB + "::reinitBinaryWatchers")(n):
                    if ms: cx.run.report("binary watchers are rebuilt from the clause pointers of before the reorganisation", n)
                    return (ms, False)
                return cx.ust
            def fin(kind, ust, facts, cx):
                if kind == "exit" and ust[0]: return "clause pointers are not renewed after the clauses have been moved"
                if kind == "exit" and ust[1]: return "binary watchers are not rebuilt after the clauses have been moved"
            ck.run(rule, g, tr, (False, False), None, final=fin, subject=f.q)


def bin_push(ck, rule, f, g, cont):
    """pushes into the binary watch lists"""
    def tr(n, cx):
        got, cleared, m = cx.ust
        if fe is not None: m = fe.step(n, cx, m)
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "binaryWatchers" and short(n.fn()) == "clear": cleared = True
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "binaryWatchers" and short(n.fn()) in ("resize", "assign") and too_small(cx.arg(0)):
            cx.run.report("there are fewer binary watch lists than literals", n)
        p = pushes(n, cx, bl)
        if p is None: return (got, cleared, m)
        k = key_of(p[0])
        if k is False: cx.run.report("a binary clause is listed under its literal instead of the negation", n)
        if not k: return (got | {"?"}, cleared, m)
        c, i = k
        if size_is(cx.facts, c, {2}) is not True: 
            s = size_is(cx.facts, c, {0, 1, 3, 4, 5, 6, 7, 8, 9})
            if s is True: cx.run.report("a clause that is not binary is listed as binary", n)
        vals = [x for v in p[1] for x in ([v] if v[0] != "mk" else list(v[2]))]
        if not any(v == c for v in vals): cx.run.report("the entry names another clause", n)
        oth = [v[2][1] for v in vals if v[0] == "at" and v[1] == c and is_int(v[2])]
        if oth and oth != [1 - i]: cx.run.report("the entry names %s as the other literal" % ("its own literal" if oth == [i] else "a literal of position %d" % oth[0]), n)
        if i in got: cx.run.report("the clause is listed twice under the same literal", n)
        if cont is not None and not cleared: cx.run.report("binary watchers are added while the old ones are still in place", n)
        return (got | {i}, cleared, m)
    def ev(n, cx): return pushes(n, cx, bl) is not None
    def exempt(cx):
        return any(size_is(cx.facts, w, {2}) is False for k in cx.facts for w in walk(k) if isinstance(w, tuple) and w and w[0] in ("elem", "at") and cont(w[1]))
    fe = ForEach(cont, ev, exempt) if cont is not None else None
    def edge(n, c, cx, st):
        if fe is None or c[0] == "case": return st
        lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
        got = st[0]
        if lc is not None and cont(lc[0]):
            if len(got - {"?"}) == 1 and "?" not in got: cx.run.report("a binary clause is listed under one of its literals only", n)
            got = frozenset()
        return (got, st[1], fe.edge(n, c, cx, st[2]))
    def fin(kind, ust, facts, cx):
        if kind != "exit": return None
        got = ust[0]
        if fe is not None:
            return None if ust[2][1] else "a binary clause of the database may not be listed"
        if "?" in got: return None
        if len(got) == 1: return "a binary clause is listed under one of its literals only"
        if not got:
            cs = {w[1] for k in facts for w in walk(k) if isinstance(w, tuple) and w and w[0] == "size" and w[1][0] == "new"}
            if not any(size_is(facts, c, {2}) is False for c in cs): return "a binary clause may not be listed"
    ck.run(rule, g, tr, (frozenset(), False, ForEach.INIT), lambda k: has(k, lambda w: w[0] == "size"), edge, final=fin, subject=f.q, fe=[fe] if fe else ())


def w_fresh(ck, rule="propagation never runs on watch lists that point to moved or eliminated clauses, and every long clause is attached before propagation relies on it"):
    prims = UNITS + ("Candy::Solver::search", "Candy::Solver::propagateAndMaterializeUnitClauses")
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, prims)
        def tr(n, cx):
            if n.kind != "call": return cx.ust
            s = cx.ust; q = n.fn()
            if q == DB + "::reorganize": return s | {"moved"}
            if q == "Candy::VariableElimination::eliminate": return s | {"gone"}
            if on("propagator", "reset")(n, cx): return s - {"moved", "gone", "new"}
            if on("propagator", "clear")(n, cx): return s | {"new"}
            if q.endswith(("::Solver::search", "::Solver::propagateAndMaterializeUnitClauses")) or on("propagator", "propagate")(n, cx):
                if "moved" in s: cx.run.report("propagation follows watchers that point to clauses that have been moved", n)
                if "gone" in s and q.endswith("search"): cx.run.report("propagation follows watchers of clauses that variable elimination removed", n)
                elif "gone" in s and not elim0(cx): cx.run.report("propagation follows watchers of clauses that variable elimination removed", n)
                if "new" in s: cx.run.report("propagation runs although clauses of the database are not attached", n)
            return s
        def elim0(cx):
            """the facts say that no variable was eliminated"""
            for k, v in cx.facts.items():
                if k[0] in ("zero", "lt") and v and k[1][0] in ("call", "size", "field") and mentions(k[1], "elimination"):
                    if k[0] == "zero" or is_num(k[2]) and num(k[2]) <= 1: return True
            return False
        def edge(n, c, cx, s):
            if "gone" in s and elim0(cx): return s - {"gone"}
            return s
        ck.run(rule, g, tr, frozenset(["new"]), lambda k: mentions(k, "nTouched", "nEliminated") , edge, subject=f.pretty)
        # clauses restored by variable elimination
        isnew = lambda w: w[0] == "call" and w[1] == DB + "::createClause"
        def tr2(n, cx):
            if n.kind != "call": return cx.ust
            if n.fn() == DB + "::createClause": return True
            if on("propagator", "attachClause", "reset")(n, cx): return False
            if cx.ust and (n.fn().endswith(("::Solver::search", "::Solver::propagateAndMaterializeUnitClauses")) or on("propagator", "propagate")(n, cx)):
                cx.run.report("a clause created before is not attached when propagation runs", n)
            return cx.ust
        def edge2(n, c, cx, st):
            if st and any(has(k, lambda w: w[0] == "size" and isnew(w[1])) and shortclause(k, v) for k, v in cx.facts.items()): return False
            return st
        ck.run(rule, g, tr2, False, lambda k: has(k, lambda w: w[0] == "size" and isnew(w[1])), edge2, subject=f.pretty + " (corrections)")


def shortclause(k, v):
    """the fact says that the clause has at most two literals"""
    if k[0] == "lt" and k[1][0] == "size" and is_num(k[2]): return v and num(k[2]) <= 3
    if k[0] == "eq" and v: return any(is_int(x) and x[1] <= 2 for x in k[1:])
    return False


def w_learnt(ck, rule="a learnt clause is watched before the search goes on, and its asserting literal is set after the backjump with the clause as reason"):
    prims = UNITS
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, prims)
        isnew = lambda w: w[0] == "call" and w[1] == DB + "::createClause"
        def tr(n, cx):
            pend, bt, asg = cx.ust
            if n.kind != "call": return cx.ust
            if n.fn() == DB + "::createClause": return (True, False, False)
            if on("propagator", "attachClause")(n, cx):
                if not has(cx.arg(0), isnew): cx.run.report("a clause other than the learnt one is attached", n)
                return (False, bt, asg)
            if on("propagator", "reset")(n, cx): return (False, bt, asg)
            if on("trail", "backtrack")(n, cx):
                if not mentions(cx.arg(0), "backtrack_level"):
                    if cx.arg(0)[0] == "int" and cx.arg(0)[1] == 0: pass
                    elif has(cx.arg(0), lambda w: w[0] == "call" and short(w[1]) == "decisionLevel"): cx.run.report("the solver does not return to the backjump level of the learnt clause", n)
                return (pend, True, asg)
            if calls("Candy::Trail::propagate", "Candy::Trail::fact", "Candy::Trail::decide")(n) and asg is False and has(cx.arg(0), isnew):
                if not bt: cx.run.report("the learnt literal is set before the backjump", n)
                l = cx.arg(0)
                if l[0] == "at" and is_int(l[2]) and l[2][1] != 0: cx.run.report("another literal than the asserting one is set", n)
                if l[0] == "neg": cx.run.report("the negation of the asserting literal is set", n)
                if cx.nargs() > 1 and not has(cx.arg(1), isnew): cx.run.report("the asserting literal is set without the learnt clause as its reason", n)
                if calls("Candy::Trail::decide")(n): cx.run.report("the asserting literal is set as a decision", n)
                return (pend, bt, True)
            if on("propagator", "propagate")(n, cx):
                if pend: cx.run.report("the search goes on although the learnt clause is not watched", n)
                if bt is False and asg is False and pend is False: pass
                if asg is False and (pend or bt): cx.run.report("the search goes on although the learnt clause's literal has not been set", n)
                return (False, False, None)
            return cx.ust
        def edge(n, c, cx, st):
            if st[0] and any(has(k, lambda w: w[0] == "size" and isnew(w[1])) and shortclause(k, v) for k, v in cx.facts.items()): return (False,) + st[1:]
            return st
        ck.run(rule, g, tr, (False, False, None), lambda k: has(k, lambda w: w[0] == "size" and isnew(w[1])), edge, subject=f.pretty)


P06 = [w_attach, w_detach, w_init, w_binary, w_fresh, w_learnt]
