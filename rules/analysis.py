"""P09 conflict analysis, P10 failed assumptions."""
from .lib import *
from .ev import *
from .solver import UNITS, linear1
from .search import litval, equals

CA = "Candy::ConflictAnalysis"
TR = "Candy::Trail"
ST = ("Stamp::set", "Stamp::unset", "Stamp::clear")
T = lambda n: ("field", ("this",), CA + "::" + n)
LEARNT = T("learnt_clause")


def tcall(v, name): return isinstance(v, tuple) and v[0] == "call" and v[1] == TR + "::" + name
def isreason(v): return tcall(v, "reason") or fieldof(v) == "reason"


def stamped(facts, v):
    """is variable v known to be stamped / not stamped"""
    for k, w in facts.items():
        if k[0] == "eq":
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == "at" and fieldof(a[1]) == "stamped" and a[2] == v and fieldof(b) == "stamp": return w
    return None


def fresh_literals(facts):
    """literals (by variable) known not to be stamped"""
    return {k[i][2] for k, w in facts.items() if k[0] == "eq" and w is False for i in (1, 2) if k[i][0] == "at" and fieldof(k[i][1]) == "stamped"}


def level0(facts, v):
    for k, w in facts.items():
        if k[0] == "lt" and tcall(k[1], "level") and k[1][3] == (v,) and is_num(k[2]) == 1: return w
        if k[0] == "zero" and tcall(k[1], "level") and k[1][3] == (v,): return w
        if k[0] == "lt" and tcall(k[2], "level") and k[2][3] == (v,) and is_num(k[1]) == 0: return not w
        if k[0] == "eq" and any(tcall(k[i], "level") and k[i][3] == (v,) and is_num(k[3 - i]) == 0 for i in (1, 2)): return w
    return None


def is_num(v): return v if isinstance(v, int) else v[1] if is_int(v) else None


def current(facts, v):
    """is the variable known to be of the current decision level (or not)"""
    for k, w in facts.items():
        if k[0] in ("lt", "eq") and len(k) == 3 and all(isinstance(x, tuple) for x in k[1:]):
            for i in (1, 2):
                a, b = k[i], k[3 - i]
                if tcall(a, "level") and a[3] == (v,) and (tcall(b, "decisionLevel") or b[0] == "size" and fieldof(b[1]) == "trail_lim"):
                    if k[0] == "eq": return w
                    if i == 1: return not w        # level < current
                    return None if w is False else None
    return None


def hasreason(facts, v):
    for k, w in facts.items():
        if k[0] == "zero" and tcall(k[1], "reason") and k[1][3] == (v,): return not w
    return None


def of_clause(v, cond):
    return v[0] == "elem" and cond(v[1])


def is_antecedent(c, f):
    """the conflict clause or the reason of a trail literal"""
    return all(a == P(f, 0) or isreason(a) and (a[0] != "call" or a[3] and a[3][0][0] == "var_of" and on_trail(a[3][0][1])) for a in either(c))


def on_trail(l): return l[0] in ("elem", "at") and (fieldof(l[1]) == "trail")


def a_resolve(ck, rule="every literal of the conflict and of each resolved reason is accounted for once: counted at the current level, kept below it, dropped at level 0 only"):
    for f in ck.fns(CA + "::analyze"):
        g = ck.graph(f, ST + (CA + "::minimization", CA + "::minimizationWithBinaryResolution", CA + "::litRedundant"))
        isant = lambda c: is_antecedent(c, f)
        keep = lambda n, cx: n.kind == "call" and cx.obj() == LEARNT and short(n.fn()) in ("push_back", "emplace_back") and of_clause(cx.arg(0), isant)
        mark = lambda n, cx: n.kind == "call" and n.fn() == "Stamp::set" and cx.arg(0)[0] == "var_of" and of_clause(cx.arg(0)[1], isant)
        def counted(n, cx):
            if n.kind != "write": return False
            r = cx.rhs()
            if cx.lhs()[0] != "obj" and cx.lhs()[0] != "local" : pass
            return (n.x["k"] == "un" and n.x["op"] in ("++", "p++") or bulkcount(n, cx)) and cx.lhs()[0] not in ("iterv", "iter") and not str(cx.lhs()[-1]).startswith("__") and is_counter(n, cx)
        def bulkcount(n, cx): return n.x["k"] == "bin" and n.x["op"] == "+="
        def is_counter(n, cx):
            i = n.frame.func.strip(n.x["a"]); x = n.frame.func.x[i]
            return x["k"] == "ref" and x.get("t", "") in ("int", "unsigned int", "size_t", "unsigned long", "long", "std::size_t", "uint32_t", "int32_t") and x.get("n") in counters
        counters = set()
        for b, x in f.elems():
            if x["k"] == "un" and x["op"] in ("--", "p--") or x["k"] == "bin" and x["op"] == "-=":
                y = f.x[f.strip(x["a"])]
                if y["k"] == "ref": counters.add(y.get("n"))
        skip = lambda cx: any(w is True and k[0] == "eq" and any(of_clause(k[i], isant) and (on_trail(k[3 - i]) or mentions(k[3 - i], "lit_Undef")) for i in (1, 2)) for k, w in cx.facts.items())
        seen_ = lambda cx: any(w is True and k[0] == "eq" and any(k[i][0] == "at" and fieldof(k[i][1]) == "stamped" and k[i][2][0] == "var_of" and of_clause(k[i][2][1], isant) for i in (1, 2)) for k, w in cx.facts.items())
        def ground(cx):
            for k, w in cx.facts.items():
                for v in walk(k):
                    if isinstance(v, tuple) and v and tcall(v, "level") and v[3] and v[3][0][0] == "var_of" and of_clause(v[3][0][1], isant) and level0(cx.facts, v[3][0]) is True: return True
            return False
        fe1 = ForEach(isant, mark, lambda cx: skip(cx) or seen_(cx) or ground(cx))
        fe2 = ForEach(isant, lambda n, cx: keep(n, cx) or counted(n, cx), lambda cx: skip(cx) or seen_(cx) or ground(cx))
        # state: (fe1, fe2, stamps cleared, position reserved, fresh literal, selected, last write of position 0)
        INIT = (ForEach.INIT, ForEach.INIT, False, False, False, False, None)
        hadkeep = []
        def tr(n, cx):
            a, b, cl, res, fresh, sel, top = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind == "call" and n.fn() == "Stamp::clear": cl = True
            if mark(n, cx):
                if not cl: cx.run.report("literals of an earlier analysis are still marked when the analysis begins", n)
                v = cx.arg(0)
                if stamped(cx.facts, v) is True: cx.run.report("an already marked literal is processed again", n)
                fresh = fresh or stamped(cx.facts, v) is False
            cnt = counted(n, cx) and a[0] is not None
            kp = keep(n, cx)
            if kp: hadkeep.append(n)
            if kp or cnt:
                lit = cx.arg(0) if kp else None
                vs = [("var_of", lit)] if kp else [v[3][0] for k in cx.facts for v in walk(k) if isinstance(v, tuple) and v and tcall(v, "level") and v[3][0][0] == "var_of" and of_clause(v[3][0][1], isant)][:1]
                if not fresh and not (cnt and bulkcount(n, cx)) and not (vs and stamped(cx.facts, vs[0]) is False): cx.run.report("a literal is accounted for although it may have been processed before", n)
                if vs:
                    cur = current(cx.facts, vs[0])
                    if kp and cur is not False: cx.run.report("a literal of the current decision level may be put into the learnt clause", n)
                    if cnt and cur is not True and not bulkcount(n, cx): cx.run.report("a literal below the current decision level may be counted as one of the current level", n)
                    if kp and level0(cx.facts, vs[0]) is None and cur is None: cx.run.report("level of a kept literal unknown", n)
                if kp and not res: cx.run.report("a literal is stored before the position of the asserting literal has been reserved", n)
            if n.kind == "call" and cx.obj() == LEARNT and short(n.fn()) in ("push_back", "emplace_back", "resize", "insert", "emplace") and not kp: res = True
            if n.kind == "call" and n.fn() == "Stamp::unset" and cx.arg(0)[0] == "var_of" and on_trail(cx.arg(0)[1]):
                if not a[1] or not b[1]: cx.run.report("the next literal is resolved although a literal of the previous clause may not have been %s" % ("marked" if not a[1] else "kept or counted"), n)
                if stamped(cx.facts, cx.arg(0)) is not True: cx.run.report("the analysis continues with a trail literal that does not occur in the clauses", n)
                a = (a[0], False); b = (b[0], False); sel = True
            if n.kind == "write":
                l = cx.lhs()
                if l == ("at", LEARNT, ("int", 0)):
                    r = cx.rhs()
                    if on_trail(r): cx.run.report("the asserting literal is not negated", n)
                    top = r
                    for k, w in cx.facts.items():
                        if k[0] == "lt" and k[1][0] == "ivar" and is_num(k[2]) is not None and w is True and is_num(k[2]) != 1 and "--" in str(k[1][3]): cx.run.report("the analysis stops with %d literals of the current level left" % is_num(k[2]), n)
            na, nb = fe1.step(n, cx, a), fe2.step(n, cx, b)
            if na[0] != a[0] and na[0] is not None and not na[0][0]: fresh = False
            return (na, nb, cl, res, fresh, sel, top)
        def ed(n, c, cx, _=None):
            a, b, cl, res, fresh, sel, top = cx.ust
            na, nb = fe1.edge(n, c, cx, a), fe2.edge(n, c, cx, b)
            if fe1.keys is not None:
                for m, o, w in ((na, a, "marked"), (nb, b, "kept or counted")):
                    if m[0] is not None and o[0] is not None and not m[0][1] and o[0][1]: cx.run.report("a literal of an antecedent clause is passed over without being %s" % w, n)
            if c[0] != "case":
                lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                if lc is not None and isant(lc[0]): fresh = False
            return (na, nb, cl, res, fresh, sel, top)
        def fin(kind, ust, facts, cx):
            if kind == "exit" and ust[6] is None and ust[5]: return "the asserting literal is never stored"
        track = lambda k: k[0] in ("eq", "lt", "zero") and (mentions(k, "stamped", "level", "lit_Undef") or k[0] == "eq" and (on_trail(k[1]) or on_trail(k[2])) or k[1][0] == "ivar" and "--" in str(k[1][3]))
        ck.run(rule, g, tr, INIT, track, ed, final=fin, subject=f.q, fe=(fe1, fe2))
        if not hadkeep: ck.bad(rule, f.q, f.where(), "no literal below the current level is kept in the learnt clause")


def a_walk(ck, rule="the trail is examined from its end towards its beginning"):
    for q in (CA + "::analyze", CA + "::analyzeFinal"):
        for f in ck.fns(q):
            g = ck.graph(f, ST + (CA + "::minimization", CA + "::minimizationWithBinaryResolution")); hit = [0]
            def tr(n, cx):
                if n.kind == "call" and n.fn() == "Stamp::unset":
                    v = cx.arg(0)
                    if v[0] == "var_of" and on_trail(v[1]):
                        hit[0] += 1
                        d = direction(g, v[1])
                        if d == "fwd": cx.run.report("the trail is examined from its beginning", n)
                return None
            ck.run(rule, g, tr, None, None, subject=f.q)


def direction(g, l):
    k = l[2]
    if l[0] == "at" and k[0] == "ivar": return "fwd" if k[3] and all(s in ("++", "p++") for s in k[3]) else "rev" if k[3] and all(s in ("--", "p--") for s in k[3]) else None
    if l[0] == "elem":
        for key, v in getattr(g, "iters", {}).items():
            if key == k: return "fwd" if v == 0 else "rev"
    return None


def a_redundant(ck, rule="a literal is only dropped when all antecedents of it, recursively, are in the clause or at level 0; marks of a failed attempt are taken back"):
    for f in ck.fns(CA + "::litRedundant"):
        g = ck.graph(f, ST)
        isr = isreason
        elv = lambda v: v[0] == "var_of" and of_clause(v[1], isr)
        stack = lambda o: fieldof(o) == "analyze_stack" or o[0] == "obj"
        push = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back", "push", "emplace") and fieldof(cx.obj()) != "analyze_clear" and elv(cx.arg(0))
        rec = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and fieldof(cx.obj()) == "analyze_clear" and elv(cx.arg(0))
        mark = lambda n, cx: n.kind == "call" and n.fn() == "Stamp::set" and elv(cx.arg(0))
        recur = calls(CA + "::litRedundant")
        def exempt(cx):
            for k in cx.facts:
                for v in walk(k):
                    if isinstance(v, tuple) and v and elv(v) and (stamped(cx.facts, v) is True or level0(cx.facts, v) is True): return True
            return False
        fe = ForEach(isr, push, exempt)
        # unmarking: a traversal of analyze_clear from the entry size, event Stamp::unset
        unm = lambda n, cx: n.kind == "call" and n.fn() == "Stamp::unset"
        def unmark_ok(n, cx):
            """the loop over analyze_clear begins at the entry size"""
            v = cx.arg(0)
            if v[0] == "at" and fieldof(v[1]) == "analyze_clear" and v[2][0] == "ivar":
                st = v[2][2]
                if st == ("size", T("analyze_clear")) or st[0] == "phi" or st == ("int", 0): return True
                d = linear1(st, ("size", T("analyze_clear")))
                if d is not None and d > 0: return False
            return None
        hits = {"push": 0}
        # state: fe, cleanup: None | 'pending' sets in this call (marked, recorded), unmark loop seen
        def tr(n, cx):
            a, marked, recd, clean = cx.ust
            if n.kind == "block": return cx.ust
            if push(n, cx):
                hits["push"] += 1
                v = cx.arg(0)
                if hasreason(cx.facts, v) is not True: cx.run.report("a literal without reason is treated as implied by the others", n)
            if mark(n, cx): marked = True; recd = False
            if rec(n, cx): recd = True
            if unm(n, cx):
                ok = unmark_ok(n, cx)
                if ok is False: cx.run.report("not all marks of the failed attempt are taken back", n)
                clean = True
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if v in (("int", 1), ("bool", True)):
                    if a[0] is not None: cx.run.report("a literal counts as redundant before all literals of the reason have been examined", n)
                    for k, w in cx.facts.items():
                        if w is False and (k[0] == "lt" and k[1][0] == "size" and fieldof(k[1][1]) == "analyze_stack" and is_num(k[2]) == 1): cx.run.report("a literal counts as redundant although antecedents are still to be examined", n)
                elif v == ("int", 0) and hits["push"]:
                    if not clean: cx.run.report("the marks of the failed attempt are not taken back", n)
            return (fe.step(n, cx, a), marked, recd, clean)
        def ed(n, c, cx, _=None):
            a, marked, recd, clean = cx.ust
            na = fe.edge(n, c, cx, a)
            if fe.keys is not None and a[0] is not None and a[0][1] and not a[0][0]:
                if na[0] is not None and not na[0][1] or na[0] is None: cx.run.report("a literal of the reason is passed over although it is neither in the clause nor implied by it", n)
            if c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                lc = loopcond(v, c[1])
                if lc is not None and isr(lc[0]):
                    if marked and not recd: cx.run.report("a mark is set that a failed attempt will not take back", n)
                    marked = recd = False
                # leaving the loop that takes back the marks (also when it has nothing to do)
                if v[0] == "op" and mentions(v, "analyze_clear"): clean = True if not c[1] or clean else clean
                elif lc is not None and fieldof(lc[0]) == "analyze_clear": clean = True
            return (na, marked, recd, clean)
        track = lambda k: mentions(k, "stamped", "level", "reason") or k[0] == "lt" and mentions(k, "analyze_stack")
        ck.run(rule, g, tr, (ForEach.INIT, False, False, False), track, ed, subject=f.q, fe=(fe,))
        if not hits["push"]: ck.note(rule, "no recursion over antecedents found")


def a_minimize(ck, rule="minimization keeps the asserting literal, every decision and every literal that is not redundant"):
    for f in ck.fns(CA + "::minimization"):
        g = ck.graph(f, ST + (CA + "::litRedundant",))
        red = calls(CA + "::litRedundant")
        # either the literals to keep are collected, or the redundant ones are removed from the clause in place
        keep = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and cx.obj() != LEARNT and cx.arg(0)[0] in ("elem", "at") and cx.arg(0)[1] == LEARNT or \
                             n.kind == "write" and cx.lhs()[0] in ("at", "elem") and cx.lhs()[1] == LEARNT and cx.rhs()[0] in ("elem", "at") and cx.rhs()[1] == LEARNT
        def exempt(cx): return any(k[0] == "zero" and w is False and k[1][0] == "call" and k[1][1] == CA + "::litRedundant" for k, w in cx.facts.items())
        isl = lambda c: c == LEARNT
        fe = ForEach(isl, keep, exempt); fe1 = ForEach(isl, keep, exempt, order="from1")
        used = [0]
        def tr(n, cx):
            a, b, first = cx.ust
            if n.kind == "block": return cx.ust
            if red(n, cx):
                used[0] += 1
                l = cx.arg(0)
                if l[0] in ("elem", "at") and l[1] == LEARNT:
                    r = hasreason(cx.facts, ("var_of", l))
                    if r is not True: cx.run.report("a literal without reason may be examined for redundancy", n)
                    if not notfirst(cx, l): cx.run.report("the asserting literal may be dropped from the learnt clause", n)
            if keep(n, cx) and cx.nargs() and cx.arg(0) == ("at", LEARNT, ("int", 0)): first = True
            if n.kind in ("call", "write") and (short(n.fn()) in ("swap", "assign", "operator=", "resize", "erase") if n.kind == "call" else cx.lhs() == LEARNT) and mentions(("x", cx.obj() if n.kind == "call" and n.x.get("obj", -1) >= 0 else ()) + tuple(cx.arg(i) for i in range(cx.nargs())), "learnt_clause"):
                if used[0] and not a[1] and not b[1]: cx.run.report("the learnt clause is replaced although one of its literals has neither been kept nor found redundant", n)
                first = "swapped"
            return (fe.step(n, cx, a), fe1.step(n, cx, b), first)
        def notfirst(cx, l):
            k_ = l[2]
            for k, w in cx.facts.items():
                if k[0] == "lt" and k[1][0] == "size" and k[1][1] != LEARNT and is_num(k[2]) == 1 and w is False: return True
                if k[0] == "zero" and k[1][0] == "size" and w is False: return True
                if k[0] == "eq" and w is False and l in k[1:]: return True
                if k[0] in ("lt", "zero", "eq") and w is False and k_[0] == "ivar" and not has(k, lambda v: v[0] == "size") and has(k, lambda v: v == k_): return True
            st = [x for x in walk(l) if isinstance(x, tuple) and x and x[0] == "ivar"]
            if st and is_int(st[0][2]) and st[0][2][1] >= 1: return True
            return cur_order(cx) == "from1"
        def cur_order(cx):
            b = cx.ust[1]
            return "from1" if b[0] is not None else None
        def ed(n, c, cx, _=None): 
            a, b, f_ = cx.ust
            return (fe.edge(n, c, cx, a), fe1.edge(n, c, cx, b), f_)
        def fin(kind, ust, facts, cx):
            if kind == "exit" and used[0] and ust[2] is False: return None
        track = lambda k: mentions(k, "reason", "litRedundant", "minimized") or k[0] in ("lt", "zero", "eq") and has(k, lambda v: v[0] == "ivar")
        ck.run(rule, g, tr, (ForEach.INIT, ForEach.INIT, False), track, ed, final=fin, subject=f.q, fe=(fe, fe1))


def a_binary(ck, rule="binary minimization only removes the negations of literals implied by the asserting literal's negation"):
    for f in ck.fns(CA + "::minimizationWithBinaryResolution"):
        g = ck.graph(f, ST)
        def tr(n, cx):
            cl = cx.ust
            if n.kind == "call" and n.fn() == "Stamp::clear": return True
            if n.kind == "call" and n.fn() == "Stamp::set":
                v = cx.arg(0)
                if not cl: cx.run.report("marks of the conflict analysis are taken for implied literals", n)
                if v[0] == "var_of" and v[1][0] == "field" and fieldof(v[1]) == "other":
                    w = v[1][1]
                    lst = w[1] if w[0] in ("elem", "at") else None
                    if lst is not None and lst[0] == "at" and fieldof(lst[1]) == "binaryWatchers":
                        ix = lst[2]
                        if ix == ("at", LEARNT, ("int", 0)): cx.run.report("the binary clauses of the wrong literal are used", n)
                        elif ix[0] == "neg" and ix[1][0] == "at" and ix[1][1] == LEARNT and is_int(ix[1][2]) and ix[1][2][1] != 0: cx.run.report("the binary clauses of a literal other than the asserting one are used", n)
                    vs = litval(cx.facts, v[1])
                    if vs != frozenset([0]): cx.run.report("a literal is removed although the binary clause's other literal may not be true", n)
            if n.kind == "call" and short(n.fn()) in ("remove_if", "remove", "erase_if", "partition", "stable_partition"):
                r = cx.arg(0)
                if r == ("iter", LEARNT, 0): cx.run.report("the asserting literal may be removed", n)
            return cl
        ck.run(rule, g, tr, False, lambda k: k[0] == "lbv" or mentions(k, "satisfies", "falsifies"), subject=f.q)
        # what the removal predicate accepts
        lam = [fr for fr in g.frames if fr.func.q.startswith(CA) and "lambda" in fr.func.pretty or "operator()" in fr.func.q]
        for n in g.nodes:
            if n.kind == "ret" and n.frame in lam:
                v = g.val(n.frame, n.x["a"])
                if v[0] == "not" or v[0] == "op" and v[1] == "!=": ck.bad(rule, f.q, n.line(), "the literals that are not implied are removed")


def a_backjump(ck, rule="the analysis starts with empty buffers and hands over the learnt clause with the highest level below the current one, whose literal is moved to the second position"):
    for f in ck.fns(CA + "::handle_conflict"):
        g = ck.graph(f, ST + (CA + "::analyze", TR + "::*", "Candy::ClauseDatabase::reestimateClauseWeights"))
        def lvl(v):
            """the literal whose level v is"""
            return v[3][0][1] if tcall(v, "level") and v[3] and v[3][0][0] == "var_of" else None
        def isl(l): return l is not None and l[0] in ("at", "elem") and l[1] == LEARNT
        start = [None]
        def tr(n, cx):
            cleared, an, best, sw, cmp = cx.ust      # best: literal whose level was taken last; sw: literal swapped to position 1
            if n.kind == "call":
                if n.fn() == CA + "::analyze":
                    if not cleared: cx.run.report("the previous learnt clause is still in the buffer", n)
                    if cx.nargs() and cx.arg(0) != P(f, 0): cx.run.report("another clause than the conflict is analysed", n)
                    an = True
                elif short(n.fn()) == "clear" and cx.obj() == LEARNT: cleared = True
                elif short(n.fn()) in ("swap", "iter_swap"):
                    a, b = (cx.arg(0), cx.arg(1)) if cx.nargs() == 2 else (None, None)
                    if a is not None and ("at", LEARNT, ("int", 0)) in (a, b): cx.run.report("the asserting literal is moved", n)
                    elif a is not None and ("at", LEARNT, ("int", 1)) in (a, b):
                        o = b if a == ("at", LEARNT, ("int", 1)) else a
                        sw = o
                elif n.fn() == "Candy::AnalysisResult::setLearntClause" or n.fn() == "Candy::ClauseDatabase::setLearntClause" and not n.inlined if hasattr(n, "inlined") else n.fn() == "Candy::AnalysisResult::setLearntClause":
                    if not an: cx.run.report("a learnt clause is published without analysis", n)
                    if cx.arg(0) != LEARNT and cx.arg(0)[0] == "field": cx.run.report("something else than the learnt clause is published", n)
                    if any(tcall(v, "computeLBD") for v in either(cx.arg(3))): cx.run.report("the LBD value is published as backjump level", n)
                    if any(isl(lvl(v)) for v in either(cx.arg(2))): cx.run.report("the backjump level is published as LBD value", n)
                    for v in either(cx.arg(3)):
                        l = lvl(v)
                        if v == ("int", 0):
                            small = [w for k, w in cx.facts.items() if k[0] == "lt" and k[1] == ("size", LEARNT) and is_num(k[2]) == 2]
                            big = [is_num(k[2]) for k, w in cx.facts.items() if k[0] == "lt" and k[1] == ("size", LEARNT) and w is True and is_num(k[2]) is not None]
                            if small and small[0] is False or not small and big and min(big) > 2: cx.run.report("the solver jumps back to level 0 although the clause has several literals", n)
                        elif l == ("at", LEARNT, ("int", 0)): cx.run.report("the solver jumps back to the level of the asserting literal", n)
                    if best is not None and sw != best and best != ("at", LEARNT, ("int", 1)): cx.run.report("the literal with the highest level is not moved to the second position", n)
                    return (cleared, "done", best, sw, cmp)
            if n.kind == "write" and n.x["k"] in ("bin", "decl", "call") or n.kind == "write":
                try: r = cx.rhs()
                except Exception: r = None
                if r is not None:
                    l = lvl(r)
                    if isl(l) and cx.lhs()[0] not in ("field",) and not str(cx.lhs()[-1]) == "level":
                        if l == ("at", LEARNT, ("int", 1)): best = l
                        elif l[2][0] in ("ivar", "k") or l[0] == "elem":
                            t = n.frame.func.x[n.frame.func.strip(n.x["a"])] if n.x["k"] == "bin" else {}
                            if cmp is not None and (t.get("d"), False) in cmp: cx.run.report("the lower of two levels is taken as backjump level", n)
                            best = l; sw = None if sw != l else sw
            return (cleared, an, best, sw, cmp)
        def fin(kind, ust, facts, cx):
            if kind == "exit" and ust[1] != "done": return "the learnt clause is not published"
        def cmpedge(n, c, cx, u):
            """(local variable, known to be less than the other operand) of a comparison"""
            if c[0] == "case": return u
            F_ = n.frame.func; i = F_.strip(c[0]); pol = c[1]
            while i >= 0 and F_.x[i]["k"] == "un" and F_.x[i]["op"] == "!": i = F_.strip(F_.x[i]["a"]); pol = not pol
            x = F_.x[i] if i >= 0 else {}
            if x.get("k") == "bin" and x["op"] in ("<", ">", "<=", ">="):
                got = set()
                for side, o in ((x["a"], x["op"] in ("<", "<=")), (x["b"], x["op"] in (">", ">="))):
                    y = F_.x[F_.strip(side)]
                    if y["k"] == "ref" and y.get("dk") == "var":
                        v = cx.g.val(n.frame, F_.strip(side), dict(cx.env))
                        if any(isl(lvl(a)) or a == ("int", 0) for a in either(v)) and v[0] != "ivar": got.add((y["d"], o == pol))
                if got: u = u[:4] + (frozenset(got),)
            return u
        ck.run(rule, g, tr, (False, False, None, None, None), lambda k: k[0] == "lt" and mentions(k, "level", "learnt_clause"), cmpedge, final=fin, subject=f.q)
        # the level that is remembered is that of the literal that moves to the second position, not of the one that left it
        def so(n, cx):
            u = cx.ust
            if n.kind == "call" and short(n.fn()) in ("swap", "iter_swap") and cx.nargs() == 2:
                two = (cx.arg(0), cx.arg(1))
                if ("at", LEARNT, ("int", 1)) in two: return two[0] if two[1] == ("at", LEARNT, ("int", 1)) else two[1]
            if n.kind == "write" and u != "" and cx.lhs()[0] == "local" and n.x.get("k") == "bin" and n.x.get("op") == "=":
                if isl(lvl(cx.rhs())) and lvl(cx.rhs()) == u: cx.run.report("the level of the literal that left the second position is remembered", n)
            return u
        def sed(n, c, cx, u):
            if c[0] == "case": return u
            lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
            return "" if lc is not None and lc[0] == LEARNT else u
        ck.run(rule, g, so, "", None, sed, subject=f.q + " (second position)")
    for m in [m for m in ck.prog.funcs.values() if m.cls == CA] if False else ck.fns(CA + "::analyze") + ck.fns(CA + "::minimization") + ck.fns(CA + "::minimizationWithBinaryResolution"):
        g = ck.graph(m, ST + (CA + "::litRedundant",))
        def gr(n, cx):
            if n.kind == "call" and short(n.fn()) == "resize" and cx.obj() == LEARNT and is_num(cx.arg(0)) is not None and is_num(cx.arg(0)) > 1:
                k = is_num(cx.arg(0))
                if not any(q[0] == "lt" and q[1] == ("size", LEARNT) and w is False and (is_num(q[2]) or 0) >= k for q, w in cx.facts.items()): cx.run.report("the learnt clause is set to %d literals whatever was derived" % k, n)
            return None
        ck.run(rule, g, gr, None, lambda k: k[0] == "lt" and has(k, lambda v: v == LEARNT), subject=m.q + " (size)")
    for f in ck.fns("Candy::AnalysisResult::setLearntClause"):
        g = ck.graph(f)
        for i, fld in ((0, "learnt_clause"), (2, "lbd"), (3, "backtrack_level")):
            p = P(f, i)
            def ev(n, cx):
                if n.kind == "write" and fieldof(cx.lhs()) == fld: return cx.rhs() == p or p in either(cx.rhs()) or has(cx.rhs(), lambda v: v == p)
                return n.kind == "call" and short(n.fn()) in ("swap", "assign", "operator=") and n.x.get("obj", -1) >= 0 and (fieldof(cx.obj()) == fld and has(cx.arg(0), lambda v: v == p) or cx.obj() == p and fieldof(cx.arg(0)) == fld)
            must(ck, rule, g, ev, "the %s of the analysis is not recorded" % fld.replace("_", " "), subject=f.q + " " + fld)


def a_allpos(ck, rule="the backjump level is the maximum over all positions after the first"):
    for f in ck.fns(CA + "::handle_conflict"):
        g = ck.graph(f, ST + (CA + "::analyze", TR + "::*", "Candy::ClauseDatabase::*"))
        starts = set(); bounds = []
        for n in g.nodes:
            pass
        def lv_at(v): return [w[3][0][1][2] for w in walk(v) if isinstance(w, tuple) and w and tcall(w, "level") and w[3] and w[3][0][0] == "var_of" and w[3][0][1][0] in ("at", "elem") and w[3][0][1][1] == LEARNT]
        seen1 = [False]; frm = {}; ends = {}
        def tr(n, cx):
            if n.kind == "write":
                try: r = cx.rhs()
                except Exception: return None
                for ix in lv_at(r):
                    if ix == ("int", 1): seen1[0] = True
            return None
        def ed(n, c, cx, _=None):
            if c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                lc = loopcond(v, c[1])
                if lc is not None and lc[0] == LEARNT and n.frame is g.rootframe: frm[lc[3]] = lc[2]
                elif v[0] == "op" and v[1] in ("<", "!=", "<=", ">", ">=") and n.frame is g.rootframe and v[2][0] == "ivar":
                    d = linear1(v[3], ("size", LEARNT))
                    if d: ends[n.e] = d
            return cx.ust
        ck.run(rule, g, tr, None, None, ed, subject=f.q)
        for k, o in frm.items():
            if o == "from2" and not seen1[0]: ck.bad(rule, f.q, f.where(), "the second literal is left out of the comparison")
            elif o.startswith("from") and int(o[4:]) > 2: ck.bad(rule, f.q, f.where(), "literals at positions 2 to %d are left out of the comparison" % (int(o[4:]) - 1))
        for e, d in ends.items():
            if d < 0: ck.bad(rule, f.q, f.where(), "the last literal is left out of the comparison")


def a_stamp(ck, rule="a mark set, a mark not set, a mark removed and a cleared set of marks are told apart"):
    for f in ck.fns("Stamp::set"):
        g = ck.graph(f, leaf=False); p = P(f, 0)
        must(ck, rule, g, lambda n, cx: n.kind == "write" and cx.lhs()[0] == "at" and cx.lhs()[2] == p and fieldof(cx.rhs()) == "stamp", "setting a mark does not store the current stamp", subject=f.id)
    for f in ck.fns("Stamp::isStamped"):
        g = ck.graph(f, leaf=False)
        def tr(n, cx):
            if n.kind == "ret":
                v = cx.val(n.x["a"])
                if v[0] == "op" and v[1] in ("!=", "<", "<=", ">", ">=") and mentions(v, "stamped"): cx.run.report("a mark is recognised by %s instead of equality with the current stamp" % v[1], n)
                if v[0] == "op" and v[1] == "==" and mentions(v, "stamped") and not mentions(v, "stamp"): cx.run.report("a mark is not compared with the current stamp", n)
            return None
        ck.run(rule, g, tr, None, None, subject=f.id)
    for f in ck.fns("Stamp::unset"):
        g = ck.graph(f, leaf=False)
        def tr(n, cx):
            if n.kind == "write" and cx.lhs()[0] == "at":
                if fieldof(cx.rhs()) == "stamp": cx.run.report("removing a mark sets it", n)
                return True
            return cx.ust
        ck.run(rule, g, tr, False, None, final=lambda kind, u, fa, cx: "removing a mark leaves it set" if kind == "exit" and not u else None, subject=f.id)
    for f in ck.fns("Stamp::clear"):
        from .base import stampclear
        stampclear(ck, rule, f)


def a_room(ck, rule="the marks cover every variable before conflicts are analysed"):
    for f in ck.fns(CA + "::init"):
        g = ck.graph(f, ("Stamp::grow",)); p = P(f, 0)
        must(ck, rule, g, lambda n, cx: n.kind == "call" and n.fn() == "Stamp::grow" and (n.x.get("args") and (linear1(cx.arg(0), p) or 0) >= 0 and has(cx.arg(0), lambda v: v == p)), "the marks do not grow with the variables",
             unless=lambda facts, cx: any(k[0] == "lt" and has(k, lambda v: v[0] == "size") and has(k, lambda v: v == p) for k in facts), track=lambda k: k[0] == "lt", subject=f.q)


# ---------------------------------------------------------------- P10
def f_final(ck, rule="a failed assumption is traced back, along reasons, to exactly the assumptions that imply its negation"):
    for f in ck.fns(CA + "::analyzeFinal"):
        g = ck.graph(f, ST); p = P(f, 0)
        resv = lambda o: o[0] in ("obj", "new", "local") or o[0] == "var"
        def added(n, cx): return n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and not fieldof(cx.obj())
        isr = lambda c: isreason(c) and c[0] == "call" and c[3] and c[3][0][0] == "var_of" and on_trail(c[3][0][1])
        mark = lambda n, cx: n.kind == "call" and n.fn() == "Stamp::set" and cx.arg(0)[0] == "var_of" and of_clause(cx.arg(0)[1], isr)
        def exempt(cx):
            for k in cx.facts:
                for v in walk(k):
                    if isinstance(v, tuple) and v and v[0] == "var_of" and of_clause(v[1], isr) and (level0(cx.facts, v) is True or stamped(cx.facts, v) is True): return True
            return False
        fe = ForEach(isr, mark, exempt)
        # state: result has p, cleared, start marked, fe, pending: None | 'decision' | 'implied' (marked trail literal seen), done flags
        def tr(n, cx):
            hasp, cl, sm, a, pend = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind == "call" and n.fn() == "Stamp::clear": cl = True
            if n.kind == "call" and n.fn() == "Stamp::set":
                if not cl: cx.run.report("marks of an earlier analysis are still set", n)
                if cx.arg(0) == ("var_of", p): sm = True
            if added(n, cx):
                v = cx.arg(0)
                if v == p: hasp = True
                elif v == ("neg", p): cx.run.report("the failed literal is recorded with the wrong sign", n)
                elif v[0] == "neg" and on_trail(v[1]) or on_trail(v):
                    l = v[1] if v[0] == "neg" else v
                    if v[0] != "neg": cx.run.report("an assumption is recorded with the wrong sign", n)
                    if stamped(cx.facts, ("var_of", l)) is not True and not (isinstance(pend, frozenset) and l in pend): cx.run.report("an assumption is recorded that does not contribute to the conflict", n)
                    if hasreason(cx.facts, ("var_of", l)) is not False: cx.run.report("an implied literal is recorded as assumption", n)
                    pend = pend - {"decision"} if isinstance(pend, frozenset) else pend
            if n.kind == "ret" and n.frame is g.rootframe:
                if not hasp: cx.run.report("the failed assumption itself is missing from the conflict", n)
                if pend is None:
                    dl = {k: w for k, w in cx.facts.items() if mentions(k, "decisionLevel", "trail_lim")}
                    if all(consistent(dl, (lambda j: lambda v: j if tcall(v, "decisionLevel") or v[0] == "size" and fieldof(v[1]) == "trail_lim" else None)(j)) is True for j in (1, 2)[:1]): cx.run.report("with assumptions on the trail, the failed literal is not traced back", n)
            return (hasp, cl, sm, fe.step(n, cx, a), pend)
        def ed(n, c, cx, _=None):
            hasp, cl, sm, a, pend = cx.ust
            na = fe.edge(n, c, cx, a)
            if fe.keys is not None and a[0] is not None and a[0][1] and not a[0][0] and (na[0] is None and not na[1] or na[0] is not None and not na[0][1]):
                cx.run.report("a literal of a reason is not traced back", n)
            if c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                # beginning of an iteration over the trail
                if istrailcond(v):
                    if isinstance(pend, frozenset) and "decision" in pend: cx.run.report("a contributing assumption is not recorded", n)
                    if isinstance(pend, frozenset) and "implied" in pend and not a[1] : cx.run.report("an implied literal is not traced back to its reason", n)
                    if not sm: cx.run.report("the failed literal is not marked before the trail is examined", n)
                    pend = frozenset(); na = ForEach.INIT
            return (hasp, cl, sm, na, pend)
        def istrailcond(v):
            v = v[1] if v[0] == "not" else v
            return v[0] == "op" and (mentions(v, "trail_lim") or v[2][0] == "iterv" and fieldof(v[2][1]) == "trail")
        def post(n, c, cx, _=None):
            st = ed(n, c, cx)
            hasp, cl, sm, a, pend = st
            # obligations of the literal under examination appear with the facts of the edge
            if isinstance(pend, frozenset) and c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
                if v[0] == "not": v = v[1]; pol = not pol
                for k, w in cx.facts.items():
                    if k[0] == "eq" and w is True:
                        for i in (1, 2):
                            if k[i][0] == "at" and fieldof(k[i][1]) == "stamped" and k[i][2][0] == "var_of" and on_trail(k[i][2][1]): pend = pend | {k[i][2][1]}
                for k, w in cx.facts.items():
                    if k[0] == "zero" and tcall(k[1], "reason") and k[1][3] and k[1][3][0][0] == "var_of" and on_trail(k[1][3][0][1]) and k[1][3][0][1] in pend and not pend & {"decision", "implied"} and has(v, lambda y: tcall(y, "reason")) and not istrailcond(v):
                        pend = pend | frozenset(["decision"] if w else ["implied"])
            return (hasp, cl, sm, a, pend)
        track = lambda k: mentions(k, "stamped", "reason", "level", "decisionLevel", "trail_lim")
        ck.run(rule, g, tr, (False, False, False, ForEach.INIT, None), track, post, subject=f.q, fe=(fe,))
        # range of the trail that is examined: down to the first literal of level 1, from the end
        offs = set(); conds = []
        def look(n, cx):
            if n.kind == "call" and n.fn() == "Stamp::unset":
                v = cx.arg(0)
                if v[0] == "var_of" and v[1][0] == "at" and on_trail(v[1]):
                    iv = [w for w in walk(v[1][2]) if isinstance(w, tuple) and w and w[0] == "ivar"]
                    offs.add(linear1(v[1][2], iv[0]) if len(set(iv)) == 1 else None)
            return None
        def bounds(n, c, cx, _=None):
            if c[0] != "case" and c[1] is True:
                v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
                while v[0] == "not": v = v[1]; pol = not pol
                if v[0] == "op" and v[1] in ("<", ">", "<=", ">=") and mentions(v, "trail_lim"):
                    op, x, y = v[1], v[2], v[3]
                    if has(y, lambda w: w[0] == "ivar"): x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                    if pol: conds.append((op, x, y, n))
            return cx.ust
        ck.run(rule + " (range)", g, look, None, None, bounds, subject=f.q)
        base = ("field", ("this",), CA + "::trail"); lim = ("at", ("field", base, TR + "::trail_lim"), ("int", 0))
        if len(offs) == 1 and None not in offs:
            o = next(iter(offs))
            for op, x, y, n in conds:
                iv = [w for w in walk(x) if isinstance(w, tuple) and w and w[0] == "ivar"]
                if not iv or op not in (">", ">="): continue
                xo = linear1(x, iv[0]); d = linear1(y, lim)
                if y[0] == "at" and is_int(y[2]) and y[2][1] != 0: ck.bad(rule, f.q, n.line(), "only decision levels above %d are examined" % y[2][1]); continue
                if has(y, lambda w: w[0] == "back" and fieldof(w[1]) == "trail_lim") and not has(y, lambda w: w[0] in ("at", "front")): ck.bad(rule, f.q, n.line(), "only the last decision level is examined"); continue
                if xo is None or d is None: continue
                least = d - xo + (1 if op == ">" else 0) + o       # least accessed index, relative to the limit
                if any(st in ("p--", "--") for st in iv[0][3]) and linear1(x, iv[0]) == 0 and "p--" in rawops(n): least -= 1
                if least > 0: ck.bad(rule, f.q, n.line(), "the first literal of decision level 1 is not examined")
                for sz in (("call", TR + "::size", base, ()), ("field", base, TR + "::trail_size")):
                    s = linear1(iv[0][2], sz)
                    if s is not None and s + o < -1: ck.bad(rule, f.q, n.line(), "the last literal of the trail is not examined")


def rawops(n):
    """operators applied inside a condition's expression"""
    F_ = n.frame.func; out = set(); work = [n.e] if isinstance(n.e, int) and n.e >= 0 else []
    while work:
        x = F_.x[work.pop()]
        if x["k"] == "un": out.add(x["op"])
        for k in ("a", "b", "c"):
            if isinstance(x.get(k), int) and x[k] >= 0: work.append(x[k])
    return out


def f_search(ck, rule="an unsatisfiable answer because of an assumption comes with its analysis, and only a falsified assumption is analysed"):
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, UNITS)
        conf = lambda n, cx: n.kind == "call" and short(n.fn()) == "setConflict"
        fin_ = lambda v: v[0] == "call" and v[1] == CA + "::analyzeFinal"
        def tr(n, cx):
            st = cx.ust
            if n.kind == "block": return st
            if conf(n, cx):
                v = cx.arg(0)
                if fin_(v):
                    l = v[3][0]
                    if l[0] != "neg": cx.run.report("the assumption is analysed with the wrong sign", n)
                    elif litval(cx.facts, l[1]) != frozenset([1]): cx.run.report("an assumption that may not be false is analysed", n)
                return "conf"
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if st == "conf" and not lbs(cx.facts, v, [1]): cx.run.report("a conflict is recorded but the answer is not unsatisfiable", n)
                if st == "false" and not lbs(cx.facts, v, [0, 2]): cx.run.report("the formula is reported unsatisfiable under a false assumption without the assumptions' analysis", n)
            if n.kind == "call" and short(n.fn()) in ("backtrack",): return None
            return st
        def ed(n, c, cx, _=None):
            for k, w in cx.facts.items():
                if k[0] == "lbv" and w == frozenset([1]) and mentions(k, "nextAssumption", "assumptions") and cx.ust is None: return "false"
            return cx.ust
        ck.run(rule, g, tr, None, lambda k: k[0] == "lbv" or mentions(k, "nextAssumption", "assumptions"), ed, subject=f.pretty)


def f_store(ck, rule="the final conflict is stored completely, dropped with the other results and handed out unchanged"):
    R = "Candy::CandySolverResult"
    for f in ck.fns(R + "::setConflict"):
        g = ck.graph(f); p = P(f, 0)
        C = lambda o: fieldof(o) == "conflict"
        def bulk(n, cx):
            if n.kind == "write" and C(cx.lhs()): return cx.rhs() == p or has(cx.rhs(), lambda v: v == p)
            if n.kind == "call" and n.x.get("obj", -1) >= 0 and C(cx.obj()):
                s = short(n.fn()); a = [cx.arg(i) for i in range(cx.nargs())]
                if s in ("swap", "operator="): return a and has(a[0], lambda v: v == p)
                if s in ("insert", "assign"): return ("iter", p, 0) in a and ("iter", p, "end") in a
            if n.kind == "call" and short(n.fn()) == "copy": return cx.arg(0) == ("iter", p, 0) and cx.arg(1) == ("iter", p, "end") and mentions(cx.arg(2), "conflict")
            return False
        fe = ForEach(lambda c: c == p, lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and C(cx.obj()) and cx.arg(0)[0] in ("elem", "at") and cx.arg(0)[1] == p, None, bulk)
        def tr(n, cx): return fe.step(n, cx, cx.ust) if n.kind != "block" else cx.ust
        ck.run(rule, g, tr, ForEach.INIT, None, lambda n, c, cx, u: fe.edge(n, c, cx, u), final=lambda kind, u, fa, cx: "the conflict is not stored completely" if kind == "exit" and not u[1] else None, subject=f.q, fe=(fe,))
    for f in ck.fns(R + "::clear"):
        g = ck.graph(f)
        for fld in ("conflict", "model", "status"):
            must(ck, rule, g, lambda n, cx: n.kind == "call" and short(n.fn()) in ("clear", "swap", "resize", "assign") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == fld or n.kind == "write" and fieldof(cx.lhs()) == fld, "the %s of an earlier answer is kept" % fld, subject=f.q + " " + fld)
    for f in ck.fns(R + "::getConflict"):
        g = ck.graph(f)
        for n in g.nodes:
            if n.kind == "ret":
                v = g.val(n.frame, n.x["a"])
                ck.judge(rule, f.q, v[0] != "field" or fieldof(v) == "conflict", n.line(), "getConflict returns %s" % vstr(v))


def f_own(ck, rule="only the failed-assumption analysis writes the final conflict"):
    for f, e, x, k in writes(ck.prog, "Candy::CandySolverResult::conflict"):
        if f.q.startswith("Candy::CandySolverResult::"): ck.ok(rule, f.q + " " + k)
        else: ck.bad(rule, f.q, f.where(), "the final conflict is changed in " + f.q)
    for f, e, x in sites(ck.prog, "Candy::CandySolverResult::setConflict"):
        if f.q.startswith("Candy::Solver::"): ck.ok(rule, f.q)
        else: ck.note(rule, "setConflict called in " + f.q)


P09 = (a_resolve, a_walk, a_redundant, a_minimize, a_binary, a_backjump, a_allpos, a_stamp, a_room)
P10 = (f_final, f_search, f_store, f_own)
