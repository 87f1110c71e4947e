"""P22: the abstraction-refining solver answers for the problem, not for its approximations."""
from .lib import *
from .ev import *
from .branch import nosite
T = ("this",)
AR = "Candy::ARSolver"; SI = "Candy::CandySolverInterface"; SR = "Candy::SimpleRefinementStrategy"
EI = "Candy::EquivalenceImplicationsImpl"; BI = "Candy::BackbonesImpl"; AS = "Candy::ApproximationStateImpl"
ED = "Candy::EncodedApproximationDelta"
MAX = ("field", T, AR + "::m_maxRefinementSteps")
STEP = ("Candy::RefinementStrategy::refine", "Candy::RefinementStrategy::init", SR + "::refine", SR + "::init")
PR = (SI + "::*", "Candy::Trail::*", ED + "*", SR + "::*", "Candy::RefinementStrategy::*", AR + "::addApproximationClauses", AR + "::initialize", "Candy::createDefaultRefinementStrategy",
      "Candy::deactivatedAssumptionLit", "Candy::Solver::*")
ALL = frozenset([0, 1, 2])


def vsolve(v): return v[0] in ("call", "icall") and v[1].endswith("::solve")
def vcount(v): return v[0] == "call" and short(v[1]) == "countEnabledClauses" or v[0] == "field" and fieldof(v) == "m_activeClauseCount"
def vlive(v): return v[0] == "call" and short(v[1]) == "getAssumptionLiterals" or v[0] == "field" and fieldof(v) in ("m_assumptionLiterals", "m_assumptionLits")


def offlist(ck, f):
    """does f return the deactivated assumption literals of all approximation clauses?"""
    g = ck.graph(f, PR)
    m = ForEach(vlive, lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and offlit(cx.arg(0)))
    bad = [False, False]; wrong = []
    def tr(n, cx):
        if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back"):
            bad[1] = True
            if not offlit(cx.arg(0)):
                bad[0] = True
                for s in (0, 1):
                    env = lambda z: LitC((7, s)) if z[0] in ("elem", "at") and vlive(z[1]) else None
                    r = ceval(cx.arg(0), env)
                    if r is not None and r != LitC((7, 1)) and consistent({k: w for k, w in cx.facts.items() if has(k, lambda z: z[0] == "sign_of")}, env) is True: wrong.append(n)
        return m.step(n, cx, cx.ust)
    def fin(k, u, fa, cx):
        if k == "exit" and not u[1]: bad[0] = True
    m.keys = None
    r = Run(g, tr, ForEach.INIT, lambda k: True, lambda n, c, cx, u: m.edge(n, c, cx, u))
    for (ni, kind), L in r.final.items():
        for ust, fa, st in L: fin(kind, ust, fa, None)
    if wrong: return wrong[0]
    return bad[1] and not bad[0]


def offlit(v):
    """literal with the variable of an assumption literal and the deactivating sign"""
    E = {}
    for s in (0, 1):
        def env(z, s=s): return LitC((7, s)) if z[0] in ("elem", "at") and not has(z[1], lambda y: False) else None
        r = ceval(v, env)
        if r is None and v[0] == "call" and v[1] == "Candy::deactivatedAssumptionLit" and v[3][0][0] == "var_of": r = LitC((7, 1))
        if r != LitC((7, 1)): return False
    return True


def r_solve(ck, rule="unsatisfiability is reported only if the last search used no approximation clause"):
    """state: (a strategy exists, delta not yet added, assumptions of the coming search, assumptions of the last search, verdicts
    the last search may have had, number of enabled clauses was 0 (None unknown), truth of local Boolean variables)"""
    offs = set()
    for f in ck.prog.funcs.values():
        if f.file.endswith("ARSolver.cc") and f.kind not in ("ctor", "dtor") and not f.q.startswith(AR) and any(x["k"] == "call" and short(x.get("fn", "")) == "getAssumptionLiterals" for _, x in f.elems()):
            r = offlist(ck, f)
            if r is True: offs.add(f.q)
            elif r:
                offs.add(f.q)
                ck.bad(rule, f.q, r.line(), "the list of deactivated assumptions contains an activated one")
            else: ck.note(rule, f.q + " is not understood as a list of deactivated assumptions")
    for f in ck.fns(AR + "::solve"):
        g = ck.graph(f, PR + tuple(offs))
        pushes = {}
        def assum(n, cx):
            v = cx.arg(0)
            if vlive(v): return "live"
            if v[0] == "call" and v[1] in offs: return "off"
            if v[0] in ("obj", "mk") and v[0] == "obj": return ("list", v)
            return "?"
        def boolexpr(n, e, cx, vs):
            fr = n.frame; fn = fr.func
            e = fn.strip(e)
            x = fn.x[e]
            d = fn.localref(e)
            if d is not None and (fr.key, d) in vs: return vs[(fr.key, d)]
            if x["k"] == "un" and x["op"] == "!": return neg(boolexpr(n, x["a"], cx, vs))
            if x["k"] == "bin" and x["op"] in ("||", "|"):
                a, b = boolexpr(n, x["a"], cx, vs), boolexpr(n, x["b"], cx, vs)
                if 1 in (a, b): return 1
                if a == 0: return b
                if b == 0: return a
                return a if a == b else None
            if x["k"] == "bin" and x["op"] in ("&&", "&"):
                a, b = boolexpr(n, x["a"], cx, vs), boolexpr(n, x["b"], cx, vs)
                if 0 in (a, b): return 0
                if a == 1: return b
                if b == 1: return a
                return a if a == b else None
            v = cx.g.val(fr, e, dict(cx.env))
            return boolval(v, cx, cx.ust)
        def boolval(v, cx, u):
            _, _, _, last, verd, cnt, _ = u
            def E(z):
                if vsolve(z) and len(verd) == 1: return LB[next(iter(verd))]
                if vcount(z) and cnt is not None: return 0 if cnt else 3
                if z[0] == "phi" and any(vsolve(w) for w in z[1]) and len(verd) == 1: return LB[next(iter(verd))]
                return None
            r = ceval(v, E)
            if r is not None and not isinstance(r, (Lb, LitC)): return int(bool(r))
            if v[0] == "not": return neg(boolval(v[1], cx, u))
            if v[0] == "op" and v[1] in ("==", "!=") and v[3] == ("int", 0) and vcount(v[2]): return "c0" if v[1] == "==" else "n0"
            if v[0] == "op" and v[1] == ">" and v[3] == ("int", 0) and vcount(v[2]): return "n0"
            if vcount(v): return "n0"
            if v[0] in ("op",) and v[1] in ("==", "!=") and v[3][0] == "lb" and (vsolve(v[2]) or v[2][0] == "phi" and any(vsolve(w) for w in v[2][1])):
                if v[3][1] not in verd: return int(v[1] == "!=")
            return None
        def neg(b): return {0: 1, 1: 0, "c0": "n0", "n0": "c0"}.get(b)
        def setv(vs, k, b):
            vs = dict(vs); vs[k] = b
            return frozenset(vs.items())
        def tr(n, cx):
            strat, pend, nxt, last, verd, cnt, vs = cx.ust
            if n.kind in ("call",):
                fn = n.fn()
                if fn in STEP:
                    return (True, True, None, last, verd, None, vs)
                if fn == AR + "::addApproximationClauses": return (strat, False, nxt, last, verd, cnt, vs)
                if fn == "Candy::Trail::setAssumptions":
                    a = assum(n, cx)
                    if a == "live" and pend: cx.run.report("the assumptions for new approximation clauses are set before the clauses are added", n) if False else None
                    return (strat, pend, a, last, verd, cnt, vs)
                if short(fn) == "solve" and (fn == SI + "::solve" or fn.startswith("Candy::Solver::")):
                    if strat and pend: cx.run.report("a search starts before the new approximation clauses have been added", n)
                    if strat and nxt is None: cx.run.report("a search starts with outdated assumptions for the approximation clauses", n)
                    return (strat, pend, nxt, nxt if strat else "none", ALL, cnt, vs)
                if short(fn) == "countEnabledClauses": return (strat, pend, nxt, last, verd, None, vs)
            if n.kind == "decl":
                for w in n.x.get("vars") or []:
                    if w.get("init", -1) >= 0 and "bool" in (w.get("t") or ("bool" if False else "")):
                        vs = setv(vs, (n.frame.key, w["d"]), boolexpr(n, w["init"], cx, dict(vs)))
                return (strat, pend, nxt, last, verd, cnt, vs)
            if n.kind == "write" and n.x["k"] == "bin":
                d = n.frame.func.localref(n.x["a"])
                k = (n.frame.key, d)
                if d is not None and (k in dict(vs)):
                    b = boolexpr(n, n.x["b"], cx, dict(vs)); o = dict(vs).get(k)
                    if n.x["op"] == "|=": b = 1 if 1 in (b, o) else b if o == 0 else o if b == 0 else b if b == o else None
                    elif n.x["op"] == "&=": b = 0 if 0 in (b, o) else b if o == 1 else o if b == 1 else b if b == o else None
                    elif n.x["op"] != "=": b = None
                    vs = setv(vs, k, b)
                return (strat, pend, nxt, last, verd, cnt, vs)
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                alts = either(v)
                may = frozenset()
                for a in alts:
                    if vsolve(a): may |= verd
                    elif a[0] == "lb": may |= {a[1]} if len(alts) == 1 or not any(vsolve(z) for z in alts) else frozenset()
                    else: ck.note(rule, "result %s" % vstr(a)); return None
                if last is None and may: cx.run.report("an answer is given without a search", n)
                if 1 in may and strat:
                    if last == "live" and cnt is not True: cx.run.report("unsatisfiability is reported although approximation clauses were enabled in the last search", n)
                    if isinstance(last, tuple) or last == "?": ck.note(rule, "assumptions of the last search not understood")
                if last is not None and len(alts) == 1 and v[0] == "lb" and not verd <= {v[1]} and v[1] != 2: cx.run.report("the answer differs from the result of the last search", n)
            return None
        def ed(n, c, cx, u):
            strat, pend, nxt, last, verd, cnt, vs = u
            if c[0] == "case": return u
            fr = n.frame
            class C: pass
            e = c[0]
            x = fr.func.x[fr.func.strip(e)]
            v, pol = cx.g.val(fr, e, dict(cx.env)), c[1]
            while v[0] == "not": v, pol = v[1], not pol
            b = boolexpr(n, e, cx, dict(vs))
            b = b if c[1] else neg(b)      # truth of the taken edge
            if b == 0: return STOP
            if b == "c0": cnt = True
            if b == "n0": cnt = False
            d = fr.func.localref(fr.func.strip(e))
            if v[0] == "op" and v[1] in ("==", "!="):
                a, l = v[2], v[3]
                if a[0] == "lb": a, l = l, a
                if l[0] == "lb" and any(vsolve(z) for z in either(a)):
                    s = (v[1] == "==") == pol
                    verd = verd & {l[1]} if s else verd - {l[1]}
                    if not verd: return STOP
            return (strat, pend, nxt, last, verd, cnt, vs)
        ck.run(rule, g, tr, (False, False, None, None, ALL, None, frozenset()), lambda k: has(k, lambda z: z == MAX), ed, subject=f.q)


def lit(v, env):
    r = ceval(v, env)
    if r is None and v[0] == "call" and short(v[1]) in ("activatedAssumptionLit", "deactivatedAssumptionLit"): return None
    return r


def rets(ck, f, prims=()):
    g = ck.graph(f, prims); out = []
    def tr(n, cx):
        if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0: out.append((cx.val(n.x["a"]), dict(cx.facts), n))
        return None
    Run(g, tr, None, lambda k: True)
    return out


def r_encoding(ck, rule="an approximation clause is the conjecture plus the literal that deactivates it"):
    p = ck.prog
    def one(q, envs):
        f = ck.fns(q)[0]; got = {}
        for name, env in envs(f):
            for v, fa, n in rets(ck, f):
                if consistent(fa, env) is False: continue
                got[name] = (ceval(v, env), n, v)
        return f, got
    V = lambda f: [(v, {P(f, 0): v}) for v in (4, 9)]
    fa, act = one("Candy::activatedAssumptionLit", V)
    fd, dea = one("Candy::deactivatedAssumptionLit", V)
    A, D = act.get(4, (None,))[0], dea.get(4, (None,))[0]
    if A is None or D is None: ck.note(rule, "assumption literals not evaluated"); return
    ck.judge(rule, fa.q, A[0] == 4 and act[9][0] is not None and act[9][0][0] == 9 and act[9][0][1] == A[1], fa.where(), "the assumption literal does not belong to the assumption variable")
    ck.judge(rule, fd.q, D[0] == 4 and D[1] != A[1], fd.where(), "activating and deactivating literal are not each other's negation")
    fi, isa = one("Candy::isActive", lambda f: [(s, {P(f, 0): LitC((4, s))}) for s in (0, 1)])
    for s in (0, 1):
        r = isa.get(s, (None,))[0]
        if r is None: ck.note(rule, "isActive not evaluated"); continue
        ck.judge(rule, "%s(%d)" % (fi.q, s), bool(r) == (s == A[1]), fi.where(), "an assumption literal counts as %s although it is not" % ("active" if r else "inactive"))
    # the position of the assumption literal
    lits = {}
    for q, body in (("Candy::encodeImplication", 2), ("Candy::encodeBackbone", 1)):
        f = ck.fns(q)[0]
        def env(z, f=f):
            if z[0] == "field" and z[1] == P(f, 0):
                n = z[2].rsplit("::", 1)[-1]
                return LitC((1, s1)) if n in ("first", "m_lit") else LitC((2, s2)) if n == "second" else None
            if z[0] == "call" and short(z[1]) == "getLit": return LitC((1, s1))
            if z == P(f, 1): return 4
            return None
        for s1 in (0, 1):
            for s2 in (0, 1):
                for v, facts, n in rets(ck, f):
                    if v[0] == "obj": ck.note(rule, q + " builds the clause step by step"); continue
                    il = next((z for z in walk(v) if isinstance(z, tuple) and z and z[0] == "ilist"), None)
                    if il is None: ck.note(rule, q + " not evaluated"); continue
                    c = [ceval(a, env) for a in il[1]]
                    if None in c: ck.note(rule, q + ": %s not evaluated" % vstr(il)); continue
                    want = {LitC((1, 1 - s1)), LitC((2, s2)), LitC((4, 1 - A[1]))} if body == 2 else {LitC((1, s1)), LitC((4, 1 - A[1]))}
                    ck.judge(rule, "%s(%d,%d)" % (q, s1, s2), set(c) == want and len(c) == len(want), n.line(), "the clause %s is not the conjecture with its deactivating literal" % " ".join(show(l) for l in c))
                    if set(c) == want: lits[body] = c.index(LitC((4, 1 - A[1])))
    f = ck.fns("Candy::getAssumptionLit")[0]
    for v, facts, n in rets(ck, f):
        for body, pos in lits.items():
            def sz(z): return body + 1 if z[0] == "size" else None
            if consistent(facts, sz) is False: continue
            i = body if v[0] == "back" else ceval(v[2], sz) if v[0] == "at" else None
            if i is None: ck.note(rule, "getAssumptionLit not evaluated"); continue
            ck.judge(rule, "%s/%d" % (f.q, body), i == pos, n.line(), "another literal of the clause is taken for its assumption literal")
    f = ck.fns("Candy::getNonAssumptionLits")[0]
    g = ck.graph(f, ())
    def tr(n, cx):
        st = cx.ust
        idx = None
        if n.kind == "write" and cx.lhs()[0] == "field" and fieldof(cx.lhs()) in ("first", "second"): st = setk(st, fieldof(cx.lhs()), cx.rhs())
        if n.kind == "ret" and n.frame is g.rootframe:
            v = cx.val(n.x["a"])
            d = dict(st)
            if v[0] == "mk" and len(v[2]) == 2: d = {"first": v[2][0], "second": v[2][1]}
            for body, pos in lits.items():
                def sz(z): return body + 1 if z[0] == "size" else None
                if consistent(cx.facts, sz) is False: continue
                got = set()
                for a in d.values():
                    for z in ([a] if a[0] != "cond" else [a[2] if ceval(a[1], sz) else a[3]]):
                        if z[0] == "at" and ceval(z[2], sz) is not None: got.add(ceval(z[2], sz))
                        elif z[0] == "back": got.add(body)
                if len(d) == 2 and got and (pos in got or got != set(range(body + 1)) - {pos}): cx.run.report("the literals of the conjecture are not those of the clause without its assumption literal", n)
                if len(d) != 2 or not got: ck.note(rule, "getNonAssumptionLits not evaluated")
        return st
    ck.run(rule, g, tr, frozenset(), "all", subject=f.q)


def setk(st, k, v):
    d = dict(st); d[k] = v
    return frozenset(d.items())


def vals_of(v, pred): return any(pred(z) for z in walk(v) if isinstance(z, tuple) and z)


def r_fresh(ck, rule="assumption variables are fresh and start activated"):
    for f in ck.fns(AR + "::createVariable"):
        mv = ("field", T, AR + "::maxVars")
        g = ck.graph(f, ())
        # number of increments before the value that is returned is read; finally exactly one
        def tr(n, cx):
            inc, ret = cx.ust
            if n.kind == "write" and cx.lhs() == mv:
                if n.x["k"] == "un" and "++" in n.x["op"]: inc += 1
                else:
                    d = [ceval(cx.rhs(), {mv: k}) for k in (5, 8)] if n.x.get("op") == "=" else [k + (ceval(cx.rhs(), {}) or 0) for k in (5, 8)] if n.x.get("op") == "+=" else [None, None]
                    if None in d: ck.note(rule, "update of maxVars not evaluated")
                    elif [d[0] - 5, d[1] - 8] == [1, 1]: inc += 1
                    else: cx.run.report("the number of variables is not increased by one", n)
            return (min(inc, 3), ret)
        def fin(k, u, fa, cx):
            if k == "exit" and u[0] == 0: return "the same assumption variable is given out again"
        ck.run(rule, g, tr, (0, None), None, final=fin, subject=f.q)
        for v, fa, n in rets(ck, f):
            # a variable below the counter: post-increment, or the increased counter minus one
            r = None
            if v[0] == "un" and v[1] == "++": r = 1
            if r: ck.bad(rule, f.q, n.line(), "the variable given out is not the next free one")
    for f in ck.fns(AR + "::init"):
        g = ck.graph(f, (SI + "::*", "Candy::CNFProblem::*"))
        mv = ("field", T, AR + "::maxVars")
        def nv(v): return vals_of(v, lambda z: z[0] == "call" and short(z[1]) == "nVars" or z[0] == "field" and fieldof(z) in ("maxVars", "variables"))
        def tr(n, cx):
            if n.kind == "write" and cx.lhs() == mv:
                v = cx.rhs()
                if not nv(v): cx.run.report("assumption variables may coincide with variables of the problem", n)
                else:
                    E = lambda z: 7 if z[0] == "call" and short(z[1]) == "nVars" or z[0] == "field" and z != mv and fieldof(z) in ("variables", "maxVars") else 0 if z == mv else None
                    r = ceval(v, E)
                    if r is not None and r < 7: cx.run.report("assumption variables may coincide with variables of the problem", n)
                return True
            return cx.ust
        def fin(k, u, fa, cx): return "assumption variables may coincide with variables of the problem" if k == "exit" and not u else None
        ck.run(rule, g, tr, False, "all", final=fin, subject=f.q)
    new = ("Candy::encodeImplication", "Candy::encodeBackbone")
    for f in ck.fns(SR + "::addAssumptionVariable"):
        g = ck.graph(f, ())
        mk = lambda v: v[0] in ("icall", "call") and vals_of(v, lambda z: fieldof(z) == "m_createVariable")
        def tr(n, cx):
            c = cx.ust
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "m_assumptionLits":
                v = cx.arg(0)
                if v[0] in ("mk",) and len(v[2]) == 2 and not is_int(v[2][1]) is None:
                    E = lambda z: 4 if mk(z) else None
                    r = ceval(v, E)
                    if r is not None and r != LitC((4, 0)) and r != LitC((4, 1)): cx.run.report("the assumption literal does not belong to the new variable", n)
                    if r is not None and r == LitC((4, 1)) : cx.run.report("a new approximation clause starts deactivated", n)
                return min(c + 1, 2)
            return c
        def fin(k, u, fa, cx): return "an approximation clause has %s assumption literals" % ("no" if u == 0 else "several") if k == "exit" and u != 1 else None
        ck.run(rule, g, tr, 0, None, final=fin, subject=f.q)


def elemiter(v, C):
    """v denotes the current element of a traversal of the given range"""
    return any(isinstance(z, tuple) and z and (z[0] in ("ivar", "elem", "at", "iterv")) and has(z, C) for z in walk(v))


def rangeof(which): return lambda z: z[0] == "call" and short(z[1]) in ("begin" + which, "end" + which) or z[0] == "field" and fieldof(z) == {"AddedImplications": "m_addedImplications", "RemovedImplications": "m_removedImplications", "RemovedBackbones": "m_removedBackbones"}[which]


def rloop(which):
    """loop over a range of a delta: iterator compared with the end of the range"""
    def it(v, pol):
        while v[0] == "not": v, pol = v[1], not pol
        if v[0] == "op" and v[1] in ("==", "!="):
            if v[1] == "==": pol = not pol
            a, b = v[2], v[3]
            R = rangeof(which)
            if has(a, R) and has(b, R): return pol
        return None
    return it


class Each:
    """every element of a range of the delta (begin*/end* pair or container) is handled"""
    INIT = (0, True, False)      # 0 outside 1 unhandled 2 handled; all so far; a complete pass

    def __init__(self, which, event): self.which = which; self.it = rloop(which); self.event = event

    def step(self, n, cx, st):
        if n.kind == "algoloop":
            lc = algocond(n, cx)
            a = n.frame.func.x[n.e]["args"]
            x = cx.g.val(n.frame, a[0])
            if has(x, rangeof(self.which)): return (1, st[1] and st[0] != 1, st[2])
        if n.kind == "leave" and st[0] and n.x is None: pass
        if st[0] == 1 and self.event(n, cx): return (2,) + st[1:]
        return st

    def edge(self, n, c, cx, st):
        if c[0] == "case": return st
        p = self.it(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
        if p is None: return st
        ok = st[1] and st[0] != 1
        return (1, ok, st[2]) if p else (0, ok, ok)


def delta(which):
    R = rangeof(which)
    return lambda v: has(v, R)


def r_strategy(ck, rule="every refinement step encodes all additions and deactivates all removals"):
    lits = lambda v: fieldof(v) == "m_assumptionLits"
    # additions
    def adder(f, src, enc, table, missing):
        g = ck.graph(f, (SR + "::addAssumptionVariable", SR + "::encode", "Candy::encodeImplication", "Candy::encodeBackbone", "Candy::ApproximationDelta*", "Candy::Backbones*", "Candy::ApproximationState*", BI + "::*", ED + "*"))
        var = lambda v: v[0] == "call" and short(v[1]) == "addAssumptionVariable"
        isenc = lambda v: v[0] == "call" and short(v[1]) == enc or v[0] == "mk" and has(v, var) and has(v, src)
        def pushed(n, cx): return n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and any(src(z) or True for z in ()) or n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and has(cx.arg(0), src) and has(cx.arg(0), var)
        def idx(n, cx):
            if n.kind != "write": return False
            l = cx.lhs()
            return l[0] == "at" and fieldof(l[1]) == table and has(l[2], src)
        return g, pushed, idx, var
    for f in ck.fns(SR + "::encode"):
        S = rangeof("AddedImplications")
        g, pushed, idx, var = adder(f, S, "encodeImplication", "m_assumptionLitsIdxByImpl", "")
        _adder(ck, rule, f, g, pushed, idx, Each, "AddedImplications", "an added implication", "m_assumptionLitsIdxByImpl")
    for f in ck.fns(SR + "::encodeInitial"):
        S = lambda z: z[0] == "call" and short(z[1]) == "getBackbones" or z[0] == "field" and fieldof(z) in ("m_backbones", "m_backbonesCached")
        g, pushed, idx, var = adder(f, S, "encodeBackbone", "m_assumptionLitsIdxByBackbone", "")
        class BB(Each):
            def __init__(self, w, ev):
                self.which = w; self.event = ev
            def it(self, v, pol):
                while v[0] == "not": v, pol = v[1], not pol
                if v[0] == "op" and v[1] in ("==", "!=") and has(v[2], S) and has(v[3], S): return pol if v[1] == "!=" else not pol
                return None
        _adder(ck, rule, f, g, pushed, idx, BB, "RemovedBackbones", "a backbone", "m_assumptionLitsIdxByBackbone")
        # the clauses of the implications are part of the result
        def tr(n, cx):
            if n.kind == "call" and n.fn() == SR + "::encode": return (True, cx.ust[1])
            if n.kind in ("ctor", "call") and cx.ust[0] and any(has(cx.arg(i), lambda z: z[0] == "call" and short(z[1]) == "getNewClauses" or fieldof(z) == "m_newClauses") for i in range(cx.nargs())): return (True, True)
            return cx.ust
        ck.run(rule, g, tr, (False, False), None, final=lambda k, u, fa, cx: "the first approximation lacks the clauses of the implications" if k == "exit" and not u[1] else None, subject=f.q + " (implications)")
    # removals
    for f in ck.fns(SR + "::updateAssumptionLiterals"):
        g = ck.graph(f, ("Candy::ApproximationDelta*",))
        for which, table, what in (("RemovedBackbones", "m_assumptionLitsIdxByBackbone", "backbone"), ("RemovedImplications", "m_assumptionLitsIdxByImpl", "implication")):
            R = rangeof(which)
            def slot(v): return v[0] == "at" and lits(v[1])
            def idxof(v): return any(isinstance(z, tuple) and z and (z[0] == "at" and fieldof(z[1]) == table and has(z[2], R) or z[0] == "call" and short(z[1]) in ("at", "find") and z[2] is not None and fieldof(z[2]) == table and any(has(a, R) for a in z[3])) for z in walk(v))
            def event(n, cx):
                if n.kind != "write": return False
                l = cx.lhs()
                if not slot(l) or not idxof(l[2]): return False
                r = ceval(cx.rhs(), lambda z: LitC((6, 0)) if slot(z) and idxof(z[2]) else None)
                r2 = ceval(cx.rhs(), lambda z: LitC((6, 1)) if slot(z) and idxof(z[2]) else None)
                if r is None:
                    ck.note(rule, "new assumption literal %s not evaluated" % vstr(cx.rhs())); return True
                if r != LitC((6, 1)) or r2 not in (None, LitC((6, 1))): cx.run.report("the assumption literal of a removed %s is not deactivated" % what, n)
                return True
            m = Each(which, event)
            ck.run(rule, g, lambda n, cx, m=m: m.step(n, cx, cx.ust), Each.INIT, lambda k: has(k, R) and k[0] == "eq", lambda n, c, cx, u, m=m: m.edge(n, c, cx, u), final=lambda k, u, fa, cx, what=what: "a removed %s may stay enabled" % what if k == "exit" and not u[2] else None, subject=f.q + " " + what)
    # order of a refinement step
    order = {SR + "::updateApproximationState": 0, AS + "::createDelta": 1, "Candy::ApproximationState::createDelta": 1, SR + "::updateAssumptionLiterals": 2, SR + "::encode": 3}
    for f in ck.fns(SR + "::refine"):
        g = ck.graph(f, (SR + "::*", AS + "::*", "Candy::ApproximationState::*"))
        def tr(n, cx):
            st = cx.ust
            if n.kind == "call" and n.fn() in order:
                k = order[n.fn()]
                if k == 3 and 2 not in st: cx.run.report("the number of enabled clauses is determined before the removed ones are deactivated", n)
                if k == 2 and 3 in st: cx.run.report("removals are applied after the additions", n)
                if k in (2, 3) and 1 not in st: cx.run.report("an outdated change set is encoded", n)
                if k in (2, 3):
                    a = cx.arg(0)
                    if not has(a, lambda z: z[0] == "call" and short(z[1]) == "createDelta"): cx.run.report("another change set is encoded than the one of this step", n) if has(a, lambda z: z[0] == "call") else None
                return st | {k}
            return st
        def fin(k, u, fa, cx):
            if k != "exit": return None
            if 3 not in u: return "the changes of a refinement step are not encoded"
            if 2 not in u: return "removed approximations stay enabled"
        ck.run(rule, g, tr, frozenset(), None, final=fin, subject=f.q)
    for f in ck.fns(ED + "Impl::countEnabledClauses"):
        g0 = [x for x in ck.prog.funcs.values() if x.kind == "ctor" and x.q.rsplit("::", 1)[0] == ED + "Impl" and len(x.params) == 2]
        for h in g0:
            g = ck.graph(h, ("Candy::isActive",))
            seen = [0]
            def tr(n, cx):
                if n.kind == "write" and fieldof(cx.lhs()) == "m_activeClauseCount" and cx.rhs()[0] == "algo":
                    seen[0] += 1
                    v = cx.rhs()
                    act = lambda z: z[0] == "call" and short(z[1]) == "isActive"
                    if v[1] != "count_if" and v[1] not in ("count",): cx.run.report("the enabled clauses are not counted", n)
                    elif v[4] != "full": cx.run.report("only a part of the assumption literals is counted", n)
                    else:
                        for s in (0, 1):
                            r = ceval(v[3], lambda z: LitC((3, s)) if z[0] == "elem" else int(s == 0) if act(z) else None)
                            if r is not None and bool(r) != (s == 0): cx.run.report("%s clauses are counted as enabled" % ("disabled" if r else "not all enabled"), n)
                return None
            ck.run(rule, g, tr, None, None, subject=h.pretty)


def _adder(ck, rule, f, g, pushed, idx, E, which, what, table):
    m1 = E(which, pushed); m2 = E(which, idx)
    order = lambda n, cx: None
    def tr(n, cx):
        a, b, nv = cx.ust
        if n.kind == "call" and n.fn() == SR + "::addAssumptionVariable": nv = min(nv + 1, 2)
        if pushed(n, cx):
            if a[0] == 2: cx.run.report("the clause of %s is added twice" % what, n)
            if nv == 0: cx.run.report("two approximation clauses share an assumption variable", n)
            if nv == 2: cx.run.report("an assumption variable belongs to no clause", n)
            nv = 0 if nv else nv
        if idx(n, cx):
            last = ("size", None)
            r = [ceval(cx.rhs(), lambda z, k=k: k if z[0] == "size" and fieldof(z[1]) == "m_assumptionLits" else None) for k in (3, 8)]
            if None in r: ck.note(rule, "index %s not evaluated" % vstr(cx.rhs()))
            elif b[0] and not (r == ([2, 7] if nv or a[0] == 2 else [3, 8])): cx.run.report("%s is associated with another clause's assumption literal" % what, n)
        return (m1.step(n, cx, a), m2.step(n, cx, b), nv)
    def ed(n, c, cx, u): return (m1.edge(n, c, cx, u[0]), m2.edge(n, c, cx, u[1]), u[2])
    def fin(k, u, fa, cx):
        if k != "exit": return None
        if not u[0][2]: return "%s may be left without a clause" % what
        if not u[1][2]: return "the assumption literal of %s may not be found when it is removed" % what
    ck.run(rule, g, tr, (Each.INIT, Each.INIT, 0), None, ed, final=fin, subject=f.q)


def r_add(ck, rule="all new approximation clauses reach the solver"):
    for f in ck.fns(AR + "::addApproximationClauses"):
        g = ck.graph(f, PR[:1] + ("Candy::CNFProblem::*", ED + "*", "Candy::getAssumptionLit", "Candy::getNonAssumptionLits"))
        C = lambda c: c[0] == "call" and short(c[1]) == "getNewClauses" or c[0] == "field" and fieldof(c) == "m_newClauses"
        def own(v): return v[0] in ("elem", "at") and C(v[1])
        def read(n, cx): return n.kind == "call" and n.fn() in ("Candy::CNFProblem::readClause",) and (has(cx.arg(0), own))
        def reg(n, cx):
            if n.kind != "write": return False
            l = cx.lhs(); return l[0] == "at" and fieldof(l[1]) == "m_approxLitsByAssumption" and has(l[2], own)
        m = ForEach(C, read); k = ForEach(C, reg)
        def tr(n, cx):
            a, b, sent, dirty = cx.ust
            if read(n, cx):
                if a[0] is not None and a[0][0]: cx.run.report("an approximation clause is added twice", n)
                dirty = True
            if n.kind == "call" and n.fn() == SI + "::init":
                sent = True
                if not a[1]: cx.run.report("the approximation is handed to the solver before all its clauses have been added", n)
            return (m.step(n, cx, a), k.step(n, cx, b), sent, dirty)
        def fin(kd, u, fa, cx):
            if kd != "exit": return None
            if not u[0][1]: return "an approximation clause may be missing"
            if not u[2]: return "the approximation clauses are not handed to the solver"
            if not u[1][1]: return "the literals of an approximation clause may not be found when it causes a conflict"
        ck.run(rule, g, tr, (ForEach.INIT, ForEach.INIT, False, False), None, lambda n, c, cx, u: (m.edge(n, c, cx, u[0]), k.edge(n, c, cx, u[1])) + u[2:], final=fin, subject=f.q, fe=[m, k])


def r_state(ck, rule="the approximation state reports every change"):
    # the maps of an equivalence
    for q, op in ((EI + "::addImplication", "add"), (EI + "::removeImplication", "remove")):
        for f in ck.fns(q):
            g = ck.graph(f, ())
            imp = P(f, 0)
            side = {"m_implicationsByAnte": "first", "m_implicationsBySucc": "second"}
            key = lambda s: (lambda v: v[0] == "var_of" and v[1][0] == "field" and v[1][1] == imp and fieldof(v[1]) == s)
            def tr(n, cx):
                st = cx.ust
                for fld_, s in side.items():
                    if op == "add":
                        if n.kind == "write" and cx.lhs()[0] == "at" and fieldof(cx.lhs()[1]) == fld_:
                            if not key(s)(cx.lhs()[2]): cx.run.report("an implication is filed under another variable", n)
                            elif cx.rhs() != imp and cx.rhs()[0] != "param" and not (cx.rhs()[0] == "mk"): cx.run.report("another implication is filed", n)
                            st = st | {s}
                        if n.kind == "call" and short(n.fn()) in ("insert", "emplace", "insert_or_assign") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == fld_: st = st | {s}
                    elif n.kind == "call" and short(n.fn()) == "erase" and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == fld_:
                        a = cx.arg(0)
                        if a[0] == "var_of" and not key(s)(a): cx.run.report("an implication is removed under another variable", n)
                        st = st | {s}
                return st
            ck.run(rule, g, tr, frozenset(), None, final=lambda k, u, fa, cx: "an implication is kept in only one of the two maps" if k == "exit" and len(u) < 2 else None, subject=f.q)
    for f in ck.fns(EI + "::updateCache"):
        g = ck.graph(f, ())
        m = ForEach(lambda c: fieldof(c) in ("m_implicationsByAnte", "m_implicationsBySucc"), lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and fieldof(cx.obj()) == "m_implicationsCached" and has(cx.arg(0), lambda z: fieldof(z) == "second" and z[1][0] == "elem"))
        _cache(ck, rule, f, g, m, "m_implicationsCached", "implication")
    # commits
    for f in ck.fns(BI + "::commitWorkQueue"):
        g = ck.graph(f, ())
        m = ForEach(lambda c: fieldof(c) == "m_backbones", lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "m_backbonesCached")
        _cache(ck, rule, f, g, m, "m_backbonesCached", "backbone", bulk=True)
        # erased <-> reported, for both signs
        def tr(n, cx):
            er, rep = cx.ust
            if n.kind == "call" and short(n.fn()) == "erase" and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "m_backbones":
                if er is not None and er != "ok": cx.run.report("a removed backbone is not reported", n)
                a = cx.arg(0)
                if rep == a: return (None, None)
                return (a, rep)
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "removedBackbones":
                a = cx.arg(0)
                if er is not None and er[0] in ("mk", "neg", "phi") and a[0] in ("mk", "neg", "phi"):
                    if a != er: cx.run.report("another backbone is reported as removed", n)
                    return (None, None)
                if er is not None: return (None, None)
                return (None, a)
            return (er, rep)
        def edr(n, c, cx, u):
            if c[0] == "case" or u[0] is None: return u
            v, pol = cx.g.val(n.frame, c[0], dict(cx.env)), c[1]
            while v[0] == "not": v, pol = v[1], not pol
            er = [z for z in walk(v) if isinstance(z, tuple) and z and z[0] == "call" and short(z[1]) == "erase"]
            if er:
                r = [ceval(v, lambda z, k=k: k if z in er else None) for k in (0, 1)]
                if None not in r and bool(r[0]) == pol and bool(r[1]) != pol: return (None, u[1])     # nothing was removed
            return u
        def fin(k, u, fa, cx):
            if k == "exit" and u[0] is not None: return "a removed backbone is not reported"
            if k == "exit" and u[1] is not None: return "a backbone is reported as removed although it is kept"
        ck.run(rule, g, tr, (None, None), None, edr, final=fin, subject=f.q + " (report)")
        w = ForEach(lambda c: fieldof(c) == "m_removalWorkQueue", None, lambda cx: removedboth(cx))
        def removedboth(cx): return True
        _both(ck, rule, f, g)
        must(ck, rule, g, lambda n, cx: n.kind == "call" and short(n.fn()) in ("clear", "swap") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "m_removalWorkQueue" or n.kind == "write" and fieldof(cx.lhs()) == "m_removalWorkQueue", "requested removals are kept for the next step", subject=f.q + " (queue)")
    for f in ck.fns(EI + "::commitWorkQueue"):
        g = ck.graph(f, (EI + "::addImplication", EI + "::removeImplication", EI + "::updateCache"))
        dirtyop = (EI + "::addImplication", EI + "::removeImplication")
        def res(n, cx, name): return n.kind == "call" and short(n.fn()) in ("push_back", "insert", "emplace_back") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == name
        def val(v): return v
        def tr(n, cx):
            dirty, added, removed = cx.ust
            if n.kind == "call" and n.fn() == EI + "::addImplication":
                a = cx.arg(0)
                if added is not None and added[0] == "rep" and added[1] != a: cx.run.report("another implication is reported as added", n)
                return (True, None if added is not None and added[0] == "rep" else ("add", a), removed)
            if res(n, cx, "newImplications"):
                a = cx.arg(cx.nargs() - 1)
                if added is not None and added[0] == "add":
                    if added[1] != a: cx.run.report("another implication is reported as added", n)
                    return (dirty, None, removed)
                return (dirty, ("rep", a), removed)
            if n.kind == "call" and n.fn() == EI + "::removeImplication":
                a = cx.arg(0)
                c = a[1] if a[0] in ("elem", "at") else None
                return (True, added, ("rm", c if c is not None else a) if removed is None or removed[0] != "done" or True else removed)
            if res(n, cx, "removedImplications"):
                a = cx.arg(1) if short(n.fn()) == "insert" and cx.nargs() == 3 else cx.arg(cx.nargs() - 1)
                if a[0] == "iter" and cx.nargs() == 3:
                    b = cx.arg(2)
                    if a[2] != 0 or b[0] != "iter" or b[2] != "end" or b[1] != a[1]: cx.run.report("only a part of the removed implications is reported", n)
                    a = a[1]
                elif a[0] in ("elem", "at"): a = a[1]
                if removed is not None and removed[0] == "rm" and removed[1] != a and removed[1][0] == "obj": cx.run.report("other implications are reported as removed", n)
                return (dirty, added, None)
            if n.kind == "call" and n.fn() == EI + "::updateCache": return (False, added, removed)
            if n.kind == "ret" and n.frame is g.rootframe:
                if dirty: cx.run.report("the list of implications is not brought up to date", n)
                if added is not None: cx.run.report("a new implication is not reported" if added[0] == "add" else "an implication is reported as new but not kept", n)
                if removed is not None: cx.run.report("removed implications are not reported", n)
            return None
        ck.run(rule, g, tr, (False, None, None), None, subject=f.q)
        # a whole removal sequence is removed
        m = ForEach(lambda c: c[0] == "obj", lambda n, cx: n.kind == "call" and n.fn() == EI + "::removeImplication" and cx.arg(0)[0] in ("elem", "at"))
        def fin(k, u, fa, cx): return None
        # a replacement connects the ends of the sequence and only if both stay
        Q = lambda v: fieldof(v) == "m_varRemovalWorkQueue"
        def tr2(n, cx):
            if n.kind == "call" and n.fn() == EI + "::addImplication":
                a = cx.arg(0)
                if a[0] != "mk" or len(a[2]) != 2: return None
                x, y = a[2]
                def endof(v, first): return v[0] == "field" and fieldof(v) == ("first" if first else "second") and (v[1][0] == "at" and v[1][2] == ("int", 0) or v[1][0] == "front") if first else v[0] == "field" and fieldof(v) == "second" and (v[1][0] == "back" or v[1][0] == "at" and has(v[1][2], lambda z: z[0] == "size"))
                if x[0] == "field" and y[0] == "field":
                    if fieldof(x) != "first" or fieldof(y) != "second" or not endof(x, True) or not endof(y, False): cx.run.report("the implication between the ends of a removed sequence is replaced by another one", n)
                for w in (x, y):
                    if w not in cx.ust: cx.run.report("an implication is added for a variable that is being removed", n)
            if n.kind == "call" and n.x.get("obj", -1) >= 0 and cx.obj()[0] == "obj" and short(n.fn()) in ("push_back", "push_front", "insert", "clear", "emplace_back"): return frozenset(z for z in cx.ust if not has(z, lambda y: y == cx.obj()))
            if n.kind == "call" and short(n.fn()) in ("insert", "emplace") and n.x.get("obj", -1) >= 0 and Q(cx.obj()): return frozenset()
            return None
        def ed2(n, c, cx, u):
            if c[0] == "case": return u
            v, pol = cx.g.val(n.frame, c[0], dict(cx.env)), c[1]
            while v[0] == "not": v, pol = v[1], not pol
            look = [z for z in walk(v) if isinstance(z, tuple) and z and z[0] == "call" and short(z[1]) in ("find", "count", "contains") and z[2] is not None and Q(z[2])]
            if len(look) == 1:
                a = look[0][3][0]
                absent = (v[0] == "op" and v[1] in ("==", "!=") and (v[1] == "==") == pol) if short(look[0][1]) == "find" else (pol if v[0] == "op" and v[1] == "==" else not pol)
                if absent: return u | {a[1] if a[0] == "var_of" else a}
            return u
        ck.run(rule, g, tr2, frozenset(), lambda k: k[0] in ("eq", "zero") and has(k, lambda z: z[0] == "obj"), ed2, subject=f.q + " (replacement)")
    # the deltas
    for q in (AS + "::createDelta", AS + "::createInitializationDelta"):
        for f in ck.fns(q):
            g = ck.graph(f, (BI + "::commitWorkQueue*", EI + "::commitWorkQueue*", "Candy::createApproximationDelta"))
            EQ = lambda c: fieldof(c) in ("m_equivalenceImplications", "m_equivalenceImplicationsRawPtr")
            com = lambda v: v[0] == "call" and v[1].startswith(EI + "::commitWorkQueue")
            first = "Initialization" in q
            if first:
                ev = lambda n, cx: n.kind == "call" and n.fn().startswith(EI + "::commitWorkQueue")
            else:
                ev = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and (com(cx.arg(0)) or cx.arg(0)[0] == "mk" and has(cx.arg(0), com))
            m = ForEach(EQ, ev)
            bb = lambda n: n.kind == "call" and n.fn().startswith(BI + "::commitWorkQueue")
            # first: implications are listed after their commit
            inner = ForEach(lambda c: fieldof(c) == "m_implicationsCached" or c[0] in ("elem", "at") and EQ(c[1]), lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and has(cx.obj(), lambda z: fieldof(z) == "newImplications"))
            def tr(n, cx, m=m, bb=bb, first=first, inner=inner, com=com):
                a, b, i, cm, listed = cx.ust
                if n.kind == "call" and n.fn().startswith(EI + "::commitWorkQueue"): cm = True; i = ForEach.INIT
                if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and has(cx.obj(), lambda z: fieldof(z) == "newImplications") and not cm: cx.run.report("implications are listed before requested removals are applied", n)
                if bb(n): b = True
                if n.kind in ("call", "ctor") and n.fn() == "Candy::createApproximationDelta":
                    if not b: cx.run.report("removed backbones are not part of the change set", n)
                    if not first:
                        v = cx.arg(1)
                        if not has(v, lambda z: z[0] == "call" and z[1].startswith(BI + "::commitWorkQueue")): cx.run.report("removed backbones are not part of the change set", n)
                a = m.step(n, cx, a)
                i = inner.step(n, cx, i)
                return (a, b, i, cm, listed)
            def ed(n, c, cx, u, m=m, inner=inner, first=first):
                a = m.edge(n, c, cx, u[0]); i = inner.edge(n, c, cx, u[2])
                cm, listed = u[3], u[4]
                if a != u[0] and m.keys is not None:
                    # next equivalence, or the end of the traversal
                    if first and cm and not i[1] and inner.keys: cx.run.report("not all implications are part of the first approximation", n)
                    cm = False; i = ForEach.INIT
                return (a, u[1], i, cm, listed)
            def fin(k, u, fa, cx):
                if k == "exit" and not u[0][1]: return "not every equivalence is part of the change set"
            ck.run(rule, g, tr, (ForEach.INIT, False, ForEach.INIT, False, False), None, ed, final=fin, subject=f.q, fe=[m, inner])
    # the change set object
    for f in [x for x in ck.prog.funcs.values() if x.kind == "ctor" and x.q.rsplit("::", 1)[0] == "Candy::ApproximationDeltaImpl" and len(x.params) == 2]:
        g = ck.graph(f, ())
        for dst, src in (("m_addedImplications", "newImplications"), ("m_removedImplications", "removedImplications")):
            def ev(n, cx, dst=dst, src=src):
                if n.kind != "call" or n.x.get("obj", -1) < 0 or fieldof(cx.obj()) != dst: return False
                for i in range(cx.nargs()):
                    a = cx.arg(i)
                    if has(a, lambda z: fieldof(z) in ("newImplications", "removedImplications")):
                        if not has(a, lambda z: fieldof(z) == src): cx.run.report("%s implications are taken for %s ones" % (("removed", "added") if src[0] == "n" else ("added", "removed")), n)
                        if short(n.fn()) == "insert" and i == 1 and a[0] == "iter" and (a[2] != 0 or cx.arg(2)[2] != "end"): return False
                        return True
                return False
            m = ForEach(lambda c: c == P(f, 0), ev)
            ck.run(rule, g, lambda n, cx, m=m: m.step(n, cx, cx.ust), ForEach.INIT, None, lambda n, c, cx, u, m=m: m.edge(n, c, cx, u), final=lambda k, u, fa, cx, src=src: "%s may be lost in the change set" % src if k == "exit" and not u[1] else None, subject=f.pretty + " " + dst, fe=[m])
        seen = [0]
        for n in g.nodes: pass
    for nm, fld_ in (("AddedImplications", "m_addedImplications"), ("RemovedImplications", "m_removedImplications"), ("RemovedBackbones", "m_removedBackbones")):
        for which, w in (("begin", 0), ("end", "end")):
            for f in ck.fns("Candy::ApproximationDeltaImpl::" + which + nm):
                for v, fa, n in rets(ck, f):
                    if v[0] == "iter": ck.judge(rule, f.q, fieldof(v[1]) == fld_ and v[2] == w, n.line(), "%s%s does not give its own list" % (which, nm))
                    else: ck.note(rule, f.q + " not evaluated")
    # construction of the implications of an equivalence: a complete cycle
    for f in [x for x in ck.prog.funcs.values() if x.kind == "ctor" and x.q.rsplit("::", 1)[0] == EI and len(x.params) == 1 and "Conjecture" in (x.params[0].get("t") or "Conjecture") and not x.params[0]["n"].startswith("other")]:
        g = ck.graph(f, (EI + "::addImplication", EI + "::updateCache", "Candy::EquivalenceConjecture::*"))
        def tr(n, cx):
            if n.kind == "call" and n.fn() == EI + "::addImplication":
                a = cx.arg(0)
                if a[0] == "mk" and len(a[2]) == 2:
                    idx = []
                    for z in a[2]:
                        i = z[3][0] if z[0] == "call" and short(z[1]) == "at" else z[2] if z[0] == "at" else ("ivar", "elem", ("int", 0), ()) if z[0] == "elem" else None
                        idx.append(i)
                    if None in idx: ck.note(rule, "implication %s not evaluated" % vstr(a)); return None
                    for N in (2, 3, 6):
                        for k in range(N - 1):
                            E = lambda z: N if z[0] in ("size",) or z[0] == "call" and short(z[1]) == "size" else k if z[0] in ("ivar",) else None
                            i, j = ceval(idx[0], E), ceval(idx[1], E)
                            if i is None or j is None: ck.note(rule, "implication index not evaluated"); return None
                            if not (0 <= i < N and 0 <= j < N and (j - i) % N in (1, N - 1)): cx.run.report("an implication does not connect neighbours of the equivalence", n); return None
            return None
        ck.run(rule, g, tr, None, None, subject=f.pretty)


def _cache(ck, rule, f, g, m, fld_, what, bulk=False):
    def tr(n, cx):
        st, cleared, stale = cx.ust
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == fld_:
            if short(n.fn()) == "clear": cleared = True; st = ForEach.INIT
            if short(n.fn()) == "assign": cleared = True; st = (None, True)
            if short(n.fn()) in ("push_back", "emplace_back") and not cleared: cx.run.report("the list of %ss keeps removed ones" % what, n)
        if n.kind == "call" and short(n.fn()) in ("erase", "insert", "clear") and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == "m_backbones" and bulk:
            if st[1] or cleared: cx.run.report("the list of %ss is updated before the removal" % what, n)
        if n.kind == "write" and fieldof(cx.lhs()) == fld_: st = (None, True); cleared = True
        return (m.step(n, cx, st), cleared, stale)
    ck.run(rule, g, tr, (ForEach.INIT, False, False), None, lambda n, c, cx, u: (m.edge(n, c, cx, u[0]),) + u[1:], final=lambda k, u, fa, cx: "the list of %ss may be incomplete" % what if k == "exit" and not u[0][1] else None, subject=f.q + " (list)", fe=[m])


def _both(ck, rule, f, g):
    """for every requested variable, both literals are looked up before the request counts as done"""
    Q = lambda c: fieldof(c) == "m_removalWorkQueue"
    B = lambda v: fieldof(v) == "m_backbones"
    def sign(v):
        r = ceval(v, lambda z: 5 if z[0] in ("elem", "at") and Q(z[1]) else None)
        return r[1] if isinstance(r, LitC) and r[0] == 5 else None
    def look(v):
        for z in walk(v):
            if isinstance(z, tuple) and z and z[0] == "call" and short(z[1]) in ("find", "count", "erase", "contains") and z[2] is not None and B(z[2]) and z[3]: yield z[3][0]
    vague = []
    def pre(n, cx):
        if n.kind == "call" and short(n.fn()) in ("find", "count", "erase", "contains") and n.x.get("obj", -1) >= 0 and B(cx.obj()) and sign(cx.arg(0)) is None: vague.append(n)
        return None
    Run(g, pre)
    if vague: ck.note(rule, "literal looked up in %s not evaluated" % f.q); return
    def tr(n, cx):
        cur, done, signs = cx.ust
        if n.kind == "call" and short(n.fn()) == "erase" and n.x.get("obj", -1) >= 0 and B(cx.obj()):
            s = sign(cx.arg(0))
            if s is not None: signs = signs | {0, 1} if True else signs
        if n.kind == "call" and short(n.fn()) in ("find", "count", "contains") and n.x.get("obj", -1) >= 0 and B(cx.obj()):
            s = sign(cx.arg(0))
            signs = signs | ({s} if s is not None else {0, 1})
        return (cur, done, signs)
    def ed(n, c, cx, u):
        cur, done, signs = u
        if c[0] == "case": return u
        v = cx.g.val(n.frame, c[0], dict(cx.env))
        lc = loopcond(v, c[1])
        if lc is None or not Q(lc[0]):
            for a in look(v):
                s = sign(a)
                w, pol = v, c[1]
                while w[0] == "not": w, pol = w[1], not pol
                found = w[0] == "op" and w[1] in ("==", "!=") and (w[1] == "!=") == pol
                signs = signs | ({s} if s is not None and not found else {0, 1})      # a variable has one backbone literal
            return (cur, done, signs)
        if cur and len(signs) < 2: cx.run.report("a backbone of a variable to be removed may be kept", n)
        return (lc[1], done or not lc[1], frozenset())
    ck.run(rule, g, tr, (False, False, frozenset()), None, ed, final=lambda k, u, fa, cx: "requested removals may be ignored" if k == "exit" and not u[1] else None, subject=f.q + " (both signs)")


P22 = [r_solve, r_encoding, r_fresh, r_strategy, r_add, r_state]
