"""P11: the IPASIR interface; P27: interruption."""
from .lib import *
from .ev import *
from .solver import UNITS, each
IP = "IPASIRCandy"
PRIM = ("Candy::CNFProblem::*", "Candy::CandySolverInterface::*", "Candy::Solver::*", "Candy::ARSolver*", "Candy::createSolver", "Candy::CandyBuilder*", "Candy::Trail::*")
MODEL = lambda v: fieldof(v) == "model"


def isprob(v): return v[0] == "field" and v[1] == ("this",) and v[2].startswith(IP + "::")


def lits(p): return [("literal %d" % l, {p: l}) for l in (1, -1, 5, -5)]


def want_lit(name):
    l = int(name.split()[-1]); return LitC((abs(l) - 1, int(l < 0)))


def calling(name):
    return lambda n, cx: n.kind == "call" and short(n.fn()) == name and n.x.get("obj", -1) >= 0


def push(fld):
    return lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and (fieldof(cx.obj()) == fld and isprob(cx.obj()))


def pushed(n, cx):
    if short(n.fn()) == "emplace_back" and cx.nargs() > 1: return ("mk", "Candy::Lit", tuple(cx.arg(i) for i in range(cx.nargs())))
    return cx.arg(0)


def litfield(ck, f, exclude=()):
    """the literal buffers of the wrapper this function pushes to"""
    g = ck.graph(f, PRIM); out = set()
    for n in g.nodes:
        if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0:
            v = g.val(n.frame, n.x["obj"])
            if isprob(v): out.add(fieldof(v))
    return out


def i_add(ck, rule="add: every literal of a clause enters it with its variable and sign, and 0 hands over exactly the collected clause"):
    for f in ck.fns(IP + "::add"):
        g = ck.graph(f, PRIM); p = P(f, 0)
        fl = litfield(ck, f)
        if len(fl) != 1: ck.note(rule, "clause buffer not recognised"); continue
        buf = fl.pop(); isbuf = lambda v: v[0] == "field" and fieldof(v) == buf and isprob(v)
        table(ck, rule, g, lits(p), want_lit, "the literal added", push(buf), pushed, subject="add(lit)")
        z = ("zero", p)
        def give(n, cx):
            if n.kind != "call" or n.x.get("obj", -1) < 0 or not n.fn().startswith("Candy::CNFProblem::"): return None
            a = [cx.arg(i) for i in range(cx.nargs())]
            if not any(has(x, isbuf) for x in a): return None
            full = len(a) == 1 and isbuf(a[0]) or len(a) == 2 and a[0][0] == "iter" and a[1][0] == "iter" and isbuf(a[0][1]) and a[0][2] == 0 and a[1][2] == "end"
            off = len(a) == 2 and a[0][0] == "iter" and a[1][0] == "iter" and (a[0][2] != 0 or a[1][2] != "end")
            return True if full else False if off else None
        # state: pushes, clause handed over, buffer emptied
        def tr(n, cx):
            ps, gv, cl = cx.ust
            if n.kind == "block": return cx.ust
            if push(buf)(n, cx):
                if cx.facts.get(z) is True: cx.run.report("the terminating 0 enters the clause as a literal", n)
                if cl: cl = False
                return (min(ps + 1, 2), gv, cl)
            h = give(n, cx)
            if h is not None:
                if h is False: cx.run.report("only a part of the clause is handed over", n)
                if cl: cx.run.report("the clause is emptied before it is handed over", n)
                if cx.facts.get(z) is False: cx.run.report("the clause is handed over before it is complete", n)
                if gv: cx.run.report("the clause is handed over twice", n)
                return (ps, True, cl)
            if n.kind == "call" and short(n.fn()) in ("clear", "resize", "assign", "swap") and n.x.get("obj", -1) >= 0 and isbuf(cx.obj()) or n.kind == "write" and isbuf(cx.lhs()):
                if cx.facts.get(z) is False: cx.run.report("literals collected earlier are dropped", n)
                return (ps, gv, True)
            return cx.ust
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            ps, gv, cl = u; isz = facts.get(z)
            if isz is True:
                if not gv: return "the clause is not handed over on 0"
                if not cl: return "the literals of a finished clause stay in the next clause"
            if isz is False and ps != 1: return "a literal is " + ("not added" if not ps else "added twice")
        ck.run(rule, g, tr, (0, False, False), lambda k: k == z, final=fin, subject=f.q)


def i_assume(ck, rule="assume: the assumption enters the next call with its variable and sign, and its variable exists"):
    for f in ck.fns(IP + "::assume"):
        g = ck.graph(f, PRIM); p = P(f, 0)
        fl = litfield(ck, f)
        if len(fl) != 1: ck.note(rule, "assumption buffer not recognised"); continue
        buf = fl.pop()
        table(ck, rule, g, lits(p), want_lit, "the literal assumed", push(buf), pushed, subject="assume(lit)")
        nv = lambda v: v[0] == "field" and fieldof(v) == "variables" or v[0] == "call" and short(v[1]) == "nVars"
        def tr(n, cx):
            ps, mod = cx.ust
            if n.kind == "block": return cx.ust
            if push(buf)(n, cx): return (min(ps + 1, 2), mod)
            if n.kind == "call" and n.fn().startswith("Candy::CNFProblem::") and not n.x.get("const") and short(n.fn()) not in ("newVar", "nVars", "nClauses"): return (ps, True)
            return cx.ust
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            if u[0] != 1: return "an assumption is " + ("not recorded" if not u[0] else "recorded twice")
            if u[1]: return None
            best = None
            for k, w in facts.items():
                if k[0] == "lt" and isinstance(k[2], tuple) and nv(k[2]) and not nv(k[1]) and w is True: lo, strict, other = k[1], True, k[1]
                elif k[0] == "lt" and nv(k[1]) and isinstance(k[2], tuple) and w is False: lo, strict, other = k[2], False, k[2]
                else: continue
                x = [ceval(other, {p: l}) for l in (4, -4)]       # variable 3
                if None in x: continue
                if min(x) + (1 if strict else 0) >= 4: return None
                best = True
            return "the problem may have no variable for the assumption" if best or not any(mentions(k, "variables", "nVars") for k in facts) else None
        ck.run(rule, g, tr, (0, False), lambda k: k[0] == "lt", final=fin, subject=f.q)


def guards(ck):
    """the wrapper's flags under which val hands out the model, with the value that does so"""
    out = {}
    for f in ck.fns(IP + "::val"):
        g = ck.graph(f, PRIM)
        def tr(n, cx):
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                flags = {k[1] for k in cx.facts if k[0] == "zero" and isprob(k[1])} | {w for w in walk(v) if isinstance(w, tuple) and w and w[0] == "field" and isprob(w) and fieldof(w) != "solver"}
                for fl in flags: out.setdefault(fl, set())
                if v != ("int", 0) and ceval(v, {P(f, 0): 3}) != 0:
                    for fl in flags:
                        for b in (0, 1):
                            if consistent({k: w for k, w in cx.facts.items() if has(k, lambda y: y == fl)}, {fl: b}) is not False: out[fl].add(b)
            return None
        ck.run("(survey of val)", g, tr, None, "all", subject=f.q)
    return {fl: s for fl, s in out.items() if len(s) == 1}


def i_val(ck, rule="val: the sign of the literal's variable in the model, and 0 for variables without value or when there is no model"):
    gd = guards(ck)
    for f in ck.fns(IP + "::val"):
        g = ck.graph(f, PRIM); p = P(f, 0)
        envs = []; want = {}
        for lit in (3, -3):
            for size in (2, 3, 7):
                for val in LB:
                    for open_ in (True, False):
                        def mk(lit=lit, size=size, val=val, open_=open_):
                            def env(v):
                                if v == p: return lit
                                if v in gd: o = next(iter(gd[v])); return o if open_ else 1 - o
                                if v[0] == "size" and MODEL(v[1]): return size
                                if v[0] == "call" and short(v[1]) == "size" and v[2] and MODEL(v[2]): return size
                                if v[0] == "at" and MODEL(v[1]) and v[2] == ("int", 2) and size > 2: return val
                                return None
                            return env
                        if not open_ and not gd: continue
                        n = "literal %d, model of %d variables, variable 3 %s%s" % (lit, size, show(val), "" if open_ else ", no model available")
                        envs.append((n, mk()))
                        want[n] = 0 if not open_ or size < 3 or val == UNDEF else 3 if val == TRUE else -3
        table(ck, rule, g, envs, lambda n: want[n], "val", subject=f.q)


def i_solve(ck, rule="solve: all clauses and assumptions since the last call are passed on, exactly once, and the answer is translated"):
    for f in ck.fns(IP + "::solve"):
        g = ck.graph(f, PRIM)
        slv = lambda v: v[0] == "call" and short(v[1]) == "solve"
        abuf = set()
        for a in ck.fns(IP + "::assume"): abuf |= litfield(ck, a)
        isA = lambda v: v[0] == "field" and fieldof(v) in abuf and isprob(v)
        isP = lambda v: v[0] == "field" and isprob(v) and fieldof(v) not in ("solver",) and not isA(v)
        gd = guards(ck)
        def tr(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            if n.kind == "call" and n.x.get("obj", -1) >= 0:
                s = short(n.fn()); o = cx.obj()
                if s == "init" and cx.nargs() and has(cx.arg(0), isP):
                    if "pclear" in u: cx.run.report("the new clauses are dropped before they reach the solver", n)
                    if "solved" in u: cx.run.report("the new clauses reach the solver after solving", n)
                    if "init" in u: cx.run.report("the new clauses are passed twice", n)
                    return u | {"init"}
                if s == "setAssumptions":
                    if not isA(cx.arg(0)): cx.run.report("something else than the assumptions is assumed", n) if cx.arg(0)[0] in ("mk", "field") else None
                    if "aclear" in u: cx.run.report("the assumptions are dropped before they reach the solver", n)
                    if "solved" in u: cx.run.report("the assumptions reach the solver after solving", n)
                    return u | {"assume"}
                if s == "solve" and fieldof(o) == "solver":
                    if "init" not in u: cx.run.report("solving starts without the new clauses", n)
                    if "assume" not in u: cx.run.report("solving starts without the new assumptions", n)
                    if "solved" in u: cx.run.report("the problem is solved twice", n)
                    return u | {"solved"}
                if s in ("clear", "resize", "assign", "swap"):
                    if isA(o): return u | {"aclear"}
                    if isP(o) and n.fn().startswith("Candy::CNFProblem"): return u | {"pclear"}
            if n.kind == "write":
                lh = cx.lhs()
                if isA(lh): return u | {"aclear"}
                if lh in gd:
                    r = cx.rhs()
                    for k in range(3):
                        b = ceval(r, lambda v: LB[k] if slv(v) else None)
                        if b is None: continue
                        opens = int(bool(b)) in gd[lh]
                        if cx.facts and consistent({q: w for q, w in cx.facts.items()}, lambda v: LB[k] if slv(v) else None) is False: continue
                        if "solved" in u and opens != (k == 0): cx.run.report("after %s, a model is %s" % (("a satisfiable", "an unsatisfiable", "an undecided")[k] + " answer", "handed out" if opens else "withheld"), n)
                    return u | {"flag"} if "solved" in u else u
                if fieldof(lh) == "fmap" and isprob(lh): return u | {"drop"}
            return u
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            if "solved" not in u: return "nothing is solved"
            if "aclear" not in u: return "assumptions of this call stay for the next one"
            if "pclear" not in u: return "the clauses of this call are passed again with the next one"
            if gd and "flag" not in u: return "the availability of a model is not updated"
        ck.run(rule, g, tr, frozenset(), lambda k: k[0] == "lbv" or mentions(k, "solve"), final=fin, subject=f.q)
        envs = [(show(LB[k]), (lambda k: lambda v: LB[k] if slv(v) else None)(k)) for k in range(3)]
        table(ck, rule, g, envs, lambda n: {"true": 10, "false": 20, "undefined": 0}[n], "the code of the answer", subject=f.q + " (code)")


def i_failed(ck, rule="failed: true exactly for variables of the current final conflict"):
    for f in ck.fns(IP + "::failed"):
        g = ck.graph(f, PRIM); p = P(f, 0)
        fm = {fieldof(g.val(n.frame, n.x["a"])[1]) for n in g.nodes if n.kind == "write" and n.x["k"] == "bin" and g.val(n.frame, n.x["a"])[0] == "at" and isprob(g.val(n.frame, n.x["a"])[1])}
        if len(fm) != 1: ck.note(rule, "conflict map not recognised"); continue
        name = fm.pop(); isM = lambda v: v[0] == "field" and fieldof(v) == name and isprob(v)
        nv = lambda v: v[0] == "call" and short(v[1]) == "nVars"
        C = lambda v: fieldof(v) == "conflict" or v[0] == "call" and short(v[1]) == "getConflict"
        envs = []; want = {}
        for lit in (3, -3, 5, -5, 6, -6, 9, -9):
            for b in (0, 1):
                def mk(lit=lit, b=b):
                    def env(v):
                        if v == p: return lit
                        if nv(v): return 5
                        if v[0] == "at" and isM(v[1]) and v[2] == ("int", abs(lit) - 1): return b
                        return None
                    return env
                n = "literal %d of 5 variables, %s" % (lit, "in conflict" if b else "not in conflict")
                envs.append((n, mk())); want[n] = (lambda x: bool(x)) if b and abs(lit) <= 5 else (lambda x: not x)
        table(ck, rule, g, envs, lambda n: want[n], "failed", subject=f.q)
        # the map is built from all literals of the conflict, starting from zero, and dropped by the next call
        isnew = lambda n, cx: n.kind == "write" and isM(cx.lhs()) and has(cx.rhs(), lambda w: w[0] == "new")
        mark = lambda n, cx: n.kind == "write" and cx.lhs()[0] == "at" and isM(cx.lhs()[1]) and ceval(cx.rhs(), {}) not in (None, 0) and cx.lhs()[2][0] == "var_of" and cx.lhs()[2][1][0] in ("elem", "at") and C(cx.lhs()[2][1][1])
        fe = ForEach(C, mark)
        def tr(n, cx):
            st, e = cx.ust
            if n.kind == "block": return cx.ust
            if isnew(n, cx): return ("raw", ForEach.INIT)
            if n.kind == "call" and short(n.fn()) in ("memset", "fill", "fill_n", "bzero") and (isM(cx.arg(0)) or has(cx.arg(0), isM)):
                if st == "marked": cx.run.report("the map is zeroed after the conflict has been entered", n)
                z = cx.arg(1) if short(n.fn()) == "memset" else cx.arg(2) if short(n.fn()) in ("fill", "fill_n") else ("int", 0)
                if is_int(z) and z[1] != 0: cx.run.report("the map starts with %d everywhere" % z[1], n)
                return ("zero" if st != "marked" else st, e)
            if n.kind == "write" and cx.lhs()[0] == "at" and isM(cx.lhs()[1]):
                if ceval(cx.rhs(), {}) not in (None, 0):
                    i = cx.lhs()[2]
                    if i[0] == "int" or i[0] == "sign_of": cx.run.report("the map is marked at %s" % vstr(i), n)
                if st == "raw": st = "raw+"
                if st == "zero": st = "marked"
                e = fe.step(n, cx, e)
                return (st, e)
            return (st, fe.step(n, cx, e))
        def ed(n, c, cx, u): return (u[0], fe.edge(n, c, cx, u[1]))
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            if u[0] == "none":
                for k, w in facts.items():
                    if k[0] == "zero" and isM(k[1]) and w is False: return None
                return None
            if u[0] in ("raw", "raw+"): return "the map of failed assumptions is not zeroed"
            if not u[1][1]: return "a literal of the final conflict is not entered in the map"
        ck.run(rule, g, tr, ("none", ForEach.INIT), lambda k: k[0] == "zero" and isM(k[1]), ed, final=fin, subject=f.q + " (map)", fe=(fe,))
        for n in g.nodes:
            if n.kind == "new" and n.x.get("arr") and n.x.get("nt") == "unsigned char" and n.x.get("size", -1) >= 0:
                v = g.val(n.frame, n.x["size"]); s = ceval(v, lambda w: 5 if nv(w) else None)
                if s is not None: ck.judge(rule, f.q + " (size)", s >= 5, n.line(), "the map has %d entries for 5 variables" % s)
                for m in g.nodes:
                    if m.kind == "call" and short(m.fn()) == "memset" and isM(g.val(m.frame, m.x["args"][0])):
                        z = ceval(g.val(m.frame, m.x["args"][2]), lambda w: 5 if nv(w) else None)
                        if s is not None and z is not None: ck.judge(rule, f.q + " (zeroed)", z >= 5 and z <= s, m.line(), "%d of %d entries are zeroed" % (z, s))
    for f in ck.fns(IP + "::solve"):
        g = ck.graph(f, PRIM)
        isM = lambda v: fieldof(v) == name and isprob(v)
        def ev(n, cx): return n.kind == "write" and isM(cx.lhs()) and not has(cx.rhs(), lambda w: w[0] == "new")
        must(ck, rule, g, ev, "the failed assumptions of an earlier call are kept", lambda facts, cx: any(k[0] == "zero" and isM(k[1]) and w is True for k, w in facts.items()), lambda k: k[0] == "zero" and isM(k[1]), subject=f.q)


def i_api(ck, rule="the C functions operate on the given solver with the given arguments and return its result"):
    names = [("add", 1), ("assume", 1), ("solve", 0), ("val", 1), ("failed", 1)]
    for nm, k in names:
        for f in ck.fns("ipasir_" + nm):
            g = ck.graph(f, (IP + "::*",)); s = P(f, 0); hit = [0]
            tgt = IP + "::" + nm
            def tr(n, cx):
                if n.kind == "call" and n.fn().startswith(IP + "::"):
                    if n.fn() != tgt: cx.run.report("%s calls %s" % (f.q, n.fn()), n)
                    elif cx.obj() != s: cx.run.report("another solver is used", n)
                    elif any(cx.arg(i) != P(f, i + 1) for i in range(k)): cx.run.report("the argument is changed", n)
                    return True
                if n.kind == "ret" and n.x.get("a", -1) >= 0 and nm in ("solve", "val", "failed"):
                    v = cx.val(n.x["a"])
                    if v[0] == "int" or v[0] == "call" and v[1] != tgt or v[0] in ("op", "not", "un"): cx.run.report("the returned value is %s" % vstr(v), n)
                return cx.ust
            ck.run(rule, g, tr, False, final=lambda kind, u, fa, cx: "%s does not reach the solver" % f.q if kind == "exit" and not u else None, subject=f.q)
    for nm, tgt, order in (("set_terminate", "setTermCallback", (1, 2)), ("set_learn", "setLearntCallback", (1, 2, 3))):
        for f in ck.fns("ipasir_" + nm):
            g = ck.graph(f, PRIM); s = P(f, 0)
            def tr(n, cx):
                if n.kind == "call" and n.fn().startswith("Candy::CandySolverInterface::set"):
                    if short(n.fn()) != tgt: cx.run.report("%s sets another callback" % f.q, n); return cx.ust
                    if cx.obj() != ("field", s, IP + "::solver") and cx.obj()[0] == "field" and cx.obj()[1] != s: cx.run.report("another solver is used", n)
                    for i, q in enumerate(order):
                        if cx.arg(i) != P(f, q): cx.run.report("argument %d of %s is %s" % (i + 1, tgt, vstr(cx.arg(i))), n)
                    return True
                return cx.ust
            ck.run(rule, g, tr, False, final=lambda kind, u, fa, cx: "the callback is not passed on" if kind == "exit" and not u else None, subject=f.q)
    for f in ck.fns("ipasir_init"):
        g = ck.graph(f, (IP + "::*",))
        def tr(n, cx):
            if n.kind == "ret" and cx.val(n.x["a"])[0] != "new" and (cx.val(n.x["a"])[0] in ("int", "glob") or mentions(cx.val(n.x["a"]), "static")): cx.run.report("no new solver is returned", n)
            return None
        ck.run(rule, g, tr, None, subject=f.q)
        fresh = [n for n in g.nodes if n.kind == "new"]
        for v in [g.val(n.frame, n.x["a"]) for n in g.nodes if n.kind == "ret"]:
            if v[0] == "glob" : ck.bad(rule, f.q, f.where(), "solvers share one object")
    for f in ck.fns("ipasir_release"):
        g = ck.graph(f, (IP + "::*",))
        must(ck, rule, g, lambda n, cx: n.kind == "delete" and cx.val(n.x["a"]) == P(f, 0), "the solver is not released", subject=f.q)
    for f in ck.fns(IP + "::" + IP):
        if len(f.params): continue
        g = ck.graph(f, PRIM)
        must(ck, rule, g, lambda n, cx: n.kind == "write" and fieldof(cx.lhs()) == "solver" and has(cx.rhs(), lambda w: w[0] in ("call", "new", "mk")), "the wrapper has no solver", subject=f.q)
    for f in ck.fns(IP + "::~" + IP):
        g = ck.graph(f, PRIM)
        must(ck, rule, g, lambda n, cx: n.kind == "delete" and fieldof(cx.val(n.x["a"])) == "solver", "the solver is not deleted with its wrapper", subject=f.q)


def i_setassumptions(ck, rule="exactly the given assumptions are installed, in place of those of the previous call"):
    for f in ck.fns("Candy::Trail::setAssumptions"):
        g = ck.graph(f, ("Candy::Trail::init",)); p = P(f, 0)
        A = lambda v: v == ("field", ("this",), "Candy::Trail::assumptions")
        def bulk(n, cx):
            if n.kind == "write" and A(cx.lhs()): return has(cx.rhs(), lambda v: v == p)
            if n.kind == "call" and n.x.get("obj", -1) >= 0 and A(cx.obj()):
                s = short(n.fn()); a = [cx.arg(i) for i in range(cx.nargs())]
                return s in ("operator=",) and a and a[0] == p or s in ("insert", "assign") and ("iter", p, 0) in a and ("iter", p, "end") in a
            return False
        fe = ForEach(lambda c: c == p, lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and A(cx.obj()) and cx.arg(0)[0] in ("elem", "at") and cx.arg(0)[1] == p, None, bulk)
        def tr(n, cx):
            cl, e = cx.ust
            if n.kind == "block": return cx.ust
            fresh = n.kind == "write" and A(cx.lhs()) or n.kind == "call" and n.x.get("obj", -1) >= 0 and A(cx.obj()) and (short(n.fn()) in ("clear", "assign", "operator=") or short(n.fn()) == "resize" and cx.arg(0) == ("int", 0))
            if fresh and short(n.fn()) in ("clear", "resize") and (e[1] or e[0] is not None): cx.run.report("the new assumptions are dropped", n)
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and A(cx.obj()):
                if not cl: cx.run.report("assumptions of the previous call are kept", n)
                v = cx.arg(0)
                if v[0] == "neg" and v[1][0] in ("elem", "at"): cx.run.report("the negated literal is assumed", n)
            return (cl or fresh, fe.step(n, cx, e))
        def ed(n, c, cx, u): return (u[0], fe.edge(n, c, cx, u[1]))
        def fin(kind, u, fa, cx):
            if kind != "exit": return None
            if not u[0]: return "assumptions of the previous call are kept"
            if not u[1][1]: return "not every assumption is installed"
        ck.run(rule, g, tr, (False, ForEach.INIT), None, ed, final=fin, subject=f.q, fe=(fe,))


# ---------------------------------------------------------------- learnt clause callback
def fptr(n, cx):
    """value of the called function pointer"""
    return cx.val(n.x["ce"]) if n.kind == "call" and n.x.get("ce", -1) >= 0 and not n.fn() else None


def l_send(ck, rule="the learnt-clause callback receives all literals of the clause as numbers, terminated by 0, if and only if the clause is short enough"):
    for f in ck.inst("Candy::Solver::ipasir_callback"):
        g = ck.graph(f); c = P(f, 0)
        if [x for x in f.params if "Clause" not in x.get("t", "Clause")]: ck.note(rule, "signature"); continue
        cb = lambda v: fieldof(v) == "learntCallback"
        mx = lambda v: fieldof(v) == "learntCallbackMaxLength"
        size = lambda v: v == ("size", c) or v[0] == "call" and short(v[1]) == "size" and v[2] == c
        bufs = set()
        def find(n, cx):
            q = fptr(n, cx)
            if q is not None and cb(q):
                b = cx.arg(1)
                while b[0] in ("iter", "at", "addr", "un") : b = b[1] if b[0] != "un" else b[2]
                bufs.add(b)
            return None
        ck.run(rule + " (survey)", g, find, None, "all", subject=f.q)
        buf = lambda v: v in bufs
        put = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and buf(cx.obj())
        fe = ForEach(lambda k: k == c, lambda n, cx: put(n, cx) and isinstance(dimacs_of(cx.arg(0)), tuple) and dimacs_of(cx.arg(0))[0] in ("elem", "at") and dimacs_of(cx.arg(0))[1] == c)
        envs = [("callback %s, clause of %d, limit %d" % (bool(q), s, m), (q, s, m)) for q in (0, 1) for s, m in ((2, 3), (3, 3), (4, 3))]
        def mk(q, s, m): return lambda v: (q if cb(v) else m if mx(v) else s if size(v) else None)
        seen = set()
        def tr(n, cx):
            e, last, called = cx.ust
            if n.kind == "block": return cx.ust
            if put(n, cx):
                v = cx.arg(0)
                if v == ("int", 0): return (e, "zero", called)
                if last == "zero": cx.run.report("literals follow the terminating 0", n)
                d = dimacs_of(v)
                if d is False: cx.run.report("%s is sent for a literal" % vstr(v), n)
                elif isinstance(d, tuple) and (d[0] not in ("elem", "at") or d[1] != c): cx.run.report("%s is sent, which is not a literal of the clause" % vstr(d), n)
                return (fe.step(n, cx, e), "lit", called)
            q = fptr(n, cx)
            if q is not None and cb(q):
                if fieldof(cx.arg(0)) != "learntCallbackState" and cx.arg(0)[0] in ("field", "int", "this"): cx.run.report("the callback receives %s as its state" % vstr(cx.arg(0)), n)
                for nm, t in envs:
                    if not (t[0] and t[1] <= t[2]) and consistent({k: w for k, w in cx.facts.items() if mentions(k, "learntCallback", "learntCallbackMaxLength")}, mk(*t)) is True: cx.run.report("the callback is called although it should not (%s)" % nm, n)
                if bufs and not e[1]: cx.run.report("not every literal of the clause is sent", n)
                if last != "zero" and bufs: cx.run.report("the clause is sent without its terminating 0", n)
                return (e, last, True)
            return (fe.step(n, cx, e), last, called)
        def ed(n, cc, cx, u): return (fe.edge(n, cc, cx, u[0]),) + u[1:]
        def fin(kind, u, facts, cx):
            if kind != "exit" or u[2]: return None
            ff = {k: w for k, w in facts.items() if mentions(k, "learntCallback", "learntCallbackMaxLength")}
            for nm, t in envs:
                if t[0] and t[1] <= t[2] and consistent(ff, mk(*t)) is True: return "a clause within the limit is not sent (%s)" % nm
        ck.run(rule, g, tr, (ForEach.INIT, None, False), lambda k: k[0] in ("lt", "zero", "eq") and not has(k, lambda w: w[0] == "iterv"), ed, final=fin, subject=f.q, fe=(fe,))


def l_each(ck, rule="every learnt clause is offered to the learnt-clause callback before the next one is derived"):
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, tuple(u for u in UNITS))
        learnt = lambda n, cx: n.kind == "call" and short(n.fn()) == "createClause" and cx.nargs() >= 2 and mentions(cx.arg(0), "learnt_clause")
        offered = lambda n, cx: n.kind == "call" and short(n.fn()) == "ipasir_callback"
        def tr(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            if learnt(n, cx):
                if u: cx.run.report("a learnt clause is not offered to the callback", n)
                return True
            if offered(n, cx) or fptr(n, cx) is not None: return False
            return u
        def ed(n, c, cx, u):
            if c[0] != "case" and mentions(cx.g.val(n.frame, c[0], dict(cx.env)), "learntCallback"): return False
            return u
        ck.run(rule, g, tr, False, None, ed, final=lambda kind, u, fa, cx: "a learnt clause is not offered to the callback" if kind == "exit" and u else None, subject=f.pretty)


def storing(ck, rule, name, fields):
    """an implementation of the setter stores its arguments or passes them on to its own solver"""
    for f in sorted(ck.prog.funcs.values(), key=lambda f: f.id):
        if short(f.q) != name or f.q.startswith("Candy::CandySolverInterface") or "/src/candy/" not in f.file: continue
        if f.q.startswith("Candy::Solver::") and f not in ck.inst("Candy::Solver::" + name): continue
        g = ck.graph(f, ("Candy::CandySolverInterface::*",)); ps = [P(f, i) for i in range(len(f.params))]
        def tr(n, cx):
            u = cx.ust
            if n.kind == "write" and fieldof(cx.lhs()) in fields:
                i = fields.index(fieldof(cx.lhs())); r = cx.rhs()
                if r != ps[i] and ps[i] not in either(r):
                    if r[0] in ("param", "int", "this", "field"): cx.run.report("%s is set to %s" % (fieldof(cx.lhs()), vstr(r)), n)
                else:
                    while r[0] == "cond":
                        b = ceval(r[1], {ps[i]: 1})
                        if b is None: break
                        r = r[2] if b else r[3]
                    if r[0] != "cond" and r != ps[i]: cx.run.report("the given callback is ignored", n)
                return u | {i}
            if n.kind == "call" and short(n.fn()) == name and n.x.get("obj", -1) >= 0:
                for i in range(len(ps)):
                    if cx.arg(i) != ps[i] and cx.arg(i)[0] in ("param", "int", "this", "field"): cx.run.report("argument %d is passed on as %s" % (i + 1, vstr(cx.arg(i))), n)
                return u | set(range(len(ps)))
            return u
        ck.run(rule, g, tr, frozenset(), final=lambda kind, u, fa, cx: "%s drops %s" % (f.q, ", ".join(f.params[i]["n"] for i in range(len(ps)) if i not in u)) if kind == "exit" and len(u) < len(ps) else None, subject=f.pretty)


def l_store(ck, rule="every solver stores the learnt-clause callback with its state and limit, or passes them on"):
    storing(ck, rule, "setLearntCallback", ["learntCallbackState", "learntCallbackMaxLength", "learntCallback"])


# ---------------------------------------------------------------- interruption
def t_poll(ck, rule="each search episode is preceded by a poll of the termination callback that did not ask to stop"):
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, UNITS + ("Candy::Solver::search", "Candy::Solver::processClauseDatabase", "Candy::Solver::propagateAndMaterializeUnitClauses"))
        isq = lambda v: v[0] == "icall" and fieldof(v[1]) == "termCallback"
        def tr(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            q = fptr(n, cx)
            if q is not None and fieldof(q) == "termCallback":
                if fieldof(cx.arg(0)) != "termCallbackState" and cx.arg(0)[0] in ("field", "int", "this"): cx.run.report("the callback receives %s as its state" % vstr(cx.arg(0)), n)
                return "polled"
            if n.kind == "call" and short(n.fn()) == "search":
                if u == "no": cx.run.report("a search episode starts without polling the termination callback", n)
                if u == "stop": cx.run.report("a search episode starts although the callback asked to stop", n)
                return "no"
            if n.kind == "ret" and n.frame is g.rootframe and u == "stop":
                if not 2 in lbv_of(cx.facts, cx.val(n.x["a"])): cx.run.report("an interrupted call is answered %s" % vstr(cx.val(n.x["a"])), n)
            return u
        def ed(n, c, cx, u):
            if u != "no" and c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
                for w in [w for w in walk(v) if isinstance(w, tuple) and w and isq(w)][:1]:
                    t = [ceval(v, lambda y: k if y == w else None) for k in (0, 1)]
                    if None in t: continue
                    zero, one = bool(t[0]) == pol, bool(t[1]) == pol
                    return "go" if zero and not one else "stop" if one and not zero else u
            return u
        ck.run(rule, g, tr, "no", lambda k: k[0] == "lbv" and mentions(k, "search"), ed, subject=f.pretty)


def t_store(ck, rule="every solver stores the termination callback with its state, or passes them on"):
    storing(ck, rule, "setTermCallback", ["termCallbackState", "termCallback"])


def t_main(ck, rule="every solver started by the command line tool can be interrupted by limits and signals"):
    for q in ("main", "runSolverThread"):
        for f in ck.fns(q):
            if not f.file.endswith("Main.cc"): continue
            g = ck.graph(f, ("Candy::*", "runSolverThread", "printGateStatistics", "printProblemStatistics"))
            def tr(n, cx):
                if n.kind == "block": return cx.ust
                if n.kind == "call" and short(n.fn()) == "setTermCallback":
                    v = cx.arg(1)
                    if v == ("int", 0): cx.run.report("no termination callback is installed", n); return cx.ust
                    return True
                if n.kind == "call" and n.fn() == "Candy::CandySolverInterface::solve" and not cx.ust: cx.run.report("a solver runs without the termination callback", n)
                return cx.ust
            ck.run(rule, g, tr, False, subject=f.q)
            if q == "main":
                def sg(n, cx):
                    if n.kind == "block": return cx.ust
                    if n.kind == "call" and short(n.fn()) == "signal" and cx.nargs() == 2:
                        h = cx.arg(1); s = cx.arg(0)
                        soft = h[0] == "fn" and sets_flag(ck, h)
                        return (cx.ust | {s[1]} if soft else cx.ust - {s[1]}) if is_int(s) else cx.ust
                    if n.kind == "call" and n.fn() == "Candy::CandySolverInterface::solve":
                        for s, nm in ((2, "SIGINT"), (24, "SIGXCPU")):
                            if s not in cx.ust: cx.run.report("%s does not reach the running solver" % nm, n)
                    return cx.ust
                ck.run(rule + " (signals)", g, sg, frozenset(), "all", subject=f.q)
                # waiting for the solver threads ends when an interruption was requested: no solver will answer any more
                intr = lambda v: v[0] == "glob" and v[1].rsplit("::", 1)[-1] == "interrupted"
                slp = lambda n: n.kind == "call" and short(n.fn()) in ("sleep_for", "sleep", "usleep", "wait_for", "sleep_until")
                gw = ck.graph(f, ("Candy::*", "runSolverThread", "printGateStatistics", "printProblemStatistics", "hasResult", "nInitializedSolvers", "installSignalHandlers"))
                def wt(n, cx):
                    u = cx.ust
                    if n.kind == "block": return u
                    if n.kind == "call" and short(n.fn()) == "installSignalHandlers" and cx.arg(0) in (("int", 1), ("int", 0)): return "look" if cx.arg(0) == ("int", 1) else "off"
                    if slp(n) and u != "off":
                        if u == "slept": cx.run.report("the tool keeps waiting for an answer after an interruption was requested", n)
                        return "slept"
                    return u
                def we(n, c, cx, u):
                    if c[0] != "case" and u == "slept" and has(cx.g.val(n.frame, c[0], dict(cx.env)), intr): return "look"
                    return u
                ck.run(rule + " (waiting)", gw, wt, "off", None, we, subject=f.q)


def sets_flag(ck, h):
    for f in ck.prog.funcs.values():
        if f.id == h[1] or f.q == h[2]:
            for e, x in f.elems():
                if x["k"] == "bin" and x["op"] == "=":
                    t = f.x[f.strip(x["a"])]
                    if t["k"] == "ref" and t.get("n") == "interrupted": return True
    return False


def t_limits(ck, rule="the interruption flag is raised exactly when the time or memory limit is exceeded, and the callback reports it"):
    for f in ck.fns("interrupted_callback"):
        g = ck.graph(f, ("Candy::*", "get_wall_time", "getCurrentRSS"))
        flag = lambda v: v[0] == "glob" and v[1].endswith("interrupted")
        start = lambda v: v[0] == "glob" and v[1].endswith("start_time")
        tl = lambda v: v[0] in ("field", "call", "glob") and mentions(v, "time_limit"); ml = lambda v: v[0] in ("field", "call", "glob") and mentions(v, "memory_limit")
        table(ck, rule, g, [("flag %d, time limit %d, memory limit %d, %s" % (b, t, m, "clock started" if s_ else "clock not started"), (lambda b, t, m, s_: lambda v: b if flag(v) else t if tl(v) else m if ml(v) else s_ if start(v) else None)(b, t, m, s_)) for b in (0, 1) for t in (0, 9) for m in (0, 9) for s_ in (0, 50)],
              lambda n: (lambda x: bool(x)) if n.startswith("flag 1") else (lambda x: not x), "the answer of the callback", subject=f.q)
        def env(limt, started, now, limm, rss):
            def e(v):
                if start(v): return started
                if flag(v): return None
                if v[0] == "call" and short(v[1]) == "get_wall_time": return now
                if v[0] == "call" and short(v[1]) == "getCurrentRSS": return rss * 1024 * 1024
                return limt if tl(v) else limm if ml(v) else None
            return e
        cases = []
        for limt in (0, 10):
            for started, now in ((0, 50), (50, 55), (50, 60), (50, 61)):
                for limm in (0, 100):
                    for rss in (50, 101):
                        over = limt and started and now - started > limt or limm and rss > limm
                        cases.append((env(limt, started, now, limm, rss), bool(over), started, "time limit %d, %s, memory limit %d, %d MB used" % (limt, "%d s elapsed" % (now - started) if started else "first call", limm, rss)))
        ff = lambda facts: {k: w for k, w in facts.items() if not has(k, flag)}
        def tr(n, cx):
            u, first = cx.ust
            if n.kind == "write" and start(cx.lhs()) and cx.facts.get(("zero", cx.lhs())) is True: return (u, True)
            if n.kind == "write" and flag(cx.lhs()):
                b = ceval(cx.rhs(), {})
                if b: return (True, first)
                if b == 0: cx.run.report("an interruption request is taken back", n)
            return cx.ust
        def fin(kind, ust, facts, cx):
            if kind != "exit": return None
            u, first = ust
            for e, over, started, nm in cases:
                if first and started or consistent(ff(facts), e) is not True: continue
                if u and not over: return "interrupted although no limit is exceeded (%s)" % nm
                if not u and over: return "not interrupted although a limit is exceeded (%s)" % nm
        ck.run(rule, g, tr, (False, False), "all", final=fin, subject=f.q + " (limits)")


def t_undef(ck, rule="a call is answered definitely only by a search or because of a conflict"):
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, UNITS + ("Candy::Solver::search", "Candy::Solver::processClauseDatabase", "Candy::Solver::propagateAndMaterializeUnitClauses"))
        conf = lambda k: mentions(k, "emptyClause_", "hasEmptyClause", "isInConflictingState")
        def wr_(n, cx):
            if n.kind == "write" and cx.lhs()[0] in ("var", "obj", "local") and "lbool" in n.x.get("t", ""):
                v = cx.rhs()
                for a in either(v):
                    if a == ("lb", 0): cx.run.report("satisfiable is answered without a search", n)
                    if a == ("lb", 1) and v[0] != "cond" and not any(conf(k) for k in cx.facts): cx.run.report("unsatisfiable is answered without a conflict", n)
            return None
        ck.run(rule, g, wr_, None, conf, subject=f.pretty)


P11 = (i_add, i_assume, i_solve, i_setassumptions, i_val, i_failed, i_api, l_send, l_each, l_store)
P27 = (t_poll, t_store, t_main, t_limits, t_undef)
