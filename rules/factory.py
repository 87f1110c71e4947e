"""P24: the solver that was configured is the one that is built and used."""
import re
from .lib import *
from .ev import *
from .branch import nosite
from .cli import mains, glob
SI = "Candy::CandySolverInterface"


def rets(g, prims=None):
    out = []
    def tr(n, cx):
        if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0: out.append((cx.val(n.x["a"]), dict(cx.facts), n))
        return None
    Run(g, tr, None, track=lambda k: True)
    return out


def targs(t):
    """top-level template arguments of a type name"""
    m = re.search(r"<(.*)>\s*$", t)
    if not m: return []
    out, d, cur = [], 0, ""
    for ch in m.group(1):
        d += (ch in "<(") - (ch in ">)")
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()] if cur.strip() else out


def kind(t):
    """(static propagation, heuristic, mode, advice size) of a solver type; None when unknown"""
    if not re.match(r"(class |struct )?Candy::Solver<", t): return None
    a = targs(t); p = a[0] if a else "Candy::Propagate"; b = a[2] if len(a) > 2 else "Candy::VSIDS"
    st = {"Candy::Propagate": 0, "Candy::StaticPropagate": 1}.get(p)
    if st is None: return None
    if b in ("Candy::VSIDS", "Candy::LRB", "Candy::VSIDSC"): return (st, b[7:], None, None)
    m = re.match(r"Candy::RSIL(Budget|Vanishing)?BranchingHeuristic(<.*>|\d)$", b)
    if not m: return None
    n = re.findall(r"\d+", m.group(2))
    return (st, "RSIL", {"Budget": "implicationbudgeted", "Vanishing": "vanishing", None: "unrestricted"}[m.group(1)], int(n[-1])) if n else None


MODES = ("unrestricted", "vanishing", "implicationbudgeted")


def modefacts(facts, name):
    """are the facts possible when the mode option is the text name? None when unknown"""
    r = True
    for k, w in facts.items():
        if k[0] == "eq":
            s = [x for x in k[1:] if x[0] == "str"]
            o = [x for x in k[1:] if x[0] != "str"]
            if len(s) == 1 and has(o[0], glob("opt_rsil_mode")):
                if (s[0][1].strip('"') == name) != w: return False
                continue
        if k[0] == "zero" and has(k[1], glob("opt_rsil_mode")):
            v = k[1]
            if v[0] in ("call", "icall") and short(v[1]) in ("strcmp", "compare"):
                s = [x for x in walk(v) if isinstance(x, tuple) and len(x) > 1 and x[0] == "str"]
                if len(s) == 1:
                    if (s[0][1].strip('"') == name) != w: return False
                    continue
            r = None
    return r


def modemap(ck):
    """mode name -> constant returned"""
    m = {}
    for f in ck.fns("Candy::getRSILMode"):
        for v, facts, n in rets(ck.graph(f, ())):
            c = ceval(v, {})
            for name in MODES + ("?",):
                p = modefacts(facts, name)
                if p is not False: m.setdefault(name, []).append((c, p, n))
    return m


def f_mode(ck, rule="the text of the RSIL mode option selects the mode of that name; any other text is rejected"):
    m = modemap(ck); seen = {}
    f = ck.fns("Candy::getRSILMode")[0]
    for name in MODES:
        cs = {c for c, p, n in m.get(name, [])}
        if len(cs) != 1 or None in cs or any(p is None for c, p, n in m[name]):
            if name not in m: ck.bad(rule, name, f.where(), "the mode '%s' is rejected" % name)
            else: ck.note(rule, "mode %s could not be evaluated" % name)
            continue
        c = cs.pop()
        if c in seen: ck.bad(rule, name, m[name][0][2].line(), "the modes '%s' and '%s' give the same result" % (seen[c], name))
        else: ck.ok(rule, name)
        seen[c] = name
    o = m.get("?", [])
    if not o: ck.ok(rule, "other text")
    elif any(p is True for c, p, n in o): ck.bad(rule, "other text", o[0][2].line(), "an unknown mode text is accepted")
    else: ck.note(rule, "unknown mode text: could not be evaluated")


def f_kind(ck, rule="the solver built has the propagation and the branching heuristic that were asked for"):
    mm = {}
    for name, L in modemap(ck).items():
        cs = {c for c, p, n in L}
        if name != "?" and len(cs) == 1: mm[name] = cs.pop()
    if len(set(mm.values())) != 3 or None in mm.values(): mm = {"unrestricted": 0, "vanishing": 1, "implicationbudgeted": 2}
    ismode = lambda v: v[0] in ("call", "icall") and v[1] == "Candy::getRSILMode"
    for f in ck.fns("Candy::createSolver"):
        names = ["staticPropagate", "lrb", "vsidsc", "rsil", "rsil_adv_size"]
        if len(f.params) != 5: ck.note(rule, "the parameters of %s changed" % f.q); continue
        R = rets(ck.graph(f, ("Candy::Solver::*", "Candy::getRSILMode")))
        for a in [(s, l, c, r, z, m) for s in (0, 1) for l in (0, 1) for c in (0, 1) for r in (0, 1) for z in (2, 3) for m in MODES if r and not l or (z, m) == (3, MODES[0])]:
            env = {P(f, i): a[i] for i in range(5)}
            E = lambda v: env[v] if v in env else mm[a[5]] if ismode(v) else None
            want = (a[0], "LRB", None, None) if a[1] else (a[0], "RSIL", a[5], a[4]) if a[3] else (a[0], "VSIDSC", None, None) if a[2] else (a[0], "VSIDS", None, None)
            nm = "%s%s" % (",".join(x for x, y in zip(names[:4], a) if y) or "default", ",%s,%d" % (a[5], a[4]) if a[3] and not a[1] else "")
            got = 0
            for v, facts, n in R:
                p = consistent(facts, E)
                if p is False: continue
                if v[0] == "cond":
                    c = ceval(v[1], E)
                    if c is not None: v = v[2] if c else v[3]
                if v[0] == "int" and v[1] == 0 or v[0] in ("null",):
                    if p is True: ck.bad(rule, nm, n.line(), "with %s no solver is built" % nm); got += 1
                    continue
                k = kind(v[1]) if v[0] == "new" else None
                if k is None or p is not True: continue
                got += 1
                tx = lambda k: "%s%s%s with %s propagation" % (k[1], " " + k[2] if k[2] else "", " size %d" % k[3] if k[3] else "", "static" if k[0] else "plain")
                if k == want: ck.ok(rule, nm)
                else: ck.bad(rule, nm, n.line(), "with %s the solver built is %s instead of %s" % (nm, tx(k), tx(want)))
            if not got: ck.note(rule, "%s: the solver built could not be evaluated" % nm)


ARGS = (("opt_static_propagate",), ("opt_use_lrb",), ("opt_use_vsidsc",), ("opt_rsil_enable",), ("opt_rsil_advice_size",))


def f_options(ck, rule="the command line tool builds solvers from the options of the same meaning"):
    for f in list(ck.prog.funcs.values()):
        if not f.file.endswith("Main.cc"): continue
        if not any(x.get("fn") == "Candy::createSolver" or "Candy::createSolver" in str(x) for x in f.x): continue
        g = ck.graph(f, ("Candy::*", "runSolverThread", "printGateStatistics", "printProblemStatistics", "installSignalHandlers"))
        def tr(n, cx):
            if n.kind == "call" and n.fn() == "Candy::createSolver":
                for i, nm in enumerate(ARGS):
                    if i >= cx.nargs(): continue
                    v = cx.arg(i)
                    opts = {z[1].rsplit("::", 1)[-1] for z in walk(v) if isinstance(z, tuple) and len(z) > 1 and z[0] == "glob"}
                    if opts and opts != set(nm): cx.run.report("argument %d of createSolver is built from %s instead of %s" % (i + 1, ", ".join(sorted(opts)), nm[0]), n)
                    elif not opts and is_int(v) and not (i == 4 and v[1] == 3): cx.run.report("argument %d of createSolver does not depend on %s" % (i + 1, nm[0]), n)
                    elif opts:
                        o = next(z for z in walk(v) if isinstance(z, tuple) and len(z) > 1 and z[0] == "glob")
                        for b in ((0, 1) if i < 4 else (2, 3)):
                            c = ceval(v, lambda z: b if z[0] == "field" and z[1] == o else None)
                            if c is not None and c != b and not isinstance(c, Lb): cx.run.report("argument %d of createSolver is %s for %s = %d" % (i + 1, c, nm[0], b), n)
            return cx.ust
        ck.run(rule, g, tr, 0, subject=f.q)


def f_rsar(ck, rule="abstraction refinement is used only with conjectures from a complete gate analysis and a complete random simulation"):
    late = lambda v: has(v, lambda z: z[0] in ("call", "icall") and short(z[1]) in ("getRuntime", "hasTimeout"))
    for f in ck.fns("Candy::createRSARSolver"):
        g = ck.graph(f, ("Candy::GateAnalyzer::*", "Candy::performRandomSimulation", "Candy::ARSolver::*", "Candy::create*Heuristic", "Candy::Runtime::*", "Candy::Conjectures::*"))
        # state: analysed, simulated, time limit (None unknown / True exceeded / False kept), bit set of containers known to be empty / non-empty
        def tr(n, cx):
            a, s, t, e, ne = cx.ust
            if n.kind == "call" and short(n.fn()) == "analyze": a = True
            if n.kind == "call" and short(n.fn()) == "performRandomSimulation": s = True
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0 and cx.val(n.x["a"])[0] == "new":
                if not a: cx.run.report("abstraction refinement starts without a gate analysis", n)
                elif t is not False: cx.run.report("abstraction refinement starts although the gate analysis %s out of time" % ("ran" if t else "may have run"), n)
                if not s: cx.run.report("abstraction refinement starts without conjectures from a random simulation", n)
                elif e == 3 or not ne: cx.run.report("abstraction refinement starts without any conjecture", n)
            return (a, s, t, e, ne)
        def ed(n, c, cx, u):
            a, s, t, e, ne = u
            for k, w in cx.facts.items():
                if k[0] in ("and", "op", "zero", "lt") and late(k):
                    if k[0] == "zero": t = not w
                    elif k[0] == "lt": t = w if late(k[2]) else not w if late(k[1]) else t
                    else: t = bool(w)
                elif k[0] == "lt" and k[2] == 1 and w and fieldof(k[1]) == "timeout": t = False
                z = k[1] if k[0] in ("lt", "zero") else None
                if z is not None and (k[0] == "lt" and z[0] == "size" and k[2] == 1 or k[0] == "zero" and z[0] == "size"):
                    b = 1 if has(z, lambda y: fieldof(y) == "m_equivalences" or y[0] in ("call", "icall") and short(y[1]) == "getEquivalences") else \
                        2 if has(z, lambda y: fieldof(y) == "m_backbones" or y[0] in ("call", "icall") and short(y[1]) == "getBackbones") else 0
                    if w: e |= b
                    else: ne |= b
            return (a, s, t, e, ne)
        ck.run(rule, g, tr, (False, False, None, 0, 0), lambda k: True, ed, subject=f.q)


def f_use(ck, rule="the single-threaded tool solves the problem it read with a solver that was built, falling back to the plain solver"):
    for f in mains(ck):
        g = ck.graph(f, ("Candy::*", "runSolverThread", "printGateStatistics", "printProblemStatistics", "installSignalHandlers"))
        S = glob("solver")
        # state: kind of the solver pointer (null / rsar or null / built), problem handed over
        def tr(n, cx):
            k, ini = cx.ust
            if n.kind == "write":
                if S(cx.lhs()):
                    v = cx.rhs()
                    q = short(v[1]) if v[0] in ("call", "icall") else None
                    return ("built" if q == "createSolver" else "maybe" if q == "createRSARSolver" else "null" if v == ("int", 0) else "?", False)
            if n.kind == "call" and n.fn() == SI + "::init":
                o = cx.obj()
                if S(o) or has(o, S) or o[0] in ("call", "icall") and short(o[1]) in ("createSolver", "createRSARSolver"):
                    if k in ("null", "maybe") and not known(cx, S): cx.run.report("the problem is handed to a solver that may not have been built", n)
                    return (k, True)
            if n.kind == "call" and n.fn() == SI + "::solve":
                o = cx.obj()
                if S(o) or o[0] in ("call", "icall") and short(o[1]) in ("createSolver", "createRSARSolver"):
                    if not ini: cx.run.report("solving starts before the problem is handed to the solver", n)
            return (k, ini)
        def ed(n, c, cx, u):
            if not isinstance(c, tuple) or isinstance(c[0], str): return u
            for kk, w in cx.facts.items():
                if kk[0] == "zero" and (S(kk[1]) or kk[1][0] in ("call", "icall") and short(kk[1][1]) == "createRSARSolver") and u[0] == "maybe": return ("null" if w else "built", u[1])
            return u
        ck.run(rule, g, tr, ("null", False), lambda k: k[0] in ("zero", "eq") and has(k, lambda z: S(z) or glob("opt_threads")(z) or glob("opt_rsar_enable")(z) or z[0] in ("call", "icall")), ed, subject=f.q)


def known(cx, S): return any(k[0] == "zero" and not w and (S(k[1]) or k[1][0] in ("call", "icall") and short(k[1][1]).startswith("create")) for k, w in cx.facts.items())


P24 = [f_kind, f_mode, f_options, f_rsar, f_use]
