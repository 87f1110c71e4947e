"""P17: clause deletion.  P29: subsumption and strengthening."""
from .lib import *
from .ev import *
from .base import Sim, judge_case
from .branch import nosite
T = ("this",)
DB = "Candy::ClauseDatabase"; CL = "Candy::Clause"; SUB = "Candy::Subsumption"; SUBDB = "Candy::SubsumptionClauseDatabase"; SC = "Candy::SubsumptionClause"
TOP = 65535
WEIGHTS = (0, 1, 2, 3, 4, 5, 120, 128, 300, TOP - 1, TOP)
ACC = (CL + "::getLBD", CL + "::isDeleted", CL + "::isLearnt", CL + "::isPersistent", SC + "::lbd")


def wenv(weight, more=None):
    """environment that knows the weights of clauses: weight(clause value) -> number or None"""
    def E(v):
        if v[0] == "call" and v[1] in ACC:
            o = v[2]
            if v[1] == SC + "::lbd": o = ("field", o, SC + "::clause")
            w = weight(o)
            if w is None: return None
            return {"getLBD": w, "lbd": w, "isDeleted": int(w == TOP), "isLearnt": int(w > 0), "isPersistent": int(w == 0)}[short(v[1])]
        if v[0] == "field" and fieldof(v) == "weight": return weight(v[1])
        if v[0] == "call" and short(v[1]) in ("min", "max") and v[3] and all(isinstance(x, tuple) for x in v[3]):
            a = v[3][0][2] if len(v[3]) == 1 and v[3][0][0] == "mk" else v[3][0][1] if len(v[3]) == 1 and v[3][0][0] == "ilist" else v[3]
            vs = [ceval(x, E) for x in a]
            if None not in vs: return {"min": min, "max": max}[short(v[1])](vs)
            if short(v[1]) == "min" and 0 in vs: return 0
            return None
        if v[0] == "call" and short(v[1]) == "max" and not v[3]: return TOP if "short" in str(v[1]) + str(v) else None
        return more(v) if more else None
    return E


def noelem(v): return v


def selected(ck, rule, f, g, sel):
    """at node selection events (n, cx) -> (clause value, condition value or None): no persistent, deleted or good clause is selected"""
    bad = {}; seen = set()
    def tr(n, cx):
        s = sel(n, cx)
        if s is None: return None
        c, cond = s
        for w in WEIGHTS:
            for p in (0, 3, 127):
              for sz in (3, 20, 1000):
                E = wenv(lambda o: w if o == c else None, lambda v: p if v[0] == "field" and fieldof(v) == "persistentLBD" else sz if v[0] == "size" and has(v, lambda z: z == c) else None)
                if consistent(cx.facts, E) is False: continue
                r = 1 if cond is None else ceval(cond, E)
                if r is None: continue
                seen.add((w, p))
                if r and (w == 0 or w <= p or w == TOP):
                    what = "an input or otherwise persistent clause" if w == 0 else "a clause that is already deleted" if w == TOP else "a clause whose LBD is within the persistent limit"
                    cx.run.report("%s is selected for deletion" % what, n)
                if r and w == 300: bad["some"] = True
        return None
    ck.run(rule, g, tr, None, "all", subject=f.pretty)
    if not seen: ck.note(rule, "no selection evaluated in " + f.q)


def d_reduce(ck, rule="a reduction of the clause database deletes only learnt clauses above the LBD limit, the worse half"):
    for f in ck.fns("Candy::ReduceDB::reduce"):
        g = ck.graph(f, ACC + (DB + "::removeClause",))
        src = ("field", ("field", T, "Candy::ReduceDB::clause_db"), DB + "::clauses")
        rem = [n for n in g.nodes if n.kind == "call" and n.fn() == DB + "::removeClause"]
        if not rem: ck.note(rule, "no clause is removed by " + f.q); continue
        isdb = lambda v: isinstance(v, tuple) and len(v) > 1 and v[0] in ("elem", "at") and v[1] == src
        fill = {"n": 0}
        def sel(n, cx):
            if n.kind == "ret" and n.frame.func.q.endswith("operator()") or n.kind == "ret" and n.frame is not g.rootframe and "lambda" in n.frame.func.id or n.kind == "ret" and "$L" in n.frame.func.id:
                call = getattr(n.frame, "call", None)
                v = cx.val(n.x["a"]) if n.x.get("a", -1) >= 0 else None
                if v is None: return None
                el = {z for z in list(walk(v)) + [z for k in cx.facts for z in walk(k)] if isdb(z)}
                if len(el) == 1:
                    # a predicate over the clauses of the database: copy_if
                    fill["n"] += 1
                    return el.pop(), v
                return None
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back", "insert") and cx.nargs() and isdb(cx.arg(cx.nargs() - 1)):
                fill["n"] += 1
                return cx.arg(cx.nargs() - 1), None
            if n.kind == "call" and n.fn() == DB + "::removeClause" and isdb(cx.arg(0)):
                fill["n"] += 1
                return cx.arg(0), None
            return None
        selected(ck, rule, f, g, sel)
        algos = [n for n in g.nodes if n.kind == "call"]
        for n in algos:
            fn = short(n.fn())
            if fn in ("sort", "stable_sort", "partial_sort", "nth_element"):
                a = [g.val(n.frame, q) for q in n.x["args"]]
                lam = [v for v in a if v[0] == "lambda"]
                fs = [h for h in ck.prog.funcs.values() if lam and h.id == lam[0][1]]
                for h in fs[:1]:
                    gl = ck.graph(h, ACC)
                    x, y = P(h, 0), P(h, 1)
                    for a_, b_ in ((2, 5), (5, 2), (4, 4)):
                        E = wenv(lambda o: a_ if o == x else b_ if o == y else None)
                        res = [(m, ceval(v, E)) for m in gl.nodes if m.kind == "ret" for v in [gl.val(m.frame, m.x["a"])]]
                        if len(res) == 1 and res[0][1] is None:
                            rv = gl.val(res[0][0].frame, res[0][0].x["a"])
                            if not mentions(rv, "weight", "getLBD") and has(rv, lambda z: z == x) and has(rv, lambda z: z == y): ck.bad(rule, "%s: order" % f.q, res[0][0].line(), "the clauses to be deleted are not selected by their LBD"); break
                        if len(res) != 1 or res[0][1] is None: ck.note(rule, "the order of %s is not evaluated" % h.q); break
                        ck.judge(rule, "%s: LBD %d before %d" % (f.q, a_, b_), bool(res[0][1]) == (a_ < b_), res[0][0].line(), "clauses with a higher LBD are kept in favour of clauses with a lower one" if a_ != b_ else "the order of clauses with equal LBD is not a strict order")
            if n.kind == "decl": pass
        for n in g.nodes:
            if n.kind == "decl":
                for v in n.x.get("vars") or []:
                    if v.get("init", -1) < 0: continue
                    i = g.val(n.frame, v["init"])
                    if i[0] == "iter" and isinstance(i[2], tuple) and i[2][0] == "off" and i[1][0] == "obj":
                        vals = [ceval(i[2][1], {("size", i[1]): s}) for s in (2, 3, 5, 8, 101)]
                        if None in vals: ck.note(rule, "start of the deleted range not evaluated"); continue
                        ck.judge(rule, f.q + " (range)", all(v_ >= s // 2 for v_, s in zip(vals, (2, 3, 5, 8, 101))), n.line(), "more than the worse half of the clauses is deleted")
            if n.kind == "call" and short(n.fn()) == "for_each":
                a = [g.val(n.frame, q) for q in n.x["args"]]
                if a[0][0] == "iter" and a[0][1][0] == "obj" and a[0][2] == 0 and any(m.frame.func.id == a[2][1] for m in rem if a[2][0] == "lambda"):
                    ck.bad(rule, f.q + " (range)", n.line(), "all selected clauses are deleted")


def d_weight(ck, rule="a clause counts as learnt exactly when it has a positive LBD, and as deleted exactly after its deletion"):
    W = ("field", T, CL + "::weight")
    for nm, want in (("isPersistent", lambda w: int(w == 0)), ("isLearnt", lambda w: int(w > 0)), ("isDeleted", lambda w: int(w == TOP)), ("getLBD", lambda w: w)):
        for f in ck.fns(CL + "::" + nm):
            for w in WEIGHTS:
                if nm == "isLearnt" and w == TOP: continue
                r = Sim(ck, f, limits({W: w})).res
                got = r[0][1] if len(r) == 1 else None
                if got is None: ck.note(rule, "%s not evaluated" % f.q); continue
                ck.judge(rule, "%s, weight %d" % (f.q, w), got == want(w), f.where(), "%s() gives %s for a clause with LBD %d" % (nm, got, w))
    for f in ck.fns(CL + "::setLBD"):
        for v in (0, 1, 7, TOP - 1, TOP):
            fld(ck, rule, f, "LBD %d" % v, limits({P(f, 0): v}), W, lambda got: got == min(v, TOP - 1), "a clause that is not deleted gets the weight %s for the LBD %d" % ("%s", v))
    for f in ck.prog.funcs.values():
        if f.q == CL + "::setDeleted": fld(ck, rule, f, "deleted", limits({}), W, lambda got: got == TOP, "a deleted clause has the weight %s")
        if f.kind == "ctor" and f.q.rsplit("::", 1)[0] == CL and len(f.params) == 3:
            for v in (0, 1, 7): fld(ck, rule, f, "LBD %d" % v, limits({P(f, 2): v}), W, lambda got: got == v, "a new clause with LBD %d has the weight %s" % (v, "%s"), prims=(CL + "::copyLiterals",))


def limits(d):
    def E(v):
        if v in d: return d[v]
        if v[0] == "call" and short(v[1]) == "max" and not v[3]: return TOP
        if v[0] == "call" and short(v[1]) == "min" and not v[3]: return 0
        return None
    class Env(dict):
        def get(self, k, default=None):
            r = E(k); return default if r is None else r
    return Env()


def fld(ck, rule, f, name, env, W, ok, msg, prims=()):
    r = Sim(ck, f, env, prims).res
    got = {x[2].get(W) for x in r}
    if len(got) != 1 or None in got: ck.note(rule, "%s (%s) not evaluated" % (f.q, name)); return
    got = got.pop()
    ck.judge(rule, "%s, %s" % (f.pretty, name), ok(got), f.where(), msg % got)


def d_birth(ck, rule="only learnt clauses and consequences of learnt clauses are created with a positive LBD"):
    for f in ck.fns(DB + "::createClause"):
        g = ck.graph(f, ("Candy::ClauseAllocator::*", "Candy::Certificate::*"))
        lb = P(f, 2)
        for n in g.nodes:
            if n.kind == "ctor" and n.fn().startswith(CL + "::") and len(n.x.get("args", [])) == 3:
                v = g.val(n.frame, n.x["args"][2])
                for L in (0, 1, 2, 3, 50):
                    w = ceval(v, lambda z: 0 if z == lb else L if z[0] == "call" and short(z[1]) == "distance" or z[0] == "dist" else None)
                    if w is None: ck.note(rule, "weight of a new clause not evaluated"); break
                    ck.judge(rule, "%s, %d literals" % (f.pretty, L), w == 0, n.line(), "an input clause of %d literals is created with the LBD %s and can be deleted" % (L, w))
    done = set()
    for f, e, x in sites(ck.prog, DB + "::createClause", SUBDB + "::create"):
        if len(x.get("args", [])) < 3: continue
        root = f
        if f.q == SUBDB + "::create" or f.q == DB + "::createClause": continue
        g = ck.graph(root, ACC + (DB + "::createClause", DB + "::removeClause", SUBDB + "::create", SUBDB + "::remove", "Candy::VariableElimination::merge", "Candy::Trail::*") + (("Candy::*",) if "Solver" in f.q else ()))
        for n in g.nodes:
            if n.kind != "call" or n.frame is not g.rootframe or n.e != e: continue
            v = g.val(n.frame, n.x["args"][2])
            key = (f.file, x.get("l"), x.get("c"), vstr(nosite(v)))
            if key in done: continue
            done.add(key)
            ps = sorted({z for z in walk(v) if z and z[0] == "param" and isinstance(z[1], str)}, key=str)
            if ps and v[0] == "cond":
                # clauses of the problem; for the other value of the flag, imported lemmas
                rows = [[ceval(v, lambda z: b if z in ps else sz if z[0] == "size" else None) for sz in (1, 3, 20, 70, 1000, 100000)] for b in (0, 1)]
                if any(None not in r and not any(r) for r in rows): v = ("int", 0)
                elif all(None not in r for r in rows): ck.bad(rule, "%s:%s" % (f.q, x.get("l")), n.line(), "an input clause of some length becomes deletable"); continue
            if v == ("int", 0): ck.ok(rule, "%s:%s" % (f.q, x.get("l"))); continue
            if v[0] == "int": ck.bad(rule, "%s:%s" % (f.q, x.get("l")), n.line(), "a clause is created as learnt with a fixed LBD of %d" % v[1]); continue
            if has(v, lambda z: fieldof(z) == "lbd" and "nalysis" in str(z) or z[0] == "field" and z[2].endswith("::lbd")):
                a = g.val(n.frame, n.x["args"][0])
                ck.judge(rule, "%s:%s" % (f.q, x.get("l")), mentions(a, "learnt_clause"), n.line(), "a clause other than the learnt clause gets the LBD of the learnt clause"); continue
            ws = {z[2] if z[1] != SC + "::lbd" else ("field", z[2], SC + "::clause") for z in walk(v) if z and z[0] == "call" and z[1] in ACC} | {z[1] for z in walk(v) if z and z[0] == "field" and fieldof(z) == "weight"}
            if not ws:
                w = ceval(v, lambda z: 7 if z[0] == "size" else None)
                if w and only_if_unset(ck, f, e): ck.ok(rule, "%s:%s" % (f.q, x.get("l"))); continue
                if w: ck.bad(rule, "%s:%s" % (f.q, x.get("l")), n.line(), "a clause that does not replace learnt clauses gets an LBD, which makes it deletable"); continue
            if not ws: ck.note(rule, "%s:%s: LBD %s" % (f.q, x.get("l"), vstr(v))); continue
            for o in ws:
                w = ceval(v, wenv(lambda c: 0 if c == o else 5, lambda z: 7 if z[0] == "size" else None))
                if w is None: ck.note(rule, "%s:%s not evaluated" % (f.q, x.get("l"))); continue
                ck.judge(rule, "%s:%s, %s persistent" % (f.q, x.get("l"), vstr(nosite(o))[:60]), w == 0, n.line(), "a clause that replaces a persistent clause becomes deletable")
            w = ceval(v, wenv(lambda c: 0, lambda z: 7 if z[0] == "size" else None))
            if w is not None: ck.judge(rule, "%s:%s, all persistent" % (f.q, x.get("l")), w == 0, n.line(), "a clause that replaces persistent clauses becomes deletable")


def d_reestimate(ck, rule="only the LBD of learnt clauses is ever changed"):
    hit = 0
    roots = {f.id: f for f, e, x in sites(ck.prog, CL + "::setLBD", CL + "::setPersistent") if not (f.kind == "ctor" and f.q.startswith(CL + "::"))}
    for f in roots.values():
        g = ck.graph(f, ACC + (CL + "::setLBD", "Candy::Trail::*"))
        def objs(facts): return {z[2] for k in facts for z in walk(k) if z and z[0] == "call" and z[1] in ACC and isinstance(z[2], tuple)} | {z[1] for k in facts for z in walk(k) if z and z[0] == "field" and fieldof(z) == "weight"}
        zero = lambda o: wenv(lambda c: 0 if c == o else None)
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and n.fn() == CL + "::setLBD":
                o = cx.obj()
                if o not in u and consistent(cx.facts, zero(o)) is not False and ceval(cx.arg(0), zero(o)) != 0: cx.run.report("a persistent clause can get an LBD, which makes it deletable", n)
            if n.kind == "write":
                ks = {k for k in cx.run.kills(n) if isinstance(k, tuple)}
                return frozenset(v for v in u if not (cx.run.deps(v) & ks))
            return u
        def ed(n, c, cx, u):
            return u | frozenset(o for o in objs(cx.facts) if consistent(cx.facts, zero(o)) is False)
        ck.run(rule, g, tr, frozenset(), "all", ed, subject=f.pretty); hit += 1
    for f, e, x, k in writes(ck.prog, CL + "::weight"):
        ck.judge(rule, "%s:%s" % (f.q, x.get("l")), f.q.rsplit("::", 1)[0] == CL or f.q.startswith(CL + "::"), f.where(), "the weight of a clause is changed from outside")


def d_level0(ck, rule="clauses are deleted between searches only, and the propagator is rebuilt before the next search"):
    for f in ck.fns("Candy::Solver::solve"):
        if f.params: continue
        g = ck.graph(f, UNITS_P)
        RD = "Candy::ReduceDB::reduce"
        def tr(n, cx):
            lv, dirty = cx.ust
            if n.kind != "call": return cx.ust
            fn = n.fn()
            if fn == "Candy::Trail::reset" or fn == "Candy::Trail::backtrack" and cx.arg(0) == ("int", 0): lv = True
            elif short(fn) == "search": 
                if dirty: cx.run.report("the search continues with references to deleted clauses", n)
                lv = False
            elif fn == RD:
                if not lv: cx.run.report("clauses are deleted while they may be reasons of assignments", n)
                dirty = frozenset(("db", "prop"))
            elif fn == DB + "::reorganize" and dirty: dirty = dirty - {"db"}
            elif short(fn) == "reset" and "ropagat" in str(cx.obj() if n.x.get("obj", -1) >= 0 else "") and dirty:
                if "db" in dirty: cx.run.report("the propagator is rebuilt before the deleted clauses have left the database", n)
                dirty = dirty - {"prop"}
            elif short(fn) == "propagateAndMaterializeUnitClauses" and dirty: cx.run.report("propagation continues with references to deleted clauses", n)
            return (lv, dirty)
        ck.run(rule, g, tr, (False, frozenset()), None, subject=f.pretty)
    for f, e, x in sites(ck.prog, "Candy::ReduceDB::reduce"):
        ck.judge(rule, "%s:%s" % (f.q, x.get("l")), f.q == "Candy::Solver::solve" or not f.q.endswith("::search"), f.where(), "clauses are deleted during the search")


UNITS_P = ("Candy::Trail::*", "Candy::ReduceDB::*", DB + "::*", "Candy::Solver::search", "Candy::Solver::propagateAndMaterializeUnitClauses", "Candy::Solver::processClauseDatabase",
           "Candy::VariableElimination::*", "Candy::Propagate::*", "Candy::StaticPropagate::*", "Candy::VSIDS::*", "Candy::LRB::*", "Candy::VSIDSC::*", "Candy::Restart::*", "Candy::ConflictAnalysis::*", "Candy::SonificationClient::*", "Sonification*", "Candy::Logging*")

P17 = [d_reduce, d_weight, d_birth, d_reestimate, d_level0]


# ---------------------------------------------------------------- P29
def s_subsumes(ck, rule="a clause is only reported as subsuming when all its literals occur in the other clause, at most one of them negated"):
    for f in ck.fns(SC + "::subsumes"):
        g = ck.graph(f)
        me = ("field", T, SC + "::clause"); ot = ("field", P(f, 0), SC + "::clause")
        el = lambda v, c: v[0] in ("elem", "at") and v[1] == c
        def same(facts):
            return any(k[0] == "eq" and w and (el(k[1], me) and el(k[2], ot) or el(k[2], me) and el(k[1], ot)) for k, w in facts.items()) or \
                any(k[0] == "zero" and not w and k[1][0] == "call" and short(k[1][1]) == "contains" and k[1][2] in (P(f, 0), ot) and el(k[1][3][0], me) for k, w in facts.items())
        def opp(facts):
            for k, w in facts.items():
                if k[0] == "eq" and w:
                    for a, b in ((k[1], k[2]), (k[2], k[1])):
                        if a[0] == "neg" and (el(a[1], me) and el(b, ot) or el(a[1], ot) and el(b, me)): return True
                if k[0] == "zero" and not w and k[1][0] == "call" and short(k[1][1]) == "contains" and k[1][2] in (P(f, 0), ot) and k[1][3][0][0] == "neg" and el(k[1][3][0][1], me): return True
            return False
        UND = lambda v: v[0] == "glob" and v[1].endswith("lit_Undef")
        fe = ForEach(lambda c: c == me, None, lambda cx: same(cx.facts) or opp(cx.facts))
        def tr(n, cx):
            st, fl, was = cx.ust
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                if v[0] == "glob" and v[1].endswith("lit_Error"): return cx.ust
                if not st[1]: cx.run.report("a clause counts as subsuming although a literal of it may not occur in the other clause", n)
                elif UND(v) and fl: cx.run.report("a clause counts as subsuming although one of its literals only occurs negated", n)
                elif not UND(v) and not fl and v[0] in ("elem", "at", "neg"): cx.run.report("a literal is reported for deletion although none is negated in the other clause", n)
                elif fl > 1: cx.run.report("a clause counts as subsuming although two of its literals only occur negated", n)
                if fl and v[0] == "neg" or fl and v[0] in ("elem", "at") and v[1] == ot: cx.run.report("the literal reported is not the one of the subsuming clause", n)
            return (fe.step(n, cx, st), fl, was)
        def ed(n, c, cx, u):
            if any(k[0] == "eq" and w and any(UND(x) for x in k[1:]) and any(x[0] in ("elem", "at") for x in k[1:]) for k, w in cx.facts.items()): return STOP
            st, fl, was = u
            s2 = fe.edge(n, c, cx, st)
            if st[0] is not None and not st[0][0] and s2[0] is not None and s2[0][0] and s2[0][2] == st[0][2] and not same(cx.facts): fl = min(2, fl + 1)
            return (s2, fl, was)
        ck.run(rule, g, tr, (ForEach.INIT, 0, None), "all", ed, subject=f.pretty, fe=[fe])


def occs(v):
    """element of an occurrence list"""
    return v[0] in ("elem", "at") and (mentions(v[1], "occurrences", "copyOccurences", "refOccurences"))


def s_loop(ck, rule="clauses are only removed when subsumed, and strengthened only by the literal that subsumption resolution removes"):
    PR = (SUBDB + "::create", SUBDB + "::remove", SUBDB + "::strengthen", SC + "::subsumes") + ACC
    for f in ck.fns(SUB + "::subsume"):
        if len(f.params) != 1: continue
        g = ck.graph(f, PR)
        given = P(f, 0)
        UND = lambda v: v[0] == "glob" and v[1].endswith("lit_Undef"); ERR = lambda v: v[0] == "glob" and v[1].endswith("lit_Error")
        res = lambda v: v[0] == "call" and v[1] == SC + "::subsumes"
        cl = lambda v: v == given or v[0] == "call" and v[1] == SUBDB + "::create" or v[0] in ("phi", "rec") 
        def verdict(facts, o):
            """what is known of the subsumption test for clause o: set of possible results"""
            pos = {"undef", "error", "lit"}
            for k, w in facts.items():
                if k[0] != "eq": continue
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if res(a) and a[3] and nosite(a[3][0]) == nosite(o):
                        x = "undef" if UND(b) else "error" if ERR(b) else None
                        if x is not None: pos = pos & ({x} if w else pos - {x})
            return pos
        fieldw = lambda o: ("field", o, SC + "::clause")
        def iscopy(v):
            return v[0] == "call" and v[1] == SUBDB + "::create" or v[0] in ("phi", "rec")
        def strip(v):
            # the clause behind iterators and copies of it
            return v[1] if v[0] == "field" and v[2] == SC + "::clause" else v
        def whole(a, b):
            if a[0] != "iter" or b[0] != "iter": return None
            if a[2] not in (0, "end") or b[2] not in (0, "end"): return False
            return (a[2], b[2]) == (0, "end") and cl(strip(a[1])) and cl(strip(b[1]))
        def known(facts, os):
            out = set()
            for o in os:
                p = verdict(facts, o)
                if p != {"undef", "error", "lit"}: out.add((o, "v", frozenset(p)))
                # weights of the removed and of the removing clause
                E = lambda wo, wc: wenv(lambda c: wo if nosite(c) in (nosite(fieldw(o)), nosite(o)) else wc, lambda v: 4 if v[0] == "size" else None)
                if all(consistent(facts, E(0, wc)) is False for wc in (1, 5)): out.add((o, "w", frozenset()))
                if any(k[0] == "eq" and not w and nosite(o) in (nosite(k[1]), nosite(k[2])) and any(cl(x) for x in k[1:]) for k, w in facts.items()): out.add((o, "s", frozenset()))
            return out
        def objs(facts): return {z for k in facts for z in walk(k) if isinstance(z, tuple) and len(z) > 1 and isinstance(z[0], str) and occs(z)}
        def tr(n, cx):
            made, u = cx.ust
            if n.kind == "write":
                ks = {k for k in cx.run.kills(n) if isinstance(k, tuple)}
                if any(ks & cx.run.deps(o) for o, _, _ in u): u = frozenset(x for x in u if not (cx.run.deps(x[0]) & ks))
                return (made, u)
            if n.kind == "call" and n.fn() == SUBDB + "::create":
                if whole(cx.arg(0), cx.arg(1)) is False: cx.run.report("the copy of the subsuming clause does not have its literals", n)
                lb = ("int", 0) if cx.nargs() < 3 else cx.arg(2)
                made = "copy" if ceval(lb, {}) == 0 else "learnt"
            if n.kind == "call" and n.fn() == SUBDB + "::remove":
                o = cx.arg(0)
                if occs(o):
                    kn = u | frozenset(known(cx.facts, [o]))
                    p = set.intersection({"undef", "error", "lit"}, *[set(x[2]) for x in kn if x[0] == o and x[1] == "v"])
                    if p != {"undef"}: cx.run.report("a clause is removed although it may not be subsumed", n)
                    # input clauses must not be replaced by learnt ones
                    if made != "copy" and not any(x[0] == o and x[1] == "w" for x in kn): cx.run.report("a persistent clause is removed although the clause that subsumes it may be learnt", n)
                    if not any(x[0] == o and x[1] == "s" for x in kn): cx.run.report("a clause may be removed because it subsumes itself", n)
                elif o == given or iscopy(o) and made is None:
                    if made != "copy": cx.run.report("the subsuming clause is removed without a persistent copy", n)
                elif iscopy(o): cx.run.report("the copy of the subsuming clause is removed", n)
            if n.kind == "call" and n.fn() == SUBDB + "::strengthen":
                o, l = cx.arg(0), cx.arg(1)
                kn = u | frozenset(known(cx.facts, [o]))
                p = set.intersection({"undef", "error", "lit"}, *[set(x[2]) for x in kn if x[0] == o and x[1] == "v"])
                if "error" in p: cx.run.report("a clause is strengthened although the test did not allow it", n)
                elif "undef" in p: cx.run.report("a clause that is subsumed is strengthened by no literal", n)
                if res(l): cx.run.report("the literal of the subsuming clause is removed instead of its negation in the other clause", n)
                elif l[0] == "neg" and res(l[1]):
                    if nosite(l[1][3][0]) != nosite(o): cx.run.report("a clause is strengthened with the result of another test", n)
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                if v == ("int", 0):
                    ok = False
                    for k, w in cx.facts.items():
                        if k[0] == "lt" and k[1][0] == "size" and k[2] in (2, ("int", 2)) and w and has(k[1], occs): ok = True
                        if k[0] == "lt" and k[1] in (1, ("int", 1)) and isinstance(k[2], tuple) and k[2][0] == "size" and not w: ok = True
                        if k[0] == "zero" and w and k[1][0] == "field" and k[1][2] == SC + "::clause": ok = True
                        if k[0] == "eq" and w and ("int", 1) in k[1:] and any(x[0] == "size" for x in k[1:]): ok = True
                    lit = any(k[0] == "eq" and not w and any(res(x) for x in k[1:]) and any(ERR(x) for x in k[1:]) for k, w in cx.facts.items())
                    if not ok or not lit: cx.run.report("the problem is declared unsatisfiable although no empty clause was derived", n)
            return (made, u)
        def ed(n, c, cx, st):
            made, u = st
            return (made, u | frozenset(known(cx.facts, objs(cx.facts))))
        ck.run(rule, g, tr, (None, frozenset()), "all", ed, subject=f.pretty)


def s_unit(ck, rule="a unit clause removes exactly the clauses that contain it and its negation from the others"):
    PR = (SUBDB + "::create", SUBDB + "::remove", SUBDB + "::strengthen", SC + "::contains", CL + "::contains")
    for f in ck.fns(SUB + "::unit_resolution"):
        g = ck.graph(f, PR)
        cont = lambda v: v[0] == "call" and short(v[1]) == "contains"
        own = ("field", P(f, 0), SC + "::clause")
        unit = lambda v: has(v, lambda z: z == own) and v[0] != "neg" and v[0] not in ("var_of", "call")
        def known(facts, o):
            """does the clause contain the unit"""
            r = None
            for k, w in facts.items():
                if k[0] == "zero" and cont(k[1]) and (nosite(k[1][2]) == nosite(o) or k[1][2] == ("field", o, SC + "::clause")):
                    a = k[1][3][0]
                    if a[0] == "neg": return (not w) if False else ("neg", not w)
                    r = ("pos", not w)
            return r
        def tr(n, cx):
            if n.kind == "call" and n.fn() in (SUBDB + "::remove", SUBDB + "::strengthen") and occs(cx.arg(0)):
                o = cx.arg(0); k = known(cx.facts, o)
                if n.fn() == SUBDB + "::remove":
                    if k is None or k == ("pos", False) or k == ("neg", True): cx.run.report("a clause is removed although it may not contain the unit", n)
                else:
                    l = cx.arg(1)
                    if l[0] != "neg" and unit(l): cx.run.report("the unit itself is removed from a clause", n)
                    if k == ("pos", True) or k == ("neg", False) or k is None: cx.run.report("a clause that may contain the unit is strengthened", n)
                if not any(x[0] == "eq" and not w and o in x[1:] and P(f, 0) in x[1:] for x, w in cx.facts.items()): cx.run.report("the unit clause itself is removed or strengthened", n)
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0 and cx.val(n.x["a"]) == ("int", 0):
                ok = any(k[0] == "eq" and w and ("int", 1) in k[1:] and any(x[0] == "size" for x in k[1:]) or k[0] == "lt" and k[1][0] == "size" and k[2] in (2,) and w for k, w in cx.facts.items())
                neg = any(k[0] == "zero" and cont(k[1]) and (w if k[1][3][0][0] != "neg" else not w) for k, w in cx.facts.items())
                if not (ok and neg): cx.run.report("the problem is declared unsatisfiable although no empty clause was derived", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.pretty)


def s_occ(ck, rule="occurrence lists hold every clause with a variable, and no clause without it"):
    oc = ("field", T, SUBDB + "::occurrences")
    lit_of = lambda v, C: v[0] in ("elem", "at") and (C is None or v[1] == C or has(v[1], lambda z: z == C))
    for f in ck.fns(SUBDB + "::addToOccurenceLists"):
        g = ck.graph(f); h = P(f, 0)
        def ev(n, cx):
            if n.kind != "call" or short(n.fn()) not in ("push_back", "emplace_back") or n.x.get("obj", -1) < 0: return False
            o = cx.obj()
            if o[0] != "at" or o[1] != oc: return False
            if cx.arg(0) != h: cx.run.report("another clause is entered in an occurrence list", n)
            return o[2][0] == "var_of" and o[2][1][0] in ("elem", "at")
        m = ForEach(lambda c: c == ("field", h, SC + "::clause"), ev)
        ck.run(rule, g, lambda n, cx: m.step(n, cx, cx.ust), ForEach.INIT, None, lambda n, c, cx, u: m.edge(n, c, cx, u), final=lambda k, u, fa, cx: "a clause is missing in the occurrence list of one of its variables" if k == "exit" and not u[1] else None, subject=f.q, fe=[m])
    for q in ("init", "create"):
        for f in ck.fns(SUBDB + "::" + q):
            g = ck.graph(f, (SUBDB + "::addToOccurenceLists", DB + "::createClause", "Candy::Memory::*", SC + "::calc_abstraction"))
            def tr(n, cx):
                if n.kind == "call" and n.fn() == SUBDB + "::addToOccurenceLists": return cx.ust | {"added"}
                if n.kind == "ctor" and n.fn().startswith(SC + "::"):
                    if "made" in cx.ust and "added" not in cx.ust: cx.run.report("a clause is not entered in the occurrence lists", n)
                    return frozenset(["made"])
                return cx.ust
            ck.run(rule, g, tr, frozenset(), None, final=lambda k, u, fa, cx: "a clause is not entered in the occurrence lists" if k == "exit" and "made" in u and "added" not in u else None, subject=f.pretty)
    for f in ck.fns(SUBDB + "::init"):
        g = ck.graph(f, ("Candy::Memory::*", SC + "::calc_abstraction"))
        src = ("field", ("field", T, SUBDB + "::clause_db"), DB + "::clauses")
        m = ForEach(lambda c: c == src, lambda n, cx: n.kind == "ctor" and n.fn().startswith(SC + "::") and cx.nargs() and cx.arg(0)[0] in ("elem", "at") and cx.arg(0)[1] == src)
        ck.run(rule, g, lambda n, cx: m.step(n, cx, cx.ust), ForEach.INIT, None, lambda n, c, cx, u: m.edge(n, c, cx, u), final=lambda k, u, fa, cx: "a clause of the database may be missing in the simplifier" if k == "exit" and not u[1] else None, subject=f.q, fe=[m])
    for f in ck.fns(SUBDB + "::strengthen"):
        g = ck.graph(f, (DB + "::strengthenClause", SC + "::reset"))
        h, l = P(f, 0), P(f, 1)
        def ev(n, cx):
            return n.kind == "call" and short(n.fn()) in ("erase",) and n.x.get("obj", -1) >= 0 and cx.obj() == ("at", oc, ("var_of", l))
        must(ck, rule, g, ev, "a strengthened clause stays in the occurrence list of the removed variable", subject=f.pretty)
        for n in g.nodes:
            if n.kind == "call" and short(n.fn()) == "remove" and len(n.x.get("args", [])) == 3 and n.fn().startswith("std::"):
                a = [g.val(n.frame, q) for q in n.x["args"]]
                C = ("at", oc, ("var_of", l))
                if a[0][0] == "iter": ck.judge(rule, f.q + " (list)", a[0] == ("iter", C, 0) and a[1] == ("iter", C, "end") and a[2] == h, n.line(), "another clause or list is affected by strengthening")
    for f in ck.fns(SUBDB + "::cleanup"):
        g = ck.graph(f, (SC + "::is_deleted",))
        def tr(n, cx):
            if n.kind == "ret" and "$L" in n.frame.func.id and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                for dead, sz in ((1, 3), (0, 1), (0, 3), (0, 100), (0, 100000)):
                    E = lambda z: sz if z[0] == "size" and has(z, lambda y: y[0] == "field" and y[2] == SC + "::clause") else dead if z[0] == "call" and z[1] == SC + "::is_deleted" else (0 if dead else 77) if z[0] == "field" and z[2] == SC + "::clause" else None
                    if consistent(cx.facts, E) is False: continue
                    r = ceval(v, E)
                    if r is not None and bool(r) and not dead: cx.run.report("a clause that is not deleted leaves the occurrence lists", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.q)


def s_asymm(ck, rule="asymmetric reduction removes a literal only when the negations of the others lead to a conflict"):
    for f in ck.prog.funcs.values():
        if f.q != "Candy::AsymmetricVariableReduction::reduce" or len(f.params) != 1: continue
        g = ck.graph(f, ("Candy::Trail::*", SUBDB + "::strengthen", SUBDB + "::copyOccurences", "Candy::Propagate::propagate", "Candy::StaticPropagate::propagate"))
        def tr(n, cx):
            st = cx.ust        # levels open, conflict
            if n.kind != "call": return st
            fn = n.fn()
            if fn == "Candy::Trail::newDecisionLevel": return True
            if fn == "Candy::Trail::backtrack": return False
            if fn == "Candy::Trail::decide" and cx.arg(0)[0] in ("elem", "at"): cx.run.report("a literal of the clause is assumed instead of its negation", n)
            if fn == SUBDB + "::strengthen":
                if st: cx.run.report("a clause is strengthened under the temporary assumptions", n)
                conf = any(k[0] == "zero" and not w and has(k[1], lambda z: z[0] == "call" and short(z[1]) == "propagate") for k, w in cx.facts.items()) or \
                    any(k[0] == "eq" and not w and has(k, lambda z: z[0] == "call" and short(z[1]) == "propagate") for k, w in cx.facts.items())
                if not conf: cx.run.report("a literal is removed although there was no conflict", n)
            return st
        ck.run(rule, g, tr, False, "all", subject=f.pretty)


from .proof import p_strengthen, p_subdb, p_live
P29 = [s_subsumes, s_loop, s_unit, s_occ, s_asymm, p_strengthen, p_subdb, p_live]
