"""P19: the proof checker accepts nothing that does not follow."""
from .lib import *
from .ev import *
from .search import litval
from .branch import nosite
T = ("this",)
DC = "Candy::DRATChecker"; DB = "Candy::ClauseDatabase"; CL = "Candy::Clause"
EMPTY = ("field", ("field", T, DC + "::clause_db"), DB + "::emptyClause_")
OCC = ("field", T, DC + "::occurences")


def asfun(v, name): return v[0] == "call" and v[1].startswith(DC + "::" + name)
def isempty(v): return v == EMPTY or v[0] == "call" and v[1] == DB + "::hasEmptyClause"


def d_lines(ck, rule="a proof is accepted only when every added clause was checked and the empty clause was derived"):
    for f in ck.fns(DC + "::check_proof"):
        if "char" in (f.params[0].get("t") or "") or not f.params: 
            g = ck.graph(f, (DB + "::*", DC + "::*"))
            def tr(n, cx):
                if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                    v = cx.val(n.x["a"])
                    E = lambda z: 0 if isempty(z) or asfun(z, "check_proof") else None
                    if consistent(cx.facts, E) is False: return None
                    r = canbe(v, cx.facts, E)
                    if r: cx.run.report("a proof is accepted although checking it failed and the problem contains no empty clause", n)
                return None
            ck.run(rule, g, tr, None, "all", subject=f.pretty)
            continue
        g = ck.graph(f, (DB + "::*", DC + "::check_*", DC + "::known_variables", "Candy::StreamBuffer::*"))
        add = lambda v: asfun(v, "check_clause_add")
        lits = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back", "clear", "insert", "assign", "resize") and n.x.get("obj", -1) >= 0 and cx.obj()[0] == "obj"
        # state: (result of the last addition is open, an addition failed, the literals are known variables, state of the list)
        def tr(n, cx):
            pend, failed, known, lst = cx.ust
            if n.kind == "call":
                fn = n.fn()
                if fn.startswith(DC + "::check_clause_add"):
                    if pend: cx.run.report("the result of checking an added clause is ignored", n)
                    if not known: cx.run.report("a clause with unknown variables can be checked", n)
                    if lst == "open": cx.run.report("a clause is checked before it has been read completely", n)
                    a, b = cx.arg(0), cx.arg(1)
                    if a[0] == "iter" and (a[2] != 0 or b[0] != "iter" or b[2] != "end" or b[1] != a[1]): cx.run.report("only a part of the clause is checked", n)
                    return (True, failed, known, "used")
                if fn.startswith(DC + "::check_clause_remove"):
                    if not known: cx.run.report("a clause with unknown variables can be looked up", n)
                    return (pend, failed, known, "used")
                if short(fn) == "clear" and lits(n, cx): return (pend, failed, False, "new")
                if lits(n, cx):
                    if lst == "used": cx.run.report("the literals of a clause are added to those of the previous one", n)
                    known = False
                    if short(fn) in ("push_back", "emplace_back"):
                        v = cx.arg(0)
                        num = next((z for z in walk(v) if z and z[0] == "call" and z[1].endswith("::readInteger")), None)
                        if num is not None:
                            for k in (1, -1, 2, -2, 1000, -1000):
                                l = litc(v, num, k)
                                if l is None: ck.note(rule, "literal %s not evaluated" % vstr(v)); break
                                if l != (abs(k) - 1, int(k < 0)): cx.run.report("the number %d is read as the literal %s%d" % (k, "-" if l[1] else "", l[0] + 1), n); break
                    return (pend, failed, known, "open" if lst != "new" else "new")
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                E = lambda z: 0 if isempty(z) else None
                if consistent(cx.facts, E) is not False and canbe(v, cx.facts, E): cx.run.report("a proof is accepted although the empty clause was not derived", n)
                if ceval(v, {}) != 0:
                    if failed: cx.run.report("a proof is accepted although an added clause does not follow", n)
                    elif pend: cx.run.report("the result of checking an added clause is ignored", n)
            return (pend, failed, known, lst)
        def ed(n, c, cx, u):
            pend, failed, known, lst = u
            for k, w in cx.facts.items():
                if k[0] != "zero": continue
                if add(k[1]) and pend:
                    pend = False
                    failed = failed or w
                if (asfun(k[1], "known_variables") or k[1][0] == "algo" and has(k[1], lambda z: z[0] == "var_of")) and not w: known = True
            return (pend, failed, known, lst)
        ck.run(rule, g, tr, (False, False, False, "new"), "all", ed, subject=f.pretty)


def litc(v, num, k):
    """the literal made of the number num = k, as (variable, sign)"""
    def E(z):
        if z == num: return k
        if z[0] == "call" and short(z[1]) in ("abs", "labs") and z[3]:
            r = ceval(z[3][0], E); return None if r is None else abs(r)
        return None
    if v[0] == "mk" and v[1] in ("Lit", "Candy::Lit"):
        a = [ceval(x, E) for x in v[2]]
        if None in a or not a: return None
        return (a[0], int(bool(a[1])) if len(a) > 1 else 0)
    if v[0] == "cond":
        c = ceval(v[1], E)
        return None if c is None else litc(v[2] if c else v[3], num, k)
    if v[0] == "neg":
        r = litc(v[1], num, k)
        return None if r is None else (r[0], 1 - r[1])
    if v[0] == "litxor":
        r = litc(v[1], num, k); s = ceval(v[2], E)
        return None if r is None or s is None else (r[0], r[1] ^ int(bool(s)))
    return None


def d_known(ck, rule="only clauses over known variables are checked"):
    for f in ck.fns(DC + "::known_variables"):
        g = ck.graph(f, (DB + "::*",))
        nv = lambda v: v[0] == "call" and short(v[1]) == "nVars" or v[0] == "field" and fieldof(v) == "variables"
        def ex(cx):
            for z in (0, 1, 5, 6, 7):
                E = lambda v: z if v[0] == "var_of" and v[1][0] in ("elem", "at") else 5 if nv(v) else None
                ok = consistent(cx.facts, E)
                if ok is not False and z >= 5: return False
            return any(has(k, lambda v: v[0] == "var_of") for k in cx.facts)
        m = ForEach(lambda c: c == P(f, 0), None, ex)
        def fin(k, u, fa, cx): return None
        def tr(n, cx):
            st, was = cx.ust
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                if v == ("int", 1) and not st[1]: cx.run.report("a clause may be taken as known although a variable of it was not checked", n)
            return (m.step(n, cx, st), was)
        ck.run(rule, g, tr, (ForEach.INIT, None), "all", lambda n, c, cx, u: (m.edge(n, c, cx, u[0]), u[1]), subject=f.q, fe=[m])


def d_asymm(ck, rule="a clause counts as implied only by a conflict under the negation of its own literals"):
    for f in ck.fns(DC + "::check_asymm"):
        g = ck.graph(f, (DB + "::*", "Candy::Propagate::*", "Candy::Trail::decide", "Candy::Trail::newDecisionLevel", "Candy::Trail::fact"))
        pivot = P(f, 2)
        prop = lambda v: v[0] == "call" and short(v[1]) == "propagate"
        own = lambda v: v[0] in ("ivar", "elem", "at", "phi", "rec", "iterv", "un", "deref") and v != pivot
        notpivot = lambda facts, x: any(k[0] == "eq" and not w and pivot in k[1:] and x in k[1:] for k, w in facts.items())
        def tr(n, cx):
            if n.kind == "call" and n.fn() in ("Candy::Trail::decide", "Candy::Trail::fact"):
                l = cx.arg(0)
                if n.fn().endswith("fact"): cx.run.report("an assumption of the check is kept as a fact", n)
                if l[0] != "neg" or l[1] == pivot:
                    if own(l) or l == pivot or l[0] == "neg": cx.run.report("something else than the negation of a literal of the clause is assumed", n)
                elif not notpivot(cx.facts, l[1]): cx.run.report("the literal that is resolved upon can be assumed to be false", n)
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                E = lambda z: 0 if isempty(z) or prop(z) else None
                if consistent(cx.facts, E) is False: return None
                r = canbe(v, cx.facts, E)
                if r is None: ck.note(rule, "result %s of %s not evaluated" % (vstr(v), f.q)); return None
                if r:
                    ls = {x[3][0] for k in cx.facts for x in walk(k) if isinstance(x, tuple) and len(x) > 3 and x[0] == "call" and short(x[1]) in ("value", "satisfies", "falsifies") and x[3]}
                    ls = {x[1] if x[0] == "neg" else x for x in ls}
                    if not any(litval(cx.facts, x) == frozenset([0]) and notpivot(cx.facts, x) for x in ls):
                        cx.run.report("a clause counts as implied although there was no conflict and none of its other literals is true", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.pretty)


def d_add(ck, rule="a clause is added only after a conflict under its negation, or for all resolvents on one of its literals"):
    PR = (DB + "::*", "Candy::Propagate::*", "Candy::Trail::*", DC + "::check_asymm", CL + "::isDeleted", CL + "::contains")
    for f in ck.fns(DC + "::check_clause_add"):
        g = ck.graph(f, PR)
        b, e = P(f, 0), P(f, 1)
        UND = lambda v: v[0] == "glob" and v[1].endswith("lit_Undef")
        at = lambda v: asfun(v, "check_asymm") and v[3][:2] == (b, e) and UND(v[3][2])
        def rat(v):
            """check of a clause in the occurrence list -> (list, clause, literal)"""
            if not asfun(v, "check_asymm"): return None
            a, z, p = v[3][:3]
            if a[0] != "iter" or z[0] != "iter" or a[1] != z[1] or (a[2], z[2]) != (0, "end"): return None
            c = a[1]
            if c[0] not in ("elem", "at") or not (c[1][0] == "at" and c[1][1] == OCC): return None
            return c[1], c, p
        def pivotlist(c): return c[0] == "at" and c[1] == OCC
        def ok(v):
            r = rat(v)
            return r is not None and r[0][2] == r[2] and r[2][0] == "neg" and own(r[2][1])
        own = lambda v: v[0] in ("ivar", "elem", "at", "phi", "rec", "iterv", "un", "deref", "iter") and not has(v, lambda z: z == OCC)
        cur = [None]
        def ex(cx):
            if cur[0] is not None and ok(cur[0][0]) and cur[0][1]: return True
            for k, w in cx.facts.items():
                if k[0] != "zero": continue
                if ok(k[1]) and not w: return True
                if k[1][0] == "call" and k[1][1] == CL + "::isDeleted" and not w: return True
            return False
        m = ForEach(pivotlist, None, ex)
        ids = []
        def tr(n, cx):
            st, proved, level, res = cx.ust
            st = m.step(n, cx, st)
            if n.kind == "call":
                fn = n.fn()
                if fn.startswith(DC + "::check_asymm"):
                    v = cx.g.val(n.frame, n.e, dict(cx.env)) if False else ("call", fn, None, tuple(cx.arg(i) for i in range(cx.nargs())))
                    if not UND(v[3][2]):
                        r = rat(v)
                        if level == 2: cx.run.report("a resolvent is checked under the assumptions of the check of another one", n)
                        if r is not None:
                            if r[2][0] != "neg" and own(r[2]): cx.run.report("the literal of the new clause is left out instead of its negation in the other clause", n)
                            elif r[0][2] != r[2]: cx.run.report("the clauses of another literal are resolved", n)
                        elif v[3][:2] == (b, e): cx.run.report("a literal of the clause itself is left out in the check of the clause", n)
                    level = 1 if UND(v[3][2]) else 2
                    res = frozenset(x for x in res if x[0][4:] != (("site", n.frame.key, n.e),))
                if fn == "Candy::Trail::backtrack": level = 0 if cx.arg(0) == ("int", 0) else min(level, 1)
                if fn == DB + "::createClause":
                    if level: cx.run.report("a clause is added under the assumptions of its check", n)
                    if not proved and not st[1]: cx.run.report("a clause is added although it may not follow from the others", n)
                    if (cx.arg(0), cx.arg(1)) != (b, e): cx.run.report("another clause is added than the one that was checked", n)
                if fn == DB + "::emptyClause":
                    unit = any(k[0] == "eq" and w and ("int", 1) in k[1:] and any(x[0] == "size" for x in k[1:]) or k[0] == "lt" and w and k[1][0] == "size" and k[2] in (2, ("int", 2)) for k, w in cx.facts.items())
                    confl = any(k[0] == "zero" and w and k[1][0] == "call" and k[1][1] == "Candy::Trail::fact" for k, w in cx.facts.items())
                    empty = any(k[0] in ("zero", "eq") and w and has(k, lambda z: z[0] == "size") and (k[0] == "zero" or ("int", 0) in k[1:]) for k, w in cx.facts.items())
                    if not (unit and confl or empty): cx.run.report("the empty clause is declared although no conflict was found", n)
                if fn == "Candy::Trail::fact" and level: cx.run.report("a unit is recorded under the assumptions of a check", n)
            return (st, proved, level, res)
        def ed(n, c, cx, u):
            st, proved, level, res = u
            cur[0] = None
            if c[0] != "case":
                v, pol = cx.g.val(n.frame, c[0], dict(cx.env)), c[1]
                while v[0] == "not": v, pol = v[1], not pol
                if asfun(v, "check_asymm"):
                    if (v, not pol) in res: return STOP
                    res = res | {(v, pol)}
                    cur[0] = (v, pol)
                    if at(v) and pol: proved = True
            for k, w in cx.facts.items():
                if k[0] == "zero" and at(k[1]) and not w: proved = True
            return (m.edge(n, c, cx, st), proved, level, res)
        ck.run(rule, g, tr, (ForEach.INIT, False, 0, frozenset()), "all", ed, subject=f.pretty, fe=[m])


def d_occ(ck, rule="the checker finds every clause with a literal"):
    """a clause that is missing in an occurrence list is skipped in the check of resolvents"""
    def loop(f, g, C, name, need):
        m = ForEach(C, lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and cx.obj()[0] == "at" and cx.obj()[1] == OCC and cx.obj()[2][0] in ("elem", "at", "ivar") and not has(cx.obj()[2], lambda z: z[0] == "neg"))
        return m
    made = lambda v: v[0] == "call" and v[1] == DB + "::createClause"
    src = ("field", ("field", T, DC + "::clause_db"), DB + "::clauses")
    for f in ck.prog.funcs.values():
        q = f.q
        if q.startswith(DC + "::check_clause_add"):
            g = ck.graph(f, (DB + "::*", "Candy::Propagate::*", "Candy::Trail::*", DC + "::check_asymm"))
            m = loop(f, g, made, q, None)
            def tr(n, cx, m=m):
                c, st = cx.ust
                if n.kind == "call" and n.fn() == DB + "::createClause": return (True, ForEach.INIT)
                return (c, m.step(n, cx, st))
            def fin(k, u, fa, cx): return "an added clause may be missing in the occurrence list of one of its literals" if k == "exit" and u[0] and not u[1][1] else None
            ck.run(rule, g, tr, (False, ForEach.INIT), None, lambda n, c, cx, u, m=m: (u[0], m.edge(n, c, cx, u[1])), final=fin, subject=f.pretty, fe=[m])
        elif q == DC + "::cleanup_deleted" or f.kind == "ctor" and q.rsplit("::", 1)[0] == DC and f.params and "problem" in f.params[0]["n"]:
            g = ck.graph(f, (DB + "::init", DB + "::reorganize", "Candy::Propagate::*", "Candy::Trail::*"))
            el = lambda c: c[0] in ("elem", "at") and c[1] == src
            m = loop(f, g, el, q, None)
            o = ForEach(lambda c: c == src, None, None)
            def step(n, cx, u): return u
            outer = ForEach(lambda c: c == src, None, lambda cx: False)
            # every clause of the database is traversed completely
            def tr(n, cx, m=m, outer=outer):
                a, b_, reord = cx.ust
                b2 = m.step(n, cx, b_)
                if n.kind == "call" and n.fn() == DB + "::reorganize": reord = True
                return (a, b2, reord)
            def ed(n, c, cx, u, m=m, outer=outer):
                a, b_, r = u
                b2 = m.edge(n, c, cx, b_)
                if b2[1] and not b_[1] and a[0] is not None: a = ((True,) + a[0][1:], a[1])
                b2 = (b2[0], False) if b2[1] and b2[0] is None else b2
                return (outer.edge(n, c, cx, a), b2, r)
            def fin(k, u, fa, cx): return "a clause may be missing in the occurrence lists" if k == "exit" and not u[0][1] else None
            ck.run(rule, g, tr, (ForEach.INIT, ForEach.INIT, False), None, ed, final=fin, subject=f.pretty)
            if q == DC + "::cleanup_deleted":
                follows(ck, rule, g, lambda n, cx: n.kind == "call" and n.fn() == DB + "::reorganize", lambda n, cx: n.kind == "call" and n.fn() == "Candy::Propagate::reset", "watchers refer to moved clauses", subject=f.q) if False else None


def d_verified(ck, rule="a result is reported as verified only when the check succeeded"):
    for f in ck.prog.funcs.values():
        if not f.file.endswith("Main.cc"): continue
        for n0, e, x in (() if True else ()): pass
    for f in [f for f in ck.prog.funcs.values() if f.q == "main" and f.file.endswith("Main.cc")]:
        g = ck.graph(f, ("Candy::*",))
        def tr(n, cx):
            ev = out_event(n, cx)
            if ev is None or ev[1][0] != "s": return None
            t = ev[1][1]
            if "verified by" in t and "not" not in t:
                fn = "check_proof" if "proof" in t else "checkResult"
                if not any(k[0] == "zero" and not w and has(k[1], lambda z: z[0] == "call" and short(z[1]) == fn) for k, w in cx.facts.items()): cx.run.report("a result is reported as verified although the check may have failed", n)
            return None
        ck.run(rule, g, tr, None, lambda k: k[0] == "zero" and has(k[1], lambda z: z[0] == "call" and short(z[1]) in ("check_proof", "checkResult")), subject="main")


P19 = [d_lines, d_known, d_asymm, d_add, d_occ, d_verified]
