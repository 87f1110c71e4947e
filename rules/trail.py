"""P08: the assignment stack."""
from .lib import *
from .ev import consistent
from .solver import UNITS, lit_value_f, linear1
TR = "Candy::Trail"
F = lambda n: ("field", ("this",), TR + "::" + n)


def rawindex(n):
    """element of the subscript of an assignment's target"""
    x = n.x; f = n.frame.func
    t = x["a"] if x["k"] == "bin" else x.get("obj", x.get("a", -1))
    if t is None or t < 0: return None
    t = f.strip(t); y = f.x[t]
    a = y.get("args") or []
    i = a[0] if y["k"] == "call" and a else y.get("b", y.get("i", -1))
    return f.x[f.strip(i)] if isinstance(i, int) and i >= 0 else None


def t_assign(ck, rule="a literal enters the assignment with the value that makes it true, at the end of the trail, with its reason and level"):
    for name in ("set_value", "decide", "propagate", "fact"):
        for f in ck.fns(TR + "::" + name):
            g = ck.graph(f); p = P(f, 0)
            why = P(f, 1) if len(f.params) > 1 else ("int", 0)
            # state: value set, number of increments, entry position offset, meta set
            def tr(n, cx):
                val, inc, ent, meta = cx.ust
                if n.kind == "write" and n.x["k"] in ("bin", "call", "un"):
                    lh = cx.lhs()
                    if lh == F("trail_size"):
                        k = n.x["k"]
                        if k == "un" and n.x["op"] in ("++", "p++") or k == "bin" and n.x["op"] == "+=" and cx.rhs() == ("int", 1): return (val, inc + 1, ent, meta)
                        if k == "bin" and linear1(cx.rhs(), F("trail_size")) == 1: return (val, inc + 1, ent, meta)
                        cx.run.report("the trail grows by something else than one element", n); return (val, inc + 1, ent, meta)
                    if lh[0] == "at" and lh[1] == F("assigns"):
                        if lh[2] != ("var_of", p): cx.run.report("the value of %s is changed instead of the literal's variable" % vstr(lh[2]), n)
                        elif lit_value_f(cx.facts, p, cx.rhs()) is False: cx.run.report("the stored value %s does not make the literal true" % vstr(cx.rhs()), n)
                        return (True, inc, ent, meta)
                    if lh[0] in ("at", "elem") and lh[1] == F("trail"):
                        if cx.rhs() != p and cx.rhs()[0] in ("neg", "at", "elem", "int", "glob"): cx.run.report("%s is put on the trail instead of the literal" % vstr(cx.rhs()), n)
                        ri = rawindex(n); off = inc
                        if ri is not None and ri["k"] == "un" and ri["op"] == "p++": off = inc - 1
                        d = linear1(lh[2], F("trail_size"))
                        return (val, inc, off + d if d is not None else "?", meta)
                    if lh[0] == "at" and lh[1] == F("vardata") or lh[0] == "field" and lh[1][0] == "at" and lh[1][1] == F("vardata"):
                        at_ = lh if lh[0] == "at" else lh[1]
                        if at_[2] != ("var_of", p): cx.run.report("reason and level of %s are changed instead of the literal's variable" % vstr(at_[2]), n)
                        r = cx.rhs(); what = None
                        if lh[0] == "at" and r[0] == "mk": rs, lv = r[2][0], r[2][1] if len(r[2]) > 1 else None
                        elif lh[0] == "field": rs, lv = (r, None) if fieldof(lh) == "reason" else (None, r)
                        else: return (val, inc, ent, meta | {"reason", "level"})
                        if rs is not None:
                            if rs != why and rs[0] in ("int", "param"): cx.run.report("the recorded reason is %s" % vstr(rs), n)
                            meta = meta | {"reason"}
                        if lv is not None:
                            lvl = lambda w: w[0] == "call" and short(w[1]) == "decisionLevel" or w == ("size", F("trail_lim")) or name == "fact" and w == ("int", 0)
                            for lv in [w for w in either(lv) if not lvl(w)]:
                              if (lv[0] == "int" or lv[0] == "op"): cx.run.report("the recorded level is %s instead of the current decision level" % vstr(lv), n)
                            meta = meta | {"level"}
                        return (val, inc, ent, meta)
                return cx.ust
            def falsified(facts):
                from .search import litval
                return litval(facts, p)
            def fin(kind, ust, facts, cx):
                if kind != "exit": return None
                val, inc, ent, meta = ust
                vs = falsified(facts)
                refused = vs == frozenset([1])
                if refused and name in ("propagate", "fact"):
                    if val or inc: return "a literal that is already false is assigned"
                    return None
                if name == "fact" and not val and not inc:
                    if vs != frozenset([0]): return "a literal that may be unassigned is not entered as a fact"
                    if not {"reason", "level"} <= meta: return "a fact keeps an earlier reason or level"
                    return None
                if not val: return "the literal's value is not set"
                if inc != 1 : return "the literal does not enter the trail exactly once" if ent != "?" else None
                if ent is None: return "the literal is not written to the trail"
                if ent != "?" and ent != 0: return "the literal is written to the wrong position of the trail"
                if name != "set_value" and not {"reason", "level"} <= meta: return "reason and level of the literal are not recorded"
            def fin2(kind, ust, facts, cx): 
                return fin(kind, ust, facts, cx)
            def ret(n, cx):
                if n.kind == "ret" and n.frame is g.rootframe and name in ("propagate", "fact") and n.x.get("a", -1) >= 0:
                    v = cx.val(n.x["a"]); vs = falsified(cx.facts)
                    if v == ("int", 1) and vs == frozenset([1]): cx.run.report("success is returned for a literal that is false", n)
                    if v == ("int", 1) and 1 in vs and not cx.ust[0]: cx.run.report("success is returned although the literal may be false", n)
                    if v == ("int", 0) and vs != frozenset([1]) and not cx.ust[0]: cx.run.report("a literal that may not be false is refused", n)
                    if v == ("int", 0) and cx.ust[0]: cx.run.report("failure is returned although the literal has been assigned", n)
                return tr(n, cx)
            def kept(k): return k[0] == "lbv" or k[0] == "zero" and (mentions(k, "satisfies", "falsifies") or k[1][0] == "sign_of")
            # facts about the value vanish when it is written; remember the verdict before
            def tr3(n, cx):
                s, vs = cx.ust
                v2 = falsified(cx.facts) if not s[0] else vs
                class C2: pass
                r = ret_(n, cx, s)
                return (r, v2 if not s[0] else vs)
            def ret_(n, cx, s):
                old = cx.ust; cx.ust = s
                try: return ret(n, cx) if True else s
                finally: cx.ust = old
            def fin3(kind, ust, facts, cx):
                s, vs = ust
                if s[0] and 1 in vs and name in ("propagate", "fact"): return "a literal that may be false is assigned"
                if s[0] and 0 in vs and name == "fact": return "a fact that may already hold enters the trail a second time"
                return fin(kind, s, facts, cx)
            ck.run(rule, g, tr3, ((False, 0, None, frozenset()), frozenset([0, 1, 2])), kept, final=fin3, subject=f.q)


def t_backtrack(ck, rule="backtracking unassigns every literal above the target level, then cuts trail, levels and queue there"):
    f = ck.fns(TR + "::backtrack")[0]
    g = ck.graph(f); lv = P(f, 0)
    base = ("at", F("trail_lim"), lv)
    seen = [0]; known = [False]
    def loop(cx, n, c):
        """(start, end, kind) of a traversal of the trail"""
        v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
        while v[0] == "not": v = v[1]; pol = not pol
        if v[0] != "op": return None
        op, a, b = v[1], v[2], v[3]
        if op in (">", "<=", ">="): pass
        if a[0] not in ("iterv", "ivar") and b[0] in ("iterv", "ivar"): a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if op == "==": pol = not pol; op = "!="
        if op == ">=": pol = not pol; op = "<"
        if op not in ("!=", "<"): return None
        if a[0] == "iterv" and a[1] == F("trail"): return (a[2], b, pol, a[3])
        if a[0] == "ivar": return (a[2], b, pol, a[1])
        return None
    def tr(n, cx):
        done, cut, lim, q, cur = cx.ust
        if n.kind == "write" and n.x["k"] in ("bin", "call", "un"):
            lh = cx.lhs(); r = cx.rhs()
            if lh[0] == "at" and lh[1] == F("assigns"):
                if lv_undef(r): 
                    seen[0] += 1
                    return (done, cut, lim, q, "hit" if cur is not None else cur)
                cx.run.report("a variable above the target level gets the value %s" % vstr(r), n)
            if lh == F("trail_size"):
                if n.x["k"] == "bin" and n.x["op"] == "=":
                    if r != base and r[0] in ("at", "int", "op", "param"): cx.run.report("the trail is cut at %s" % vstr(r), n)
                    if not done and seen[0] and known[0]: cx.run.report("the trail is cut before its literals have been unassigned", n)
                    if lim and mentions(r, "trail_lim"): cx.run.report("the level boundary is read after it has been dropped", n)
                    cut = True
            if lh == F("qhead"):
                ok = all(x == base or x == ("int", 0) or x == F("trail_size") and cut or x == F("qhead") for x in either(r)) or r[0] == "call" and short(r[1]) == "min"
                if not ok and r[0] in ("field", "at", "op", "int", "param"): cx.run.report("the queue head is set to %s, possibly past the cut" % vstr(r), n)
                if lim and mentions(r, "trail_lim"): cx.run.report("the level boundary is read after it has been dropped", n)
                q = True
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and cx.obj() == F("trail_lim") and short(n.fn()) in ("resize", "erase", "clear", "pop_back"):
            if short(n.fn()) == "resize" and any(x != lv and x[0] in ("op", "int", "param") for x in either(cx.arg(0))): cx.run.report("%s levels remain instead of the target level" % vstr(cx.arg(0)), n)
            lim = True
        return (done, cut, lim, q, cur)
    def edge(n, c, cx, st):
        if c[0] == "case": return st
        done, cut, lim, q, cur = st
        l = loop(cx, n, c)
        if l is not None and (seen[0] or True):
            start, end, more, key = l
            s = start[1] if isinstance(start, tuple) and start[0] == "off" else start
            isstart = s == base
            inside = end == ("iter", ("this",), "end") or end == F("trail_size") or end == ("iter", F("trail"), ("off", F("trail_size")))
            if isstart and inside: known[0] = True
            if cur == "pending": cx.run.report("a literal above the target level may keep its value", n)
            if not isstart and (s == 0 or s == ("int", 0)): pass
            elif not isstart and isinstance(s, tuple) and mentions(s, "trail_lim"): cx.run.report("literals are unassigned from position %s on only" % vstr(s), n)
            if more: return (done, cut, lim, q, "pending")
            return (True, cut, lim, q, None)
        return st
    def lv_undef(r): return r == ("lb", 2) or r[0] == "glob" and short(r[1]) == "l_Undef"
    def higher(facts):
        """does the path know that there is nothing to undo?"""
        for k, v in facts.items():
            if k[0] == "lt" and k[1] == lv and (mentions(k[2], "decisionLevel") or isinstance(k[2], tuple) and has(k[2], lambda w: w == ("size", F("trail_lim")))): return v is False
        return None
    def fin(kind, ust, facts, cx):
        if kind != "exit": return None
        done, cut, lim, q, cur = ust
        if not (done or cut or lim or q): return None if higher(facts) is not False and higher(facts) is None and False else (None if nothing(facts) else "nothing is undone although there may be higher levels")
        miss = [w for w, b in (("the trail is not cut", cut), ("the level boundaries are kept", lim), ("the queue head may stay behind the cut", q)) if not b]
        if miss: return miss[0]
    def nothing(facts):
        for k, v in facts.items():
            if k[0] == "lt" and k[1] == lv and not is_int(k[2]) and v is False: return True
            if k[0] == "lt" and k[2] == lv and v is True: return True
            if k[0] == "eq" and lv in k[1:] and v is True and (mentions(k, "decisionLevel") or mentions(k, "trail_lim")): return True
        return False
    for _ in (0, 1): Run(g, tr, (False, False, False, False, None), lambda k: k[0] in ("lt", "eq"), edge)
    ck.run(rule, g, tr, (False, False, False, False, None), lambda k: k[0] in ("lt", "eq"), edge, final=fin, subject=f.q)
    if not seen[0]: ck.note(rule, "unassignment not recognised")


def t_reset(ck, rule="a reset forgets all values, levels and queued literals"):
    f = ck.fns(TR + "::reset")[0]
    g = ck.graph(f)
    need = {"assigns": "values", "vardata": "reasons", "qhead": "queue head", "trail_size": "trail", "trail_lim": "levels"}
    def tr(n, cx):
        got = cx.ust
        if n.kind == "call" and short(n.fn()) in ("fill", "fill_n", "for_each") and cx.nargs() >= 3:
            a, b = cx.arg(0), cx.arg(1)
            if a[0] == "iter" and b[0] == "iter" and a[1] == b[1]:
                w = fieldof(a[1])
                if a[2] == 0 and b[2] == "end":
                    if w == "assigns" and cx.arg(2) not in (("lb", 2),) and cx.arg(2)[0] == "lb": cx.run.report("variables start out %s" % vstr(cx.arg(2)), n)
                    got = got | {w}
                elif w in need: cx.run.report("only a part of the %s is reset" % need[w], n); got = got | {w}
        elif n.kind == "call" and n.x.get("obj", -1) >= 0 and short(n.fn()) in ("clear", "assign"): got = got | {fieldof(cx.obj())}
        elif n.kind == "call" and n.x.get("obj", -1) >= 0 and short(n.fn()) == "resize" and cx.arg(0) == ("int", 0): got = got | {fieldof(cx.obj())}
        elif n.kind == "write" and cx.lhs()[0] == "field" and cx.lhs()[1] == ("this",):
            if cx.rhs() == ("int", 0): got = got | {fieldof(cx.lhs())}
            elif fieldof(cx.lhs()) in ("qhead", "trail_size"): cx.run.report("%s is reset to %s" % (need[fieldof(cx.lhs())], vstr(cx.rhs())), n); got = got | {fieldof(cx.lhs())}
        elif n.kind == "write" and cx.lhs()[0] == "elem": got = got | {fieldof(cx.lhs()[1])}
        elif n.kind == "write" and cx.lhs()[0] == "field" and cx.lhs()[1][0] == "elem": got = got | {fieldof(cx.lhs()[1][1])}
        return got
    def edge(n, c, cx, st):
        """element-wise loops over a container count as a reset of it"""
        if c[0] == "case": return st
        lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
        if lc is not None and not lc[1] and lc[2] in ("fwd", "rev") and fieldof(lc[0]) in hit: return st | {fieldof(lc[0])}
        return st
    hit = set()
    for n in g.nodes:
        pass
    def fin(kind, ust, facts, cx):
        if kind != "exit": return None
        miss = [need[k] for k in need if k not in ust]
        if miss: return "the %s survive a reset" % " and ".join(miss)
    def pre(n, cx):
        if n.kind == "write" and cx.lhs()[0] == "elem": hit.add(fieldof(cx.lhs()[1]))
        if n.kind == "write" and cx.lhs()[0] == "field" and cx.lhs()[1][0] == "elem": hit.add(fieldof(cx.lhs()[1][1]))
        return None
    Run(g, pre, None, lambda k: False)
    ck.run(rule, g, tr, frozenset(), None, edge, final=fin, subject=f.q)


def ret_is(ck, rule, q, pred, msg, which=None):
    """every value returned by q satisfies pred (None: unrecognised)"""
    for f in ck.fns(q):
        if which is not None and not which(f): continue
        g = ck.graph(f)
        def tr(n, cx):
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                v = cx.val(n.x["a"])
                r = pred(v, f, cx)
                if r is False: cx.run.report(msg % vstr(v) if "%s" in msg else msg, n)
                if r is None: ck.note(rule, "form not recognised in %s: %s" % (f.q, vstr(v)))
            return None
        ck.run(rule, g, tr, None, "all", subject=f.q + "(%s)" % ", ".join(p["t"] for p in f.params))


def t_access(ck, rule="values, reasons and levels are read back as they were stored"):
    def value(v, f, cx):
        p = P(f, 0)
        if "Lit" in f.params[0]["t"]:
            if v == ("lbxor", ("at", F("assigns"), ("var_of", p)), ("sign_of", p)): return True
            if v[0] in ("at", "field"): return False
            if v[0] == "lbxor": return False
            return None
        return v == ("at", F("assigns"), p) if v[0] in ("at", "lbxor", "lb") else None
    ret_is(ck, rule, TR + "::value", value, "the value is computed as %s")
    ret_is(ck, rule, TR + "::reason", lambda v, f, cx: v == ("field", ("at", F("vardata"), P(f, 0)), "Candy::VarData::reason") if v[0] in ("field", "at", "int") else None, "the reason is read from %s")
    ret_is(ck, rule, TR + "::level", lambda v, f, cx: v == ("field", ("at", F("vardata"), P(f, 0)), "Candy::VarData::level") if v[0] in ("field", "at", "int") else None, "the level is read from %s")
    def lvl(v, f, cx): 
        if v == ("size", F("trail_lim")): return True
        return False if v[0] in ("op", "int") else None
    ret_is(ck, rule, TR + "::decisionLevel", lvl, "the decision level is computed as %s")
    def truth(t):
        def pred(v, f, cx):
            p = P(f, 0)
            if "Lit" not in f.params[0]["t"] or len(f.params) > 1: 
                if v[0] == "algo" and v[1] in ("any_of", "all_of", "none_of"):
                    want = "any_of" if t == 0 else "all_of"
                    if v[1] != want: return False if v[1] in ("any_of", "all_of") else None
                    b = v[3]
                    if b[0] == "op" and b[1] in ("==", "!=") and any(x[0] == "lb" for x in b[2:]): return ("lb", t) in b[2:] and b[1] == "=="
                    return None
                return None
            if v[0] == "op" and v[1] in ("==", "!=") and ("lb", t) in v[2:] and v[1] == "==": 
                o = v[2] if v[3] == ("lb", t) else v[3]
                if o[0] == "call" and short(o[1]) == "value" and o[3] == (p,): return True
                if o[0] == "lbxor" : return o == ("lbxor", ("at", F("assigns"), ("var_of", p)), ("sign_of", p))
                return None
            if v[0] == "op" and v[1] in ("==", "!=") and any(x in v[2:] for x in (("lb", 0), ("lb", 1), ("lb", 2))): return False
            return None
        return pred
    ret_is(ck, rule, TR + "::satisfies", truth(0), "a literal counts as true when %s")
    ret_is(ck, rule, TR + "::falsifies", truth(1), "a literal counts as false when %s")


def t_levels(ck, rule="decision levels are opened at the current end of the trail, one before each decision, assumptions first and in order"):
    f = ck.fns(TR + "::newDecisionLevel")[0]
    g = ck.graph(f)
    def tr(n, cx):
        if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and cx.obj() == F("trail_lim"):
            if cx.arg(0) != F("trail_size") and cx.arg(0)[0] in ("op", "field", "int", "size"): cx.run.report("a level starts at %s instead of the end of the trail" % vstr(cx.arg(0)), n)
            return cx.ust + 1
        return cx.ust
    ck.run(rule, g, tr, 0, None, final=lambda kind, u, fa, cx: "%d levels are opened instead of one" % u if kind == "exit" and u != 1 else None, subject=f.q)
    lvl = lambda v: v == ("size", F("trail_lim")) or v[0] == "call" and short(v[1]) == "decisionLevel"
    A = F("assumptions")
    def more(v, f, cx):
        for x, w in ((v[2], v[3]), (v[3], v[2])) if v[0] == "op" and len(v) == 4 else ():
            if x[0] == "op" and x[1] in ("+", "-") and lvl(x[2]) and is_int(x[3]) and w == ("size", A): return False if v[1] in ("<", ">") else None
        if v[0] == "op" and v[1] == "<" and lvl(v[2]): return True if v[3] == ("size", A) else False
        if v[0] == "op" and v[1] == ">" and lvl(v[3]): return True if v[2] == ("size", A) else False
        if v[0] == "op" and v[1] in ("<=", ">=", "<", ">") and any(lvl(x) for x in v[2:]): return False
        if v[0] == "op" and v[1] == "!=" and any(lvl(x) for x in v[2:]): return False
        return None
    ret_is(ck, rule, TR + "::hasAssumptionsNotSet", more, "open assumptions are recognised by %s")
    def nxt(v, f, cx):
        if v[0] == "at" and v[1] == A: return lvl(v[2]) or (False if v[2][0] in ("op", "int") else None)
        return False if v[0] in ("neg", "back") else None
    ret_is(ck, rule, TR + "::nextAssumption", nxt, "the next assumption is %s")
    # recording of assumptions
    f = ck.fns(TR + "::setAssumptions")[0]
    g = ck.graph(f); src = P(f, 0)
    fe = ForEach(lambda c: c == src, lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and cx.obj() == A,
                 bulk=lambda n, cx: n.kind == "write" and cx.lhs() == A and cx.rhs() == src or n.kind == "call" and short(n.fn()) in ("assign", "insert") and n.x.get("obj", -1) >= 0 and cx.obj() == A)
    def tr(n, cx):
        m, cl = cx.ust
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and cx.obj() == A:
            if short(n.fn()) in ("clear", "assign"): cl = True
            if short(n.fn()) in ("push_back", "emplace_back"):
                if not cl: cx.run.report("new assumptions are added to those of an earlier call", n)
                v = cx.arg(0)
                if v[0] == "neg" : cx.run.report("the negation of an assumption is recorded", n)
        if n.kind == "write" and cx.lhs() == A: cl = True
        return (fe.step(n, cx, m), cl)
    def edge(n, c, cx, st):
        if c[0] != "case":
            lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
            if lc is not None and lc[0] == src and lc[2] not in ("fwd", "rev"): cx.run.report("not all assumptions are recorded", n)
        return (fe.edge(n, c, cx, st[0]), st[1])
    def fin(kind, ust, facts, cx):
        if kind == "exit" and not ust[1]: return "assumptions of an earlier call are kept"
        if kind == "exit" and not ust[0][1]: return "an assumption may be lost"
    ck.run(rule, g, tr, (ForEach.INIT, False), None, edge, final=fin, subject=f.q, fe=[fe])
    # the search loop
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, UNITS)
        def tr(n, cx):
            if n.kind != "call": return cx.ust
            if on("trail", "newDecisionLevel")(n, cx): return "open"
            if on("trail", "decide")(n, cx):
                if cx.ust != "open": cx.run.report("a decision is made without a decision level of its own", n)
                return "used"
            if on("trail", "propagate", "fact", "set_value")(n, cx): return "used"
            if on("trail", "backtrack")(n, cx): return "used"
            if on("propagator", "propagate")(n, cx) and cx.ust == "open": return "used"
            return cx.ust
        ck.run(rule, g, tr, "used", None, subject=f.pretty)


def t_own(ck, rule="nothing but the trail itself (and the propagation queue's head) changes the assignment"):
    ok = set(TR + "::" + m for m in ("trail", "assigns", "vardata", "trail_size", "trail_lim", "assumptions"))
    seen = set()
    for f, e, x, k in writes(ck.prog, *(ok | {TR + "::qhead"})):
        r = ck.prog.lvfield(f, x.get("a", x.get("obj", -1))) if k != "init" else None
        q = f.q
        owner = q.startswith(TR + "::")
        if owner: ck.ok(rule, q + " " + k); continue
        if q.startswith(("Candy::Propagate::", "Candy::StaticPropagate::")) and r is not None and r[1] == TR + "::qhead": ck.ok(rule, q + " qhead"); continue
        # helpers of the engines that advance the queue
        if r is not None and r[1] == TR + "::qhead": ck.note(rule, "queue head moved in " + q); continue
        ck.bad(rule, q, f.where() if not x.get("l") else "%s:%d" % (f.file.split("/repo/")[-1], x["l"]), "the assignment is changed behind the trail's back in " + q)
    # direct value assignment without reason or level is reserved for the completion of models
    for f, e, x in sites(ck.prog, TR + "::set_value"):
        okc = f.q.startswith(TR + "::") or f.q == "Candy::VariableElimination::propagate_eliminated_variables" or f.q.startswith("Candy::VariableElimination::")
        if okc: ck.ok(rule, "set_value in " + f.q)
        else: ck.note(rule, "set_value used in " + f.q)


def t_grow(ck, rule="the trail has room for every variable, and new variables start out unassigned"):
    f = ck.fns(TR + "::init")[0]
    g = ck.graph(f); nv = P(f, 0)
    need = ("assigns", "vardata", "trail", "decision")
    def tr(n, cx):
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and short(n.fn()) in ("resize",) and fieldof(cx.obj()) in need:
            w = fieldof(cx.obj()); a = cx.arg(0)
            if a != nv and linear1(a, nv) is not None and linear1(a, nv) < 0: cx.run.report("%s is too small for the last variable" % w, n)
            if w == "assigns" and (cx.nargs() < 2 or cx.arg(1)[0] == "lb" and cx.arg(1) != ("lb", 2)): cx.run.report("new variables start out assigned", n)
            return cx.ust | {w}
        return cx.ust
    def fin(kind, ust, facts, cx):
        if kind != "exit" or not ust and any(k[0] == "lt" and mentions(k, "variables") for k in facts): return None
        miss = [w for w in need if w not in ust]
        if miss: return "%s does not grow with the number of variables" % " and ".join(miss)
    ck.run(rule, g, tr, frozenset(), lambda k: k[0] == "lt" and mentions(k, "variables"), final=fin, subject=f.q)


def t_room(ck, rule="the trail has room for every variable, and new variables start out unassigned"):
    """an assumption about a new variable makes room for it"""
    for f in ck.fns(TR + "::setAssumptions"):
        g = ck.graph(f, (TR + "::init",))
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            if calls(TR + "::init")(n):
                d = [w for w in walk(cx.arg(0)) if isinstance(w, tuple) and w and w[0] == "var_of"]
                if d and linear1(cx.arg(0), d[0]) is not None and linear1(cx.arg(0), d[0]) < 1: cx.run.report("the trail has no room for the variable of an assumption", n)
                return True
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and fieldof(cx.obj()) == "assumptions":
                l = cx.arg(0); room = cx.ust
                var = ("field", ("this",), TR + "::variables")
                env = lambda w: 5 if w == ("var_of", l) or w == var or fieldof(w) == "variables" else None
                rel = {k: w for k, w in cx.facts.items() if mentions(k, "variables", "nVars") and has(k, lambda y: y == ("var_of", l))}
                if not room and rel and consistent(rel, env) is True: cx.run.report("an assumption about the first variable beyond the trail makes no room for it", n)
                return False
            return cx.ust
        ck.run(rule, g, tr, False, lambda k: k[0] in ("lt", "eq") and mentions(k, "variables", "nVars"), subject=f.q)


P08 = [t_room, t_grow, t_assign, t_backtrack, t_reset, t_access, t_levels, t_own]
