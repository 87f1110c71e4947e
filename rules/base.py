"""P28: literals and truth values.  P31: priority queue and stamps."""
from .lib import *
from .ev import *
T = ("this",)
HEAP = "Glucose::Heap"


def enc(c): return 2 * c[0] + c[1] if isinstance(c, LitC) else c


class Sim:
    """folds a loop-free function for one valuation of its inputs: (returned constant, constants left in fields)"""
    def __init__(self, ck, f, env, prims=()):
        self.res = []; self.unknown = False
        g = ck.graph(f, prims); self.g = g
        def look(u):
            d = dict(u)
            def E(v):
                if v in d: return d[v]
                if v[0] == "op" and v[1] in ("==", "!=", "&&", "||", "^") and any(isinstance(x, tuple) and x in (T,) for x in v[2:4]): pass
                if v[0] == "un" and v[1] in ("++", "p++", "--", "p--"):
                    a = ceval(v[2], E); return None if a is None else a + (1 if "+" in v[1] else -1)
                if v[0] == "litxor":
                    a, b = ceval(v[1], E), ceval(v[2], E)
                    return None if not isinstance(a, LitC) or b is None else LitC((a[0], a[1] ^ int(bool(b))))
                if v[0] == "lbool" and v[1][0] == "narrow" and v[1][1] == "unsigned char":
                    a = ceval(v[1], E); return None if a is None else Lb((a,))
                if v[0] == "mk" and short(v[1]) == "lbool" and len(v[2]) == 1:
                    a = ceval(v[2][0], E); return None if a is None else a if isinstance(a, Lb) else Lb((a,))
                if v[0] == "field" and fieldof(v) == "x" and v[1] not in d:
                    a = ceval(v[1], E)
                    if isinstance(a, LitC): return enc(a)
                if v[0] == "field" and fieldof(v) == "id":
                    a = ceval(v[1], E)
                    if isinstance(a, int): return a
                if v[0] == "field" and fieldof(v) == "value" and "lbool" in v[2]:
                    a = ceval(v[1], E)
                    if isinstance(a, Lb): return a[0]
                return env.get(v)
            return E
        def tr(n, cx):
            u = cx.ust
            if n.kind == "write":
                l = cx.lhs(); c = ceval(cx.rhs(), look(u))
                if l[0] == "local": return u
                return frozenset([(k, v) for k, v in u if k != l] + [(l, c)])
            if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0:
                ok = consistent(cx.facts, look(u))
                if ok is not False:
                    v = cx.val(n.x["a"]); c = ceval(v, look(u))
                    self.res.append((v, c, dict(u), n, ok))
            if n.kind == "exit":
                ok = consistent(cx.facts, look(u))
                if ok is not False and not any(z.kind == "ret" for z in g.nodes if z.frame is g.rootframe): self.res.append((None, None, dict(u), n, ok))
            return u
        Run(g, tr, frozenset(), track=lambda k: True)


def judge_case(ck, rule, f, name, env, want, field=None, prims=()):
    """the function gives the constant want (a field of the object for constructors)"""
    s = Sim(ck, f, env, prims); got = []; und = False
    for v, c, u, n, ok in s.res:
        if field is None:
            if v is not None and c is None and v[0] in ("obj", "local"):
                c = next((z for k, z in u.items() if k[0] == "field" and k[1] == v), None)
        else: c = next((z for k, z in u.items() if k[0] == "field" and k[1] == (T if field is not True else v) and (fieldof(k) == field or not fieldof(k))), None)
        if c is None: und = True
        else: got.append((c, n, ok))
    same = lambda c: (want(c) if callable(want) else enc(c) == want if not isinstance(want, (Lb, LitC)) and not isinstance(c, Lb) else
                      c == want if isinstance(c, type(want)) else enc(c) == enc(want) if isinstance(want, LitC) else (Lb((c,)) if isinstance(c, int) else c) == want)
    bad = [(c, n) for c, n, ok in got if not same(c) and ok]
    if bad: ck.bad(rule, f.pretty + " " + name, f.where(), "%s: %s gives %s" % (f.q, name, show(bad[0][0]))); return
    if not got or und or any(not same(c) for c, n, ok in got): ck.note(rule, "%s: %s could not be evaluated" % (f.q, name)); return
    ck.ok(rule, f.pretty + " " + name)


VARS = (0, 1, 2, 5, 1 << 20, (1 << 30) - 2); LITS = [LitC((v, s)) for v in VARS for s in (0, 1)]
lx = lambda o: ("field", o, "Candy::Lit::x"); vid = lambda o: ("field", o, "Candy::Var::id"); lval = lambda o: ("field", o, "Candy::lbool::value")


def lenv(o, c): return {o: c, lx(o): enc(c)}
def venv(o, c): return {o: c, vid(o): c}
def benv(o, c): return {o: c, lval(o): c[0]}


def l_lits(ck, rule="a literal is a variable with a sign: taking it apart, negating and comparing agree"):
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::Lit::"): continue
        s = short(f.q); np = len(f.params); pt = [p["t"] for p in f.params]
        if f.kind == "ctor":
            if np == 0: judge_case(ck, rule, f, "()", {}, -2, "x")
            elif np == 1 and "Var" in pt[0]:
                for v in VARS: judge_case(ck, rule, f, "(%d)" % v, venv(P(f, 0), v), 2 * v, "x")
            elif np == 2:
                for c in LITS: judge_case(ck, rule, f, "(%d, %d)" % c, {**venv(P(f, 0), c[0]), P(f, 1): c[1]}, enc(c), "x")
            continue
        for c in LITS + [LitC((-1, 0))]:
            e = lenv(T, c); nm = "of " + show(c)
            if s == "sign": judge_case(ck, rule, f, nm, e, c[1])
            elif s == "var": judge_case(ck, rule, f, nm, e, c[0])
            elif s == "operator~": judge_case(ck, rule, f, nm, e, LitC((c[0], 1 - c[1])))
            elif s == "operator int": judge_case(ck, rule, f, nm, e, enc(c))
            elif s == "operator^" and pt == ["bool"]:
                for b in (0, 1): judge_case(ck, rule, f, nm + " by %d" % b, {**e, P(f, 0): b}, LitC((c[0], c[1] ^ b)))
            elif s in ("operator==", "operator!=", "operator<") and "Lit" in pt[0]:
                for d in LITS:
                    w = {"operator==": c == d, "operator!=": c != d, "operator<": enc(c) < enc(d)}[s]
                    judge_case(ck, rule, f, nm + " and " + show(d), {**e, **lenv(P(f, 0), d)}, int(w))
    for f in ck.fns('Candy::operator""_L'):
        for v in (0, 1, 7): judge_case(ck, rule, f, "%d_L" % (v + 1), {P(f, 0): v + 1}, LitC((v, 0)))
    for f in ck.fns('Candy::operator""_V'):
        for v in (0, 1, 7): judge_case(ck, rule, f, "%d_V" % (v + 1), {P(f, 0): v + 1}, v)
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::Var::"): continue
        s = short(f.q); np = len(f.params)
        if f.kind == "ctor":
            if np == 0: judge_case(ck, rule, f, "()", {}, -1, "id")
            elif np == 1 and f.params[0]["t"] == "int":
                for v in VARS: judge_case(ck, rule, f, "(%d)" % v, {P(f, 0): v}, v, "id")
            continue
        for v in VARS:
            e = venv(T, v)
            if s == "operator int": judge_case(ck, rule, f, "of %d" % v, e, v)
            elif s == "operator++":
                judge_case(ck, rule, f, "of %d" % v, {vid(T): v}, v + 1, "id")
            elif s == "operator<":
                for w in VARS: judge_case(ck, rule, f, "%d < %d" % (v, w), {**e, **venv(P(f, 0), w)}, int(v < w))


def l_truth(ck, rule="truth values follow three-valued logic"):
    U = lambda c: (Lb((2,)) if isinstance(c, Lb) and c[0] in (2, 3) else c)
    def kleene(op, a, b):
        x, y = {0: 1, 1: 0, 2: 0.5}[a[0]], {0: 1, 1: 0, 2: 0.5}[b[0]]
        r = min(x, y) if op == "&&" else max(x, y)
        return {1: TRUE, 0: FALSE, 0.5: UNDEF}[r]
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::lbool::"): continue
        s = short(f.q); pt = [p["t"] for p in f.params]
        if f.kind == "ctor":
            if pt == ["bool"]:
                for b in (0, 1): judge_case(ck, rule, f, "(%s)" % ("true" if b else "false"), {P(f, 0): b}, 1 - b, "value")
            elif pt == ["unsigned char"]:
                for b in (0, 1, 2): judge_case(ck, rule, f, "(%d)" % b, {P(f, 0): b}, b, "value")
            continue
        for a in LB:
            if s == "operator^" and pt == ["bool"]:
                for b in (0, 1):
                    w = a if a == UNDEF or not b else (FALSE if a == TRUE else TRUE)
                    judge_case(ck, rule, f, "%s by %d" % (show(a), b), {**benv(T, a), P(f, 0): b}, lambda c, w=w: U(c if isinstance(c, Lb) else Lb((c,))) == w)
            for b in LB:
                e = {**benv(T, a), **(benv(P(f, 0), b) if pt else {})}; nm = "%s and %s" % (show(a), show(b))
                if s == "operator==": judge_case(ck, rule, f, nm, e, int(a == b))
                elif s == "operator!=": judge_case(ck, rule, f, nm, e, int(a != b))
                elif s in ("operator&&", "operator||"):
                    w = kleene(s[-2:], a, b)
                    judge_case(ck, rule, f, nm, e, lambda c, w=w: U(c if isinstance(c, Lb) else Lb((c,))) == w)


def l_print(ck, rule="a literal prints as its number with the sign, a truth value as 1, 0 or X, a clause as all its literals"):
    for f in ck.fns("Candy::operator<<"):
        if len(f.params) != 2: continue
        t = f.params[1]["t"].replace("const ", "").replace(" &", "")
        kind = {"Candy::Var": "var", "Candy::Lit": "lit", "Candy::lbool": "lb", "std::vector<Candy::Lit>": "clause", "Candy::Clause": "clause"}.get(t)
        if kind is None: continue
        p = P(f, 1)
        def fmt(v, E):
            if v[0] == "str": return v[1]
            c = ceval(v, E)
            return None if c is None else c
        if kind in ("var", "lit", "lb"):
            cases = [(LitC((v, s)), lenv(p, LitC((v, s))), ("-" if s else "") + str(v + 1)) for v in (0, 6) for s in (0, 1)] if kind == "lit" else \
                    [(v, venv(p, v), str(v + 1)) for v in (0, 1, 9)] if kind == "var" else [(a, benv(p, a), "10X"[a[0]]) for a in LB]
            for c, env, want in cases:
                g = ck.graph(f, ())
                outs = []
                def E(v):
                    if v[0] == "litxor": return None
                    return env.get(v)
                def tr(n, cx):
                    if n.kind == "call" and short(n.fn()) == "operator<<" and n.inl is not True:
                        a = cx.arg(cx.nargs() - 1); x = None
                        if a[0] == "str": x = a[1].strip('"')
                        else:
                            x = ceval(a, E)
                            if isinstance(x, Lb): x = "10X"[x[0]]
                            elif isinstance(x, LitC): x = ("-" if x[1] else "") + str(x[0] + 1)
                            elif isinstance(x, int) and has(a, lambda z: z[0] == "char"): x = chr(x)
                            elif isinstance(x, int) and kind == "lb": x = chr(x) if x > 9 else str(x)
                            elif isinstance(x, int) and n.inl is None and a[0] == "var_of": x = str(x + 1)
                        if x is None: return cx.ust + ("?",)
                        return cx.ust + (str(x),)
                    if n.kind == "exit" and consistent(cx.facts, E) is not False: outs.append("".join(cx.ust))
                    return cx.ust
                Run(g, tr, (), track=lambda k: True)
                outs = set(outs)
                if not outs or any("?" in o for o in outs): ck.note(rule, "%s: the text printed for %s is unknown" % (f.q, show(c))); continue
                ck.judge(rule, "%s %s" % (f.pretty, show(c)), outs == {want}, f.where(), "%s is printed as %s" % (show(c) if kind != "var" else "variable %d" % c, " or ".join(sorted(outs))))
        else:
            g = ck.graph(f, ("Candy::operator<<",))
            m = ForEach(lambda c: c == p or has(c, lambda z: z == p), lambda n, cx: n.kind == "call" and short(n.fn()) == "operator<<" and cx.nargs() and cx.arg(cx.nargs() - 1)[0] == "elem" or n.kind == "call" and short(n.fn()) == "operator<<" and has(cx.arg(cx.nargs() - 1), lambda z: z[0] == "iterv"))
            def fin(kind_, u, facts, cx):
                if kind_ == "exit" and not u[1]: return "a literal of the clause may not be printed"
            ck.run(rule, g, m.step_t if hasattr(m, "step_t") else (lambda n, cx: m.step(n, cx, cx.ust)), m.INIT, None, lambda n, c, cx, u: m.edge(n, c, cx, u), final=fin, subject=f.pretty, fe=[m])


P28 = [l_lits, l_truth, l_print]

HP = ("Candy::VSIDS::VarOrderLt::*", "Candy::LRB::VarOrderLt::*", "Candy::VSIDSC::VarOrderLt::*")
hp = ("field", T, HEAP + "::heap"); ix = ("field", T, HEAP + "::indices")


def isheap(v): return fieldof(v) == "heap"
def isidx(v): return fieldof(v) == "indices"


def at0(v): return v[0] == "at" and isheap(v[1]) and v[2] == ("int", 0) or v[0] in ("front",) and isheap(v[1]) or v[0] == "call" and short(v[1]) == "front" and isheap(v[2])


def isback(v): return v[0] == "back" and isheap(v[1]) or v[0] == "call" and short(v[1]) == "back" and isheap(v[2]) or v[0] == "at" and isheap(v[1]) and v[2] == ("op", "-", ("size", v[1]), ("int", 1))


def q_index(ck, rule="every queue position has one parent, and the children of a position point back to it"):
    fs = {k: ck.fns(HEAP + "::" + k)[:1] for k in ("left", "right", "parent")}
    if not all(fs.values()): ck.note(rule, "the queue is not organised by left, right and parent"); return
    def val(k, i):
        f = fs[k][0]; r = Sim(ck, f, {P(f, 0): i}).res
        return r[0][1] if len(r) == 1 and isinstance(r[0][1], int) else None
    kids = set()
    for i in range(40):
        l, r = val("left", i), val("right", i)
        if l is None or r is None: ck.note(rule, "children of position %d not evaluated" % i); return
        kids |= {l, r}
        for k, c in (("left", l), ("right", r)):
            p = val("parent", c)
            if p is None: ck.note(rule, "parent of position %d not evaluated" % c); return
            ck.judge(rule, "%s(%d)" % (k, i), p == i and c > i and l != r, fs[k][0].where(), "the %s child of position %d is %d, whose parent is %d" % (k, i, c, p))
    ck.judge(rule, "children of 0..39", set(range(1, 41)) <= kids, fs["left"][0].where(), "some positions are no children of any position")


def q_pair(ck, rule="the index of an element follows its position"):
    for f in ck.prog.funcs.values():
        if not f.q.startswith(HEAP + "::") or f.kind in ("ctor", "dtor"): continue
        g = ck.graph(f, HP)
        if not any(n.kind == "write" and g.val(n.frame, n.x["a"] if n.x["k"] == "bin" else n.x.get("a", n.e))[:1] == ("at",) and isheap(g.val(n.frame, n.x["a"])[1]) or n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") for n in g.nodes if n.x is not None and "a" in n.x or n.kind == "call"): continue
        def tr(n, cx):
            pend, pre, clr = cx.ust
            if n.kind == "write":
                l = cx.lhs()
                if l[0] == "at" and isheap(l[1]):
                    p, v = l[2], cx.rhs()
                    if (v, p) in pre: return (pend, pre - {(v, p)}, clr)
                    return (frozenset(x for x in pend if x[0] != p) | {(p, v)}, pre, clr)
                if l[0] == "at" and isidx(l[1]):
                    k, p = l[2], cx.rhs()
                    if p[0] == "int" and p[1] < 0: return cx.ust
                    hit = [x for x in pend if x[0] == p and (x[1] == k or k == ("at", ("field", l[1][1], HEAP + "::heap"), p)) or x[0] == "end" and x[1] == k and p[0] == "op" and p[1] == "-" and p[2][0] == "size" and p[3] == ("int", 1)]
                    if hit: return (pend - set(hit), pre, clr)
                    bad = [x for x in pend if x[0] != "end" and (x[1] == k or k == ("at", ("field", l[1][1], HEAP + "::heap"), x[0])) and x[0] != p]
                    if bad: cx.run.report("the element at position %s gets the index %s" % (vstr(bad[0][0]), vstr(p)), n)
                    return (pend, frozenset([x for x in pre if x[0] != k]) | {(k, p)}, clr)
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and isheap(cx.obj()):
                v = cx.arg(0)
                ok = [x for x in pre if x[0] == v and (x[1][0] == "size" and isheap(x[1][1]) or x[1][0] == "ivar" and x[1][2] == ("int", 0) and clr)]
                if ok: return (pend, pre - set(ok), clr)
                wrong = [x for x in pre if x[0] == v]
                if wrong: cx.run.report("the element added at the end gets the index %s" % vstr(wrong[0][1]), n)
                return (pend | {("end", v)}, pre, clr)
            if n.kind == "call" and short(n.fn()) == "clear" and isheap(cx.obj()): return (pend, pre, True)
            return cx.ust
        def fin(kind, u, facts, cx):
            if kind == "exit" and u[0]: return "the element %s moves without its index" % vstr(sorted(u[0], key=str)[0][1])
        ck.run(rule, g, tr, (frozenset(), frozenset(), False), lambda k: k[0] in ("lt", "zero", "eq"), final=fin, subject=f.pretty)


def q_remove(ck, rule="taking the first element removes exactly it and restores the order"):
    for f in ck.fns(HEAP + "::removeMin"):
        g = ck.graph(f, HP + (HEAP + "::percolateDown", HEAP + "::percolateUp"))
        def tr(n, cx):
            saved, last, wrote, popped, minus, sift = cx.ust
            F = n.frame.func
            def issaved(e):
                d = F.localref(e)
                return d is not None and d in saved
            if n.frame is g.rootframe:
                if n.kind == "decl" and not wrote:
                    for v in (n.x.get("vars") or []):
                        if v.get("init", -1) >= 0 and not v.get("ref") and at0(cx.val(v["init"])): saved = saved | {v["d"]}
                        elif v.get("init", -1) >= 0 and not v.get("ref") and isback(cx.val(v["init"])): last = last | {v["d"]}
                if n.kind == "ret" and n.x.get("a", -1) >= 0:
                    e = n.x["a"]
                    d = F.localref(e)
                    if not issaved(e) and (at0(cx.val(e)) and wrote or d in last or isback(cx.val(e))): cx.run.report("the element returned is not the one that was first", n)
                    if not popped: cx.run.report("the removed element stays in the queue", n)
                    if not minus: cx.run.report("the removed element still has an index", n)
            if n.kind == "write":
                l = cx.lhs()
                if at0(l): wrote = True
                if l[0] == "at" and isidx(l[1]):
                    r = cx.rhs(); x = n.x
                    e = F.strip(x["a"]); tgt = F.x[e]
                    key = tgt["args"][0] if tgt["k"] == "call" and tgt.get("args") else tgt.get("b", tgt.get("i", -1))
                    if r == ("int", -1):
                        if isinstance(key, int) and key >= 0 and n.frame is g.rootframe and not issaved(key) and at0(l[2]) and wrote: cx.run.report("the index of the wrong element is taken away", n)
                        else: minus = True
                    elif r == ("int", 0) and minus and not popped and not any(k[0] == "lt" and k[1][0] == "size" and isheap(k[1][1]) and not w and isinstance(k[2], int) and k[2] >= (1 if popped else 2) for k, w in cx.facts.items()) and l[2] != ("at",): minus = False
            if n.kind == "call" and isheap(cx.obj() or ()):
                if short(n.fn()) == "pop_back":
                    if popped: cx.run.report("two elements are removed", n)
                    if not wrote and not last and not any(k[0] == "lt" and k[1][0] == "size" and w for k, w in cx.facts.items()): cx.run.report("the last element is removed before it has taken the free position", n)
                    popped = True
            if n.kind == "call" and n.fn() == HEAP + "::percolateDown":
                if cx.arg(0) == ("int", 0): sift = True
                if not popped: cx.run.report("the order is restored before the element is removed", n)
            return (saved, last, wrote, popped, minus, sift)
        def fin(kind, u, facts, cx):
            if kind == "exit" and not u[5]:
                if not any(k[0] == "zero" and isheap(k[1][1] if k[1][0] == "size" else k[1]) and w or k[0] == "lt" and k[1][0] == "size" and isheap(k[1][1]) and w and isinstance(k[2], int) and k[2] <= 2 for k, w in facts.items()): return "the queue may be out of order after the removal"
        ck.run(rule, g, tr, (frozenset(), frozenset(), False, False, False, False), lambda k: True, final=fin, subject=f.pretty)


def q_order(ck, rule="an element moves up while it precedes its parent and down while a child precedes it, the first child first"):
    down = []
    for c in ck.prog.funcs.values():
        if short(c.q) == "operator()" and "VarOrderLt" in c.q and len(c.params) == 2:
            for v in [ck.graph(c, ()).val(n.frame, n.x["a"]) for n in ck.graph(c, ()).nodes if n.kind == "ret"]:
                if v[0] == "op" and v[1] in ("<", ">") and v[2][0] == "at" and v[3][0] == "at" and v[2][1] == v[3][1] and {v[2][2], v[3][2]} == {P(c, 0), P(c, 1)}: down.append((v[1] == ">") == (v[2][2] == P(c, 0)))
    if not down or len(set(down)) > 1: ck.note(rule, "the comparison of elements is not a comparison of their scores"); return
    down = down[0]
    score = lambda a, b: a[0] == "at" and b[0] == "at" and a[1] == b[1] and not isheap(a[1]) and not isidx(a[1])
    def prec(v):
        """(a, b) when the condition says that a precedes b"""
        if v[0] == "op" and v[1] in ("<", ">") and score(v[2], v[3]):
            a, b = (v[2], v[3]) if (v[1] == ">") == down else (v[3], v[2])
            return a[2], b[2]
        if v[0] == "call" and short(v[1]) == "operator()" and "VarOrderLt" in v[1]: return tuple(v[3])
        return None
    def precs(facts):
        """(a, b, truth) for all known comparisons"""
        r = []
        for k, w in facts.items():
            if k[0] == "lt" and isinstance(k[2], tuple) and score(k[1], k[2]): r.append(prec(("op", "<", k[1], k[2])) + (w,))
            elif k[0] == "zero" and prec(k[1]): r.append(prec(k[1]) + (not w,))
        return r
    from .branch import alts
    from .lib import P as par
    def lit_atoms(more):
        """conjuncts that hold on an alternative, and the conjunctions that do not"""
        pos = []; neg = []
        for c, pol in more:
            if pol:
                st = [c]
                while st:
                    x = st.pop()
                    if x[0] == "and": st += [x[1], x[2]]
                    else: pos.append(x)
            else: neg.append(c)
        return pos, neg
    I = ("param", "<position>", 0, -1)
    def canon(v, f):
        """the position variable of the loop is one symbol"""
        if not isinstance(v, tuple): return v
        if v and v[0] == "phi" and any(m == P(f, 0) for m in v[1]): return I
        if v and isinstance(v[0], str) and v[0] == "phi": return v
        return tuple(canon(x, f) for x in v)
    for f in ck.fns(HEAP + "::percolateUp"):
        g = ck.graph(f, HP)
        own = lambda r: r[0] == "at" and isheap(r[1]) and r[2] == P(f, 0)
        def stay(facts):        # the element is first or does not precede its parent
            if any(not t and y[0] == "at" and isheap(y[1]) for x_, y, t in precs(facts)): return True
            return any(w and (k[0] == "zero" or k[0] == "lt" and k[2] == 1 or k[0] == "eq" and ("int", 0) in k[1:3]) and (k[1] == P(f, 0) or k[1][0] in ("phi", "rec", "op", "local", "call") or k[0] == "eq") and not has(k[1], lambda z: fieldof(z) == "weight") for k, w in facts.items())
        def tr(n, cx):
            if n.kind == "write":
                l = cx.lhs()
                if l[0] == "at" and isheap(l[1]):
                    r = cx.rhs()
                    if own(r):
                        if not (cx.ust[0] or stay(cx.facts)): cx.run.report("an element stays although it may precede its parent", n)
                    elif r[0] == "at":
                        for e in (0, 1, 2, 3, 10):
                            b = ceval(r[2], {P(f, 0): e})
                            if l[2] == P(f, 0) and b is not None and e > 0 and b != (e - 1) // 2: cx.run.report("the element takes the place of %d instead of its parent" % b, n)
                        if canon(l, f) != canon(r, f) and not any(t and canon(y, f) == canon(r, f) and x_ != y for x_, y, t in cx.ust[1] + tuple(precs(cx.facts))): cx.run.report("an element moves up although it may not precede its parent", n)
                        return False, ()
            return cx.ust
        def ed(n, c, cx, u):
            p = tuple(sorted((x for x in precs(cx.facts) if x[2]), key=str))
            return u[0] or stay(cx.facts), p or u[1]
        ck.run(rule, g, tr, (False, ()), "all", ed, subject=f.pretty)
    def role(c):
        l = [ceval(c, {I: e}) for e in (0, 1, 4)]
        return 0 if l == [1, 3, 9] else 1 if l == [2, 4, 10] else None
    for f in ck.fns(HEAP + "::percolateDown"):
        g = ck.graph(f, HP)
        own = lambda r: r[0] == "at" and isheap(r[1]) and r[2] == P(f, 0)
        H = lambda p: ("at", hp, p)
        issize = lambda v: isinstance(v, tuple) and v[0] == "size" and isheap(v[1])
        cf = lambda facts: {canon(k, f): w for k, w in facts.items()}
        def stay(facts):
            facts = cf(facts)
            if any(k[0] == "lt" and isinstance(k[1], tuple) and role(k[1]) == 0 and issize(k[2]) and not w or k[0] == "lt" and issize(k[1]) and isinstance(k[2], tuple) and role(k[2]) == 0 and w for k, w in facts.items()): return True
            return any(not t and x_[0] == "at" and y[0] == "at" and y[2] == P(f, 0) for x_, y, t in precs(facts))
        def tr(n, cx):
            if n.kind != "write": return cx.ust
            l = cx.lhs()
            if l[0] != "at" or not isheap(l[1]): return cx.ust
            r = cx.rhs(); i = canon(l[2], f)
            if i != I: return False
            if own(r):
                if not (cx.ust or stay(cx.facts)): cx.run.report("an element stays although a child may precede it", n)
                return cx.ust
            if r[0] != "at": return cx.ust
            fx0 = cf(cx.facts); r = canon(r, f)
            for c, more in alts(r[2], fx0):
                me = role(c)
                if me is None:
                    if ceval(c, {I: 4}) is not None: cx.run.report("an element is exchanged with one that is not its child", n)
                    continue
                pos, neg = lit_atoms(more)
                fx = dict(fx0)
                for k, w in list(fx.items()):      # what is known of the selected child
                    if has(k, lambda z: z == r[2]): fx[subst(k, r[2], c)] = w
                for a in pos:
                    if prec(a): fx[("zero", a) if a[0] == "call" else ("lt", a[2], a[3]) if a[1] == "<" else ("lt", a[3], a[2])] = a[0] != "call"
                    elif a[0] == "op" and a[1] == "<": fx[("lt", a[2], a[3])] = True
                # a child in range implies that the left one is
                inn = lambda p, w_: any(k[0] == "lt" and isinstance(k[1], tuple) and role(k[1]) == p and issize(k[2]) and w == w_ or k[0] == "lt" and issize(k[1]) and isinstance(k[2], tuple) and role(k[2]) == p and (not w) == w_ and w != w_ and False for k, w in fx.items())
                if not (inn(me, True) or me == 0 and inn(1, True)): cx.run.report("an element is exchanged with a child that may not exist", n); continue
                pr = list(precs(fx))
                if not any(t and x_ == H(c) and y == H(P(f, 0)) for x_, y, t in pr): cx.run.report("an element moves down although the child may not precede it", n); continue
                oth = lambda p: p[0] == "at" and role(p[2]) == 1 - me
                if any(oth(a) and b == H(c) and not t or a == H(c) and oth(b) and t for a, b, t in pr): continue
                if inn(1 - me, False): continue
                good = False
                for c2 in neg:      # not (the other one exists and precedes)
                    st = [c2]; conj = []
                    while st:
                        z = st.pop()
                        if z[0] == "and": st += [z[1], z[2]]
                        else: conj.append(z)
                    if all(z[0] == "op" and z[1] == "<" and role(z[2]) == 1 - me or prec(z) and prec(z)[0] == ("at", hp, prec(z)[0][2]) and oth(prec(z)[0]) and prec(z)[1] == H(c) for z in conj): good = True
                if not good: cx.run.report("an element is exchanged with a child that the other child may precede", n)
            return False
        ck.run(rule, g, tr, False, "all", lambda n, c, cx, u: u or stay(cx.facts), subject=f.pretty)


def subst(v, a, b):
    if v == a: return b
    return tuple(subst(x, a, b) for x in v) if isinstance(v, tuple) else v


def nosite_(v):
    from .branch import nosite
    return nosite(v)


def q_update(ck, rule="changing the rank of an element moves it into the right direction"):
    P_ = (HEAP + "::percolateUp", HEAP + "::percolateDown", HEAP + "::insert", HEAP + "::inHeap")
    need = {"decrease": {"percolateUp"}, "increase": {"percolateDown"}, "update": {"percolateUp", "percolateDown"}, "insert": {"percolateUp"}}
    for nm, want in need.items():
        for f in (h for h in ck.prog.funcs.values() if h.q == HEAP + "::" + nm):
            g = ck.graph(f, HP + tuple(p for p in P_ if short(p) != nm))
            def tr(n, cx):
                if n.kind == "call" and n.fn() in P_:
                    a = cx.arg(0)
                    if short(n.fn()) in ("percolateUp", "percolateDown"):
                        if a == ("at", ix, P(f, 0)) or nm == "insert" and a[0] == "op" and a[2][0] == "size" or nm == "insert" and a[0] == "size": return cx.ust | {short(n.fn())}
                        cx.run.report("another element than the given one is moved", n)
                    elif short(n.fn()) == "insert" and a == P(f, 0): return cx.ust | {"insert"}
                return cx.ust
            def fin(kind, u, facts, cx):
                if kind != "exit" or want <= u: return None
                if nm == "update" and "insert" in u: return None
                return "the element is not moved %s" % ("up" if "percolateUp" in want - u else "down")
            ck.run(rule, g, tr, frozenset(), "all", final=fin, subject=f.pretty)
    for f in ck.fns(HEAP + "::inHeap"):
        p = P(f, 0)
        for name, env, w in (("unknown element", {p: 5, ("size", ix): 3}, 0), ("absent element", {p: 1, ("size", ix): 3, ("at", ix, p): -1}, 0), ("first element", {p: 1, ("size", ix): 3, ("at", ix, p): 0}, 1), ("other element", {p: 0, ("size", ix): 3, ("at", ix, p): 2}, 1), ("last number", {p: 2, ("size", ix): 3, ("at", ix, p): 1}, 1)):
            judge_case(ck, rule, f, name, env, w)


def q_build(ck, rule="emptying takes the index of every element, building adds every element and orders the queue"):
    for f in ck.fns(HEAP + "::clear"):
        g = ck.graph(f)
        me = lambda v: v[0] == "at" and isheap(v[1]) and v[2][0] == "ivar" or v[0] == "elem" and isheap(v[1])
        def ev(n, cx): return n.kind == "write" and cx.lhs()[0] == "at" and isidx(cx.lhs()[1]) and me(cx.lhs()[2]) and cx.rhs() == ("int", -1) \
            or n.kind == "call" and short(n.fn()) == "fill" and isidx(cx.arg(0)[1] if len(cx.arg(0)) > 1 else ())
        m = ForEach(lambda c: isheap(c), ev)
        def tr(n, cx):
            st, emp = cx.ust
            bulk = n.kind == "call" and (short(n.fn()) == "fill" and has(cx.arg(0), lambda z: isidx(z)) or short(n.fn()) == "assign" and isidx(cx.obj()))
            st = m.step(n, cx, st)
            if bulk: st = (st[0], True)
            if n.kind == "call" and short(n.fn()) == "clear" and isheap(cx.obj()):
                if not st[1]: cx.run.report("elements are removed although they may keep their index", n)
                emp = True
            return (st, emp)
        def fin(kind, u, facts, cx):
            if kind == "exit" and not u[1]: return "the queue is not emptied"
        ck.run(rule, g, tr, (m.INIT, False), None, lambda n, c, cx, u: (m.edge(n, c, cx, u[0]), u[1]), final=fin, subject=f.pretty, fe=[m])
    for f in ck.fns(HEAP + "::build"):
        g = ck.graph(f, HP + (HEAP + "::percolateDown", HEAP + "::percolateUp", HEAP + "::clear", HEAP + "::insert"))
        src = P(f, 0)
        def added(n, cx):
            if n.kind != "call": return False
            if short(n.fn()) in ("push_back", "emplace_back") and isheap(cx.obj()) or n.fn() == HEAP + "::insert":
                a = cx.arg(0); return a[0] == "at" and a[1] == src or a[0] == "elem" and a[1] == src
            return False
        m = ForEach(lambda c: c == src, added)
        def heapify(v, pol):
            if v[0] == "not": return heapify(v[1], not pol)
            if v[0] == "op" and v[1] in (">=", "<", ">", "!=", "<=", "==") and v[2][0] == "ivar" and is_int(v[3]): return v[2], (v[1], v[3][1]), pol
            return None
        def tr(n, cx):
            st, cl, hy = cx.ust
            st = m.step(n, cx, st)
            if n.kind == "call" and n.fn() == HEAP + "::clear":
                cl = True
            if added(n, cx) and not cl: cx.run.report("elements are added before the queue is emptied", n)
            if n.kind == "call" and n.fn() == HEAP + "::percolateDown":
                if not st[1]: cx.run.report("the queue is ordered before all elements are in it", n)
                hy = "in"
            return (st, cl, hy)
        def ed(n, c, cx, u):
            st, cl, hy = u
            st = m.edge(n, c, cx, st)
            if c[0] != "case":
                h = heapify(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                if h is not None and st[1]:
                    iv, (op, k), pol = h
                    if iv[3] in (("--",), ("p--",)) or "--" in str(iv[3]):
                        first = [ceval(iv[2], {("size", hp): s}) for s in (0, 1, 2, 3, 4, 5, 9)]
                        last = {">=": k, ">": k + 1, "!=": k + 1}.get(op)
                        if last is not None and None not in first:
                            if any(a < (s // 2) - 1 for a, s in zip(first, (0, 1, 2, 3, 4, 5, 9)) if s > 1): cx.run.report("the last parents are left out when the queue is ordered", n)
                            if last > 0: cx.run.report("the first positions are left out when the queue is ordered", n)
                            if not pol: hy = "done"
            return (st, cl, hy)
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            if not u[0][1]: return "an element may not be added"
            if u[2] is None and not any(n.kind == "call" and n.fn() == HEAP + "::insert" for n in g.nodes): return "the queue is not ordered"
        ck.run(rule, g, tr, (m.INIT, False, None), None, ed, final=fin, subject=f.pretty, fe=[m])
    for f in ck.fns(HEAP + "::grow"):
        g = ck.graph(f)
        for n in g.nodes:
            if n.kind == "call" and short(n.fn()) in ("resize", "assign", "insert") and n.x.get("obj", -1) >= 0 and isidx(g.val(n.frame, n.x["obj"])):
                a = [g.val(n.frame, q) for q in n.x["args"]]
                ck.judge(rule, f.pretty + " (new)", short(n.fn()) == "resize" and len(a) == 2 and a[1] == ("int", -1), n.line(), "new elements have an index although they are not in the queue, or old ones lose theirs")
        def tr(n, cx):
            if n.kind == "call" and short(n.fn()) in ("resize",) and isidx(cx.obj()) and cx.arg(0) == P(f, 0): return True
            return cx.ust
        def fin(kind, u, facts, cx):
            if kind == "exit" and not u and not any(k[0] == "lt" and k[1] == ("size", ix) and k[2] == P(f, 0) and not w or k[0] == "lt" and k[1] == P(f, 0) and k[2] == ("size", ix) and w for k, w in facts.items()): return "the queue may stay too small"
        ck.run(rule, g, tr, False, "all", final=fin, subject=f.pretty)


def stampclear(ck, rule, f):
    st = ("field", T, "Stamp::stamp"); tab = ("field", T, "Stamp::stamped")
    g = ck.graph(f); isb = "<bool>" in f.pretty
    top = 1 if isb else 255 if "char" in f.pretty else (1 << 32) - 1
    fe = ForEach(lambda c: fieldof(c) == "stamped", lambda n, cx: n.kind == "write" and cx.lhs()[0] in ("elem", "at") and fieldof(cx.lhs()[1]) == "stamped")
    for name, cur in (("small", 1), ("middle", 7), ("just below the limit", top - 1), ("at the limit", top)):
        if isb and cur not in (0, 1): continue
        res = []
        def look(u, cur=cur):
            def E(v):
                if v == st: return dict(u).get(st, cur)
                if v[0] == "call" and short(v[1]) == "max" and not v[3]: return top
                if v[0] == "call" and short(v[1]) == "min" and not v[3]: return 0
                if v[0] == "un" and v[1] in ("++", "p++"):
                    a = ceval(v[2], E); return None if a is None else (a + 1) & (top if not isb else 1)
                return None
            return E
        def tr(n, cx):
            u, fs = cx.ust
            if st not in dict(u) and consistent(cx.facts, lambda v: cur if v == st else look(frozenset())(v)) is False: return STOP
            put = lambda key, v: frozenset([(k, w) for k, w in u if k != key] + [(key, v)])
            if n.kind == "write" and cx.lhs() == st: return put(st, ceval(cx.rhs(), look(u))), fs
            if n.kind == "write" and cx.lhs()[0] in ("elem", "at") and fieldof(cx.lhs()[1]) == "stamped": u = put("fv", ceval(cx.rhs(), look(u)))
            was = fs[1]; fs = fe.step(n, cx, fs)
            if fs[1] and not was: u = put("fill", dict(u).get("fv"))
            if n.kind == "call" and short(n.fn()) in ("fill", "assign") and has(cx.arg(0) if short(n.fn()) == "fill" else cx.obj(), lambda z: fieldof(z) == "stamped"):
                full = short(n.fn()) == "assign" or cx.arg(0) == ("iter", tab, 0) and cx.arg(1) == ("iter", tab, "end")
                if full: return put("fill", ceval(cx.arg(cx.nargs() - 1), look(u))), fs
            if n.kind == "exit": res.append(dict(u))
            return u, fs
        def ed(n, c, cx, u):
            fs = fe.edge(n, c, cx, u[1]); v = u[0]
            if fs[1] and not u[1][1]: v = frozenset([(k, w) for k, w in v if k != "fill"] + [("fill", dict(v).get("fv"))])
            return v, fs
        Run(g, tr, (frozenset(), ForEach.INIT), edge=ed, track=lambda k: True)
        for r in res:
            new, fill = r.get(st, cur), r.get("fill", "none")
            if new is None or fill is None: ck.note(rule, "%s: not evaluated" % f.pretty); continue
            if fill == "none":
                ck.judge(rule, "%s, stamp %s" % (f.pretty, name), new > cur, f.where(), "with the stamp %s, entries stamped before count as stamped after clearing" % name)
            else: ck.judge(rule, "%s, stamp %s" % (f.pretty, name), int(fill) != int(new), f.where(), "with the stamp %s, every entry counts as stamped after clearing" % name)
            if fill != "none" and not isb: ck.judge(rule, "%s, stamp %s (unset)" % (f.pretty, name), new > 0 and fill == 0, f.where(), "with the stamp %s, entries that were never stamped count as stamped" % name)


def q_stamp(ck, rule="after clearing no entry is stamped, and stamping affects exactly the given entry"):
    st = ("field", T, "Stamp::stamp"); tab = ("field", T, "Stamp::stamped")
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Stamp::"): continue
        nm = short(f.q); g = ck.graph(f, ("Stamp::clear",) if f.kind == "ctor" else ())
        isb = "<bool>" in f.pretty
        top = 1 if isb else 255 if "char" in f.pretty else (1 << 32) - 1
        if nm == "clear":
            stampclear(ck, rule, f)
        elif nm in ("set", "unset"):
            def tr(n, cx):
                if n.kind == "write" and cx.lhs()[0] == "at" and cx.lhs()[1] == tab:
                    if cx.lhs()[2] != P(f, 0): cx.run.report("another entry is changed", n)
                    r = cx.rhs()
                    if nm == "set" and r != st: cx.run.report("the entry is not marked with the stamp", n)
                    if nm == "unset" and not (r == ("int", 0) or r[0] == "call" and short(r[1]) == "min"): cx.run.report("the entry may count as stamped", n)
                    return True
                return cx.ust
            def fin(kind, u, facts, cx):
                if kind == "exit" and not u: return "the entry is not changed"
            ck.run(rule, g, tr, False, None, final=fin, subject=f.pretty)
        elif nm in ("isStamped", "operator[]"):
            e = ("at", tab, P(f, 0))
            for a, b in ((3, 3), (2, 3), (0, 3), (4, 3)): judge_case(ck, rule, f, "entry %d, stamp %d" % (a, b), {e: a, st: b, P(f, 0): 9}, int(a == b))
        elif nm == "grow" or f.kind == "ctor":
            for n in g.nodes:
                if n.kind == "call" and short(n.fn()) in ("resize", "push_back", "assign") and n.x.get("obj", -1) >= 0 and g.val(n.frame, n.x["obj"]) == tab:
                    a = [g.val(n.frame, q) for q in n.x["args"]]
                    v = a[-1] if len(a) > (0 if short(n.fn()) == "push_back" else 1) else ("int", 0)
                    ck.judge(rule, "%s (new)" % f.pretty, v == ("int", 0) or v[0] == "call" and short(v[1]) == "min", n.line(), "new entries may count as stamped")
                    if nm == "grow" and f.params and short(n.fn()) != "push_back": ck.judge(rule, "%s (size)" % f.pretty, a[0] == P(f, 0), n.line(), "the table gets a size other than the requested one")
            if f.kind == "ctor":
                must(ck, rule, g, lambda n, cx: n.kind == "call" and n.fn() == "Stamp::clear" or n.kind == "write" and cx.lhs() == st and cx.rhs() == ("int", 1), "new entries count as stamped", subject=f.pretty)


P31 = [q_index, q_pair, q_remove, q_order, q_update, q_build, q_stamp]
