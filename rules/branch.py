"""P18: branching."""
from .lib import *
from .ev import *
from .solver import UNITS
T = ("this",)
HEUR = ("Candy::VSIDS", "Candy::LRB", "Candy::VSIDSC")
TR = "Candy::Trail"; HEAP = "Glucose::Heap"; VP = "Candy::VSIDS::pickBranchLit"


def nosite(v):
    """v without the call sites of its calls"""
    if not isinstance(v, tuple): return v
    if v and v[0] == "call" and len(v) > 4 and isinstance(v[-1], tuple) and v[-1][:1] == ("site",): v = v[:-1]
    return tuple(nosite(w) for w in v)


def base(l):
    """variable of a literal expression, without sign operations"""
    while True:
        if l[0] == "neg": l = l[1]
        elif l[0] == "mk" and short(l[1]) == "Lit": return l[2][0]
        elif l[0] == "litxor": l = l[1]
        elif l[0] == "cond" and base(l[2]) == base(l[3]): return base(l[2])
        else: return ("var_of", l)


def undef(facts, x):
    """is the variable known to have no value"""
    for k, w in facts.items():
        if k[0] != "lbv" or w != frozenset([2]): continue
        v = k[1]
        while v[0] == "lbxor": v = v[1]
        if v[0] == "call" and v[1] == TR + "::value" and len(v[3]) == 1 and v[3][0] in (x,) or v[0] == "call" and v[1] == TR + "::value" and base(v[3][0]) == x: return True
        if v[0] == "at" and fieldof(v[1]) == "assigns" and v[2] == x: return True
    return False


def decvar(facts, x):
    for k, w in facts.items():
        if k[0] != "zero" or w: continue
        v = k[1]
        if v[0] == "call" and v[1] == TR + "::isDecisionVar" and v[3][0] == x: return True
        if v[0] == "at" and fieldof(v[1]) == "decision" and v[2] == x: return True
    return False


def alts(v, facts, more=()):
    """alternatives of a conditional value that the facts allow, with the conditions they depend on"""
    if v[0] != "cond":
        return [(v, more)]
    c = v[1]; pol = True
    while c[0] == "not": c = c[1]; pol = not pol
    r = None
    if c[0] == "op" and c[1] in ("==", "!="):
        a, b = c[2], c[3]
        e = True if a == b else False if is_int(a) and is_int(b) else facts.get(("eq", a, b), facts.get(("eq", b, a)))
        if e is not None: r = e == (c[1] == "==")
    else:
        z = facts.get(("zero", c))
        if z is not None: r = not z
    if r is not None: return alts(v[2] if r == pol else v[3], facts, more)
    return alts(v[2], facts, more + ((c, pol),)) + alts(v[3], facts, more + ((c, not pol),))


def none_lit(v): return v[0] == "glob" and v[1].endswith("lit_Undef") or v[0] == "mk" and short(v[1]) == "Lit" and v[2] and v[2][0] == ("int", -1)


def b_pick(ck, rule="a decision is a variable without value that may be decided, and the search is told that none is left only if the queue is empty"):
    for C in HEUR:
        for f in ck.fns(C + "::pickBranchLit"):
            g = ck.graph(f, (HEAP + "::*", TR + "::*"))
            def tr(n, cx):
                if n.kind != "ret" or n.frame is not g.rootframe: return None
                gone = lambda v: v[0] == "call" and short(v[1]) == "removeMin"
                if any(k[0] == "eq" and w and (gone(k[1]) and is_int(k[2]) and k[2][1] < 0 or gone(k[2]) and is_int(k[1]) and k[1][1] < 0) for k, w in cx.facts.items()): return None    # the queue holds variables only
                for v, more in alts(cx.val(n.x["a"]), cx.facts):
                    if none_lit(v):
                        empty = any(k[0] == "lt" and k[1][0] == "size" and fieldof(k[1][1]) == "heap" and w and (k[2] == 1 or k[2] == ("int", 1)) or k[0] in ("zero", "eq") and has(k, lambda z: z[0] == "size" and fieldof(z[1]) == "heap") and w
                                    or k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "empty" and not w or has(k, lambda z: fieldof(z) == "trail_size" or z[0] == "call" and z[1] == TR + "::size") for k, w in cx.facts.items())
                        if more and not empty:      # 'the removed variable is none' does not happen
                            if any(has(c, lambda z: z[0] == "call" and short(z[1]) == "removeMin") for c, p in more): continue
                        if not empty: cx.run.report("the search is told that no variable is left although the queue may not be empty", n)
                    elif v[0] == "mk" and short(v[1]) == "Lit" or v[0] in ("neg", "call", "litxor"):
                        x = base(v)
                        if not undef(cx.facts, x): cx.run.report("a variable is decided that may have a value", n)
                        if not decvar(cx.facts, x): cx.run.report("a variable is decided that may have been eliminated", n)
                return None
            ck.run(rule, g, tr, None, "all", subject=f.pretty)


def b_advice(ck, rule="implicit learning decides only variables without value that may be decided, and leaves the rest to the default heuristic"):
    BI = "Candy::BranchingHeuristicsImpl::*"
    isadv = lambda v: v[0] == "call" and short(v[1]) == "getAdvice" and v[1].startswith("Candy::RSIL")
    cand = lambda v: v[0] == "call" and v[1] == VP
    def known(facts, p): return any(k[0] == "eq" and not w and (p(k[1]) and none_lit(k[2]) or p(k[2]) and none_lit(k[1])) for k, w in facts.items())
    def absent(facts, p): return any(k[0] == "eq" and w and (p(k[1]) and none_lit(k[2]) or p(k[2]) and none_lit(k[1])) for k, w in facts.items())
    def backbone(facts, v, x):
        """is the literal the one stored in the backbone entry of the variable x"""
        while v[0] in ("neg", "litxor"): v = v[1]
        if v[0] != "at" or fieldof(v[1]) != "m_lits": return False
        e = v[1][1]
        while e[0] == "field": e = e[1]
        return e[0] == "at" and e[2] == x and any(k[0] == "zero" and not w and fieldof(k[1]) == "m_isBackbone" and has(k[1], lambda z: z == e) for k, w in facts.items())
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::RSIL") or short(f.q) not in ("pickBranchLit", "getAdvice", "getSignAdvice"): continue
        what = short(f.q)
        g = ck.graph(f, (VP, TR + "::*", "Candy::FastRandomNumberGenerator::*", BI) + (("Candy::RSILBranchingHeuristic::getAdvice",) if what != "getAdvice" else ()))
        def tr(n, cx):
            if n.kind != "ret" or n.frame is not g.rootframe: return None
            for v, more in alts(cx.val(n.x["a"]), cx.facts):
                if cand(v): continue
                if isadv(v):
                    if not known(cx.facts, lambda z: nosite(z) == nosite(v)): cx.run.report("the search may be told that no variable is left although the default heuristic may have one", n)
                    continue
                if none_lit(v):
                    if what == "pickBranchLit" and not absent(cx.facts, cand): cx.run.report("the search is told that no variable is left although the default heuristic may have one", n)
                    continue
                if what == "getSignAdvice":
                    if v == P(f, 0): continue
                    x = ("var_of", P(f, 0))
                    if base(v) == x or backbone(cx.facts, v, x): continue
                    if base(v)[0] == "var_of" and fieldof_in(v, "m_lits"): cx.run.report("the literal of an entry that is no backbone of the variable is decided instead of it", n)
                    continue
                x = base(v)
                cs = [z for z in walk(v) if isinstance(z, tuple) and z and cand(z)]
                if cs and (x == ("var_of", cs[0]) or backbone(cx.facts, v, ("var_of", cs[0]))): continue
                if not undef(cx.facts, x): cx.run.report("a variable is decided that may have a value", n)
                if not decvar(cx.facts, x): cx.run.report("a variable is decided that may have been eliminated", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.pretty)
    # the entry of a backbone variable holds a literal of this variable
    for f in ck.prog.funcs.values():
        if short(f.q) != "addBackboneConjecture" or not f.q.startswith("Candy::ImplicitLearningAdvice"): continue
        g = ck.graph(f)
        def tr(n, cx):
            if n.kind != "write": return None
            l, r = cx.lhs(), cx.rhs()
            if l[0] == "at" and fieldof(l[1]) == "m_lits":
                e = l[1][1]
                while e[0] == "field": e = e[1]
                if e[0] == "at" and base(r) != e[2]: cx.run.report("the entry of variable %s gets the literal %s" % (vstr(e[2]), vstr(r)), n)
            return None
        ck.run(rule, g, tr, None, None, subject=f.pretty)
    # advice is looked up within its bounds
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::RSILBranchingHeuristic") or short(f.q) not in ("getAdvice", "getSignAdvice"): continue
        g = ck.graph(f, (TR + "::*", "Candy::ImplicitLearningAdvice::getAdvice"))
        def tr(n, cx):
            if n.kind == "call" and short(n.fn()) == "getAdvice" and "ImplicitLearningAdvice" in n.fn():
                a = cx.arg(0)
                if not any(k[0] == "lt" and k[1] == a and isinstance(k[2], tuple) and k[2][0] == "size" and fieldof(k[2][1]) == "m_advice" and w for k, w in cx.facts.items()):
                    cx.run.report("advice is read for a variable that may have no entry", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.pretty + " (bounds)")


def trailloop(v, pol):
    """(start, more?, key) of a traversal of the trail up to its end"""
    if v[0] == "not": return trailloop(v[1], not pol)
    if v[0] != "op" or v[1] not in ("!=", "==", "<", ">", "<=", ">="): return None
    op, a, b = v[1:4]
    if op in ("==", ">=", "<="): op = {"==": "!=", ">=": "<", "<=": ">"}[op]; pol = not pol
    if op == ">" or op == "!=" and b[0] in ("iterv", "ivar"): a, b = b, a
    tr = lambda c: fieldof(c) == "trail"
    if a[0] == "iterv" and tr(a[1]) and b[0] == "iter" and tr(b[1]) and (b[2] == "end" or isinstance(b[2], tuple) and has(b[2], lambda z: fieldof(z) == "trail_size")):
        return (a[2], pol, a[3])
    if a[0] == "ivar" and (fieldof(b) == "trail_size" or b[0] == "call" and b[1] == TR + "::size"): return (("off", a[2]), pol, a[1])
    return None


class TrailLoop(ForEach):
    """every assignment above the backtrack level (or every assignment at all) receives the event"""
    def __init__(self, event, exempt=None):
        ForEach.__init__(self, None, event, exempt); self.starts = set()
        self.container = lambda c: False
    def edge(self, n, c, cx, st):
        cur, done = st
        if c[0] != "case":
            lc = trailloop(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
            if lc is not None and (self.keys is None or lc[2] in self.keys):
                s = lc[0]; bl = None
                if s == 0: bl = True
                elif s[0] == "off":
                    e = s[1]
                    bl = e == ("int", 0) or e[0] == "at" and fieldof(e[1]) == "trail_lim" and (fieldof(e[2]) == "backtrack_level" or e[2] == ("int", 0))
                if bl:
                    allok = cur[0] and cur[1] if cur is not None and cur[2] == lc[2] else True
                    if lc[1]: return ((False, allok, lc[2]), done)
                    return (None, done or allok)
                self.starts.add(s)
        return ForEach.edge(self, n, c, cx, st)


def b_undone(ck, rule="a variable whose assignment is undone returns to the queue"):
    for C in HEUR:
        for f in ck.fns(C + "::process_conflict"):
            g = ck.graph(f, (HEAP + "::*", "Stamp::*", TR + "::isDecisionVar", TR + "::value"))
            tv = lambda x: x[0] == "var_of" and (x[1][0] == "elem" and fieldof(x[1][1]) == "trail" or x[1][0] == "at" and fieldof(x[1][1]) == "trail")
            def ev(n, cx): return n.kind == "call" and n.fn() in (HEAP + "::insert", HEAP + "::update") and tv(cx.arg(0))
            def ex(cx):
                def inh(k, w): return k[0] == "lt" and k[1][0] == "at" and fieldof(k[1][1]) == "indices" and tv(k[1][2]) and k[2] in (0, ("int", 0)) and not w \
                    or k[0] == "and" and w and fieldof_in(k, "indices") or k[0] == "zero" and not w and k[1][0] == "call" and short(k[1][1]) == "inHeap" and tv(k[1][3][0])
                def nodec(k, w): return k[0] == "zero" and w and (k[1][0] == "call" and k[1][1] == TR + "::isDecisionVar" and tv(k[1][3][0]) or k[1][0] == "at" and fieldof(k[1][1]) == "decision")
                return any(inh(k, w) or nodec(k, w) for k, w in cx.facts.items())
            m = TrailLoop(ev, ex)
            def tr(n, cx):
                if n.kind == "call" and n.fn() == HEAP + "::insert":
                    a = cx.arg(0)
                    inh = any(k[0] == "lt" and k[1] == ("at", ("field", cx.obj(), HEAP + "::indices"), a) and k[2] in (0, ("int", 0)) and w
                              or k[0] in ("and", "zero") and has(k, lambda z: z[0] == "at" and fieldof(z[1]) == "indices" or z[0] == "call" and short(z[1]) == "inHeap") for k, w in cx.facts.items())
                    if not inh: cx.run.report("a variable is inserted that may be in the queue already", n)
                return m.step(n, cx, cx.ust)
            def fin(kind, u, facts, cx):
                if kind == "exit" and not u[1]: return "a variable whose assignment is going to be undone may be missing in the queue"
            ck.run(rule, g, tr, m.INIT, "all", lambda n, c, cx, u: m.edge(n, c, cx, u), final=fin, subject=f.pretty, fe=[m])


def fieldof_in(k, name): return has(k, lambda z: fieldof(z) == name)


def b_reset(ck, rule="a reset brings every variable that may be decided into the queue"):
    for C in HEUR:
        for f in ck.fns(C + "::reset"):
            g = ck.graph(f, (HEAP + "::*", TR + "::isDecisionVar", TR + "::nVars"))
            num = lambda v: v[0] == "call" and v[1] == TR + "::nVars" or fieldof(v) in ("variables", "nVars") or v[0] == "size"
            def loop(v, pol):
                if v[0] == "not": return loop(v[1], not pol)
                if v[0] == "op" and v[1] in ("<", ">", ">=", "<=", "!=", "=="):
                    op, a, b = v[1:4]
                    if op in (">=", "<=", "=="): op = {">=": "<", "<=": ">", "==": "!="}[op]; pol = not pol
                    if op == ">" or b[0] == "ivar": a, b = b, a
                    if a[0] == "ivar" and a[2] == ("int", 0) and num(b): return pol, a[1]
                return None
            iv = lambda v: v[0] == "ivar"
            def tr(n, cx):
                cur, done, into, built = cx.ust
                if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and iv(cx.arg(0)):
                    cur = True; into = cx.obj()
                if n.kind == "call" and n.fn() in (HEAP + "::insert", HEAP + "::update") and iv(cx.arg(0)): cur = True; built = True
                if n.kind == "call" and n.fn() == HEAP + "::build":
                    if into is not None and cx.arg(0) != into: cx.run.report("the queue is built from something else than the variables", n)
                    built = done
                if n.kind == "call" and n.fn() == HEAP + "::clear": built = False
                return (cur, done, into, built)
            def ed(n, c, cx, u):
                cur, done, into, built = u
                if c[0] != "case":
                    lc = loop(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                    if lc is not None:
                        ok = cur in (None, True) 
                        if not ok: return (None, False, into, False) if not lc[0] else ("lost", False, into, False)
                        return (False, done, into, built) if lc[0] else (None, done != False or True, into, built)
                if cur is False and any(k[0] == "zero" and w and (k[1][0] == "call" and k[1][1] == TR + "::isDecisionVar" and iv(k[1][3][0]) or k[1][0] == "at" and fieldof(k[1][1]) == "decision" and iv(k[1][2])) for k, w in cx.facts.items()): cur = True
                return (cur, done, into, built)
            def fin(kind, u, facts, cx):
                if kind == "exit" and (u[0] == "lost" or not u[3]): return "a variable that may be decided may be missing in the queue"
            ck.run(rule, g, tr, (None, None, None, False), lambda k: k[0] == "zero", ed, final=fin, subject=f.pretty)


def b_tables(ck, rule="the tables of a heuristic cover all variables"):
    for C in HEUR:
        per = {}
        # what the heuristic indexes by variables
        for f in ck.fns(C + "::init"):
            g = ck.graph(f, (HEAP + "::build", HEAP + "::clear", TR + "::isDecisionVar", TR + "::nVars"))
            num = lambda v: v[0] == "call" and v[1] == TR + "::nVars" or fieldof(v) == "variables"
            grown = lambda n, cx: cx.obj() if n.kind == "call" and short(n.fn()) in ("resize", "assign", "grow") and n.x.get("obj", -1) >= 0 and cx.nargs() and num(cx.arg(0)) else None
            own = lambda c: c[0] == "field" and has(c, lambda z: z == T)
            tabs = {g.val(n.frame, n.x["obj"]) for n in g.nodes if n.kind == "call" and n.x.get("obj", -1) >= 0 and short(n.fn()) in ("resize", "assign", "grow") and n.inl is not True}
            tabs = {c for c in tabs if own(c) and not any(d != c and has(d, lambda z: z == c) for d in tabs)}
            # everything the heuristic reads by variable while the search runs
            for h in ck.fns(C + "::process_conflict") + ck.fns(C + "::pickBranchLit"):
                gh = ck.graph(h, (HEAP + "::*", "Stamp::*", TR + "::*"))
                for n in gh.nodes:
                    vs = [gh.val(n.frame, n.x[z]) for z in ("a", "b") if n.x and z in n.x and isinstance(n.x[z], int) and n.x[z] >= 0] if n.kind in ("write",) else []
                    if n.kind == "call" and n.x.get("obj", -1) >= 0:
                        o = gh.val(n.frame, n.x["obj"])
                        if own(o) and o[1] == T and n.fn().startswith(HEAP + "::"): vs.append(("at", ("field", o, HEAP + "::indices"), T))
                        if own(o) and o[1] == T and n.fn().startswith("Stamp::"): vs.append(("at", ("field", o, "Stamp::stamped"), T))
                    for v in vs:
                        for w in walk(v):
                            if isinstance(w, tuple) and w[:1] == ("at",) and own(w[1]) and fieldof(w[1]) != "centrality" and (w[2] == T or w[2][0] == "var_of"): tabs.add(w[1])
            guard = set()
            direct = lambda c: c[0] == "field" and c[1] == T
            def tr(n, cx):
                o = grown(n, cx)
                if o is not None: return cx.ust | {o}
                return cx.ust
            def ed(n, c, cx, u):
                for k, w in cx.facts.items():
                    if k[0] == "lt" and k[1][0] == "size" and isinstance(k[2], tuple) and num(k[2]) and not w:
                        G = k[1][1]
                        if direct(G): u = u | tabs; guard.add(G)
                        else: u = u | {G}
                return u
            def fin(kind, u, facts, cx):
                if kind != "exit": return None
                for c in tabs - u: return "%s may be smaller than the number of variables" % vstr(c)
            ck.run(rule, g, tr, frozenset(), "all", ed, final=fin, subject=f.pretty)
            per["guard"] = guard; per["tabs"] = tabs
        for f in ck.fns(C + "::clear"):
            g = ck.graph(f)
            cl = {g.val(n.frame, n.x["obj"]) for n in g.nodes if n.kind == "call" and short(n.fn()) == "clear" and n.x.get("obj", -1) >= 0 and not n.inl}
            ck.judge(rule, f.pretty, all(not (cl & per.get("tabs", set())) or c in cl or c not in per.get("tabs", set()) for c in per.get("guard", set())), f.where(),
                     "%s is emptied, but only the size of %s decides whether it is filled again" % (", ".join(vstr(c) for c in cl), ", ".join(vstr(c) for c in per.get("guard", ()))))
    for f in ck.prog.funcs.values():
        if f.cls != "Candy::VSIDSC" or f.kind in ("ctor", "dtor"): continue
        g = ck.graph(f, (HEAP + "::*", TR + "::*", "Graph::*", "Candy::VSIDSCStats::*"))
        use = lambda v: v[0] == "at" and fieldof(v[1]) == "centrality" and v[2][0] != "ivar"
        def tr(n, cx):
            vs = [cx.rhs()] if n.kind == "write" else [cx.arg(i) for i in range(cx.nargs())] if n.kind == "call" else [cx.val(n.x["a"])] if n.kind == "ret" and n.x.get("a", -1) >= 0 else []
            for v in vs:
                for w in walk(v):
                    if isinstance(w, tuple) and w and use(w) and not any(k[0] == "lt" and b and nosite(k[1]) == nosite(w[2]) and isinstance(k[2], tuple) and k[2][0] == "size" and fieldof(k[2][1]) == "centrality" for k, b in cx.facts.items()):
                        cx.run.report("the centrality of a variable is read that may not be part of the graph", n)
            return None
        if any(x["k"] != "lit" and mentions_field(x, "centrality") for e, x in f.elems()): ck.run(rule, g, tr, None, "all", subject=f.pretty)


def mentions_field(x, name): return str(x.get("f", "")).endswith("::" + name) or x.get("n") == name or str(x.get("m", "")).endswith(name)


def b_protocol(ck, rule="the heuristic learns of every assignment that is undone before the next decision"):
    for f in ck.inst("Candy::Solver::search"):
        g = ck.graph(f, UNITS)
        def tr(n, cx):
            if n.kind == "call":
                if short(n.fn()) == "handle_conflict": return "open"
                if on("branch", "process_conflict", "reset")(n, cx):
                    if cx.ust == "undone" and n.fn().endswith("process_conflict"): cx.run.report("the heuristic is told of the conflict after its assignments have been undone", n)
                    if cx.ust == "start" and n.fn().endswith("process_conflict"): cx.run.report("the heuristic is told of the conflict before it has been analysed", n)
                    return "told" if cx.ust != "undone" or n.fn().endswith("reset") else cx.ust
                if on("trail", "backtrack", "reset")(n, cx):
                    if cx.ust in ("open", "start"): return "undone"
                if on("branch", "pickBranchLit")(n, cx):
                    if cx.ust == "undone": cx.run.report("a decision is made although variables whose assignment was undone may be missing in the queue", n)
                if on("propagator", "propagate")(n, cx) and cx.ust == "told": return "start"
            return cx.ust
        ck.run(rule, g, tr, "start", None, subject=f.pretty)
    for f in ck.inst("Candy::Solver::solve"):
        g = ck.graph(f, UNITS)
        def tr(n, cx):
            if n.kind == "call":
                if on("branch", "reset", "init")(n, cx): return "clean"
                if on("trail", "reset", "backtrack")(n, cx) or on("elimination", "reset", "undo_elimination")(n, cx): return "dirty"
                if short(n.fn()) == "search":
                    if cx.ust == "dirty": cx.run.report("the search starts although variables may be missing in the queue", n)
                    return "dirty"
            return cx.ust
        ck.run(rule, g, tr, "dirty", None, subject=f.pretty)
    for f in ck.inst("Candy::Solver::init"):
        g = ck.graph(f, UNITS)
        def tr(n, cx):
            if n.kind == "call":
                if on("trail", "init")(n, cx): return "trail"
                if on("branch", "init")(n, cx):
                    if cx.ust != "trail": cx.run.report("the heuristic is initialised before the number of variables is known", n)
                    return "both"
            return cx.ust
        def fin(kind, u, facts, cx):
            if kind == "exit" and u != "both": return "the heuristic is not prepared for the variables of the problem"
        ck.run(rule, g, tr, "none", None, final=fin, subject=f.pretty)


def b_decision(ck, rule="all variables may be decided except eliminated ones"):
    for f in ck.prog.funcs.values():
        if f.cls == TR or f.q.startswith("Candy::VariableElimination"): continue
        for e, x in f.elems():
            if x["k"] == "call" and x.get("fn") == TR + "::setDecisionVar": ck.bad(rule, f.q, f.where(e) if hasattr(f, "where") else "", "%s changes which variables may be decided" % f.q)
    for f in ck.fns("Candy::VariableElimination::eliminate"):
        pass
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::VariableElimination::"): continue
        if not any(x["k"] == "call" and x.get("fn") == TR + "::setDecisionVar" for e, x in f.elems()): continue
        g = ck.graph(f, (TR + "::*",))
        und = "undo" in short(f.q) or "reset" in short(f.q)
        for n in g.nodes:
            if n.kind == "call" and n.fn() == TR + "::setDecisionVar" and n.frame is g.rootframe:
                a = g.val(n.frame, n.x["args"][1])
                if is_int(a) or a[0] in ("int",): ck.judge(rule, f.q, bool(a[1]) == und, n.line(), "a variable is %s in %s" % ("made undecidable" if not a[1] else "made decidable", short(f.q)))
    for f in ck.fns(TR + "::setDecisionVar"):
        g = ck.graph(f)
        ok = [n for n in g.nodes if n.kind == "write" and g.val(n.frame, n.x["a"])[:1] == ("at",) and fieldof(g.val(n.frame, n.x["a"])[1]) == "decision" and g.val(n.frame, n.x["a"])[2] == P(f, 0) and g.val(n.frame, n.x["b"]) == P(f, 1)]
        ck.judge(rule, f.q, bool(ok), f.where(), "the mark of the variable is not set to the given value")
    for f in ck.fns(TR + "::init"):
        g = ck.graph(f)
        for n in g.nodes:
            if n.kind == "call" and short(n.fn()) in ("resize", "assign") and fieldof(g.val(n.frame, n.x["obj"])) == "decision":
                a = [g.val(n.frame, q) for q in n.x["args"]]
                ck.judge(rule, f.q, len(a) == 2 and is_int(a[1]) and a[1][1] != 0, n.line(), "new variables may not be decided")


P18 = [b_pick, b_advice, b_undone, b_reset, b_tables, b_protocol, b_decision]
