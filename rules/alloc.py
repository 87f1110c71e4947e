"""P15: the clause memory."""
from .lib import *
from .ev import *
T = ("this",)
PG = "Candy::ClauseAllocatorPage"; MEM = "Candy::ClauseAllocatorMemory"; AL = "Candy::ClauseAllocator"; CL = "Candy::Clause"
LENS = (0, 1, 2, 3, 4, 7, 100)


class Nested(ForPairs):
    """every element of every element of a container receives the event"""
    def __init__(self, outer, inner, event, exempt=None):
        self.inner = ForEach(inner, event, exempt); self.outer = ForEach(outer)


def rets(g):
    return [(n, g.val(n.frame, n.x["a"])) for n in g.nodes if n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0]


def lr(g, n):
    """target and value of a write"""
    x = n.x
    if x["k"] == "init": return ("field", n.frame.this or T, x.get("f", "")), g.val(n.frame, x["a"]) if x.get("a", -1) >= 0 else ("?",)
    if x["k"] == "bin": return g.val(n.frame, x["a"]), g.val(n.frame, x["b"])
    return None, None


def bytes_of(ck):
    """number of bytes of a clause with L literals, as the page computes it"""
    f = ck.fns(PG + "::clauseBytes")[0]; g = ck.graph(f); p = P(f, 0)
    vs = [v for n, v in rets(g)]
    return lambda L: ceval(vs[0], lambda v: L if v == p else None) if len(vs) == 1 else None


def lit_offset(ck):
    """offset of the literals in a clause object"""
    c = ck.prog.classes.get(CL) if hasattr(ck.prog, "classes") else None
    return 8


def a_size(ck, rule="the memory of a clause covers its header and all its literals, and the page and its iterator agree on it"):
    B = bytes_of(ck); off = lit_offset(ck)
    for L in LENS[1:]:
        b = B(L)
        if b is None: ck.note(rule, "size not evaluated"); return
        ck.judge(rule, PG + "::clauseBytes (%d)" % L, b >= off + 4 * L and b % 4 == 0, ck.fns(PG + "::clauseBytes")[0].where(), "a clause of %d literals gets %d bytes" % (L, b))
    for f in ck.fns(PG + "::const_iterator::operator++"):
        g = ck.graph(f); size = lambda v: v[0] == "size" or v[0] == "call" and short(v[1]) == "size"
        pos = lambda v: v[0] == "field" and fieldof(v) == "pos"
        def tr(n, cx):
            if n.kind != "write" or not pos(cx.lhs()): return cx.ust
            for L in LENS[1:]:
                plus = n.x.get("op") == "+="
                d = ceval(cx.rhs(), lambda v: L if size(v) else 1000 if pos(v) else None)
                if d is None: return cx.ust + 1
                if not plus: d -= 1000
                if d != B(L): cx.run.report("the next clause is looked for %d bytes behind a clause of %d bytes" % (d, B(L)), n); break
            return cx.ust + 1
        ck.run(rule, g, tr, 0, None, subject=f.q, final=lambda k, u, fa, cx: "the iterator moves by %d clauses" % u if k == "exit" and u != 1 else None)


def a_page(ck, rule="a page hands out memory behind everything handed out before and within its bounds"):
    B = bytes_of(ck)
    cur = lambda v: v[0] == "field" and fieldof(v) == "cursor"; ps = lambda v: v[0] == "field" and fieldof(v) == "page_size"
    for f in ck.fns(PG + "::hasMemory"):
        g = ck.graph(f); p = P(f, 0); n0 = 0
        def env(c, s, L): return lambda v: c if cur(v) else s if ps(v) else L if v == p else None
        def tr(n, cx):
            if n.kind != "ret" or n.frame is not g.rootframe: return None
            v = cx.val(n.x["a"])
            for c in (0, 8, 52, 60, 64, 96, 100, 200):
                for L in (1, 2, 3, 10):
                    e = env(c, 100, L)
                    if consistent(cx.facts, e) is False: continue
                    r = ceval(v, e)
                    if r and c + B(L) > 100: cx.run.report("a page of 100 bytes of which %d are used accepts a clause of %d bytes" % (c, B(L)), n); return None
            return None
        ck.run(rule, g, tr, None, "all", subject=f.q)
    for f in ck.fns(PG + "::allocate"):
        g = ck.graph(f); p = P(f, 0)
        C, M = 40, 5000
        writes = [n for n in g.nodes if n.kind == "write" and n.frame is g.rootframe and cur(lr(g, n)[0] or ("?",))]
        def tr(n, cx):
            c = cx.ust
            if n.kind == "write" and cur(cx.lhs()):
                d = ceval(cx.rhs(), lambda v: (c if c != "?" else None) if cur(v) else 3 if v == p else None)
                if d is None or c == "?": return "?"
                return c + d if n.x.get("op") == "+=" else d
            if n.kind == "ret" and n.frame is g.rootframe:
                if c != "?" and c != C + B(3): cx.run.report("a clause of %d bytes uses up %d bytes" % (B(3), c - C), n)
                v = cx.val(n.x["a"])
                # is the value computed before or after the cursor moves
                src = [q for q in range(len(f.x)) if f.x[q]["k"] == "bin" and f.x[q].get("op") == "+" and cur_in(f, q)]
                when = None
                if len(src) == 1 and len(writes) == 1 and src[0] in f.pos and writes[0].e in f.pos and f.pos[src[0]][0] == f.pos[writes[0].e][0]:
                    when = f.pos[src[0]][1] < f.pos[writes[0].e][1]
                at = C if when else c if when is False and c != "?" else None
                r = ceval(v, lambda w: at if cur(w) else M if w[0] == "field" and fieldof(w) == "memory" else 3 if w == p else None)
                if r is not None and r != M + C: cx.run.report("the memory handed out begins %d bytes from the used part" % (r - M - C), n)
            return c
        ck.run(rule, g, tr, C, None, subject=f.q)
    for f in ck.fns(PG + "::" + PG.rsplit("::", 1)[-1]):
        g = ck.graph(f); move = any("&&" in p.get("t", "") for p in f.params)
        fl = lambda v, b: v[0] == "field" and v[1] == b
        def tr(n, cx):
            u = cx.ust
            if n.kind == "write":
                l = cx.lhs(); r = cx.rhs()
                if not move:
                    if fl(l, T) and fieldof(l) == "memory":
                        a = r[2][0] if r[0] == "call" and len(r) > 2 and isinstance(r[2], tuple) and r[2] and isinstance(r[2][0], tuple) else r[3][0] if r[0] == "call" and len(r) > 3 and r[3] else None
                        if a is not None:
                            s = ceval(a, lambda v: 100 if ps(v) or v[0] == "param" else None)
                            if s is not None and s < 100: cx.run.report("a page of size 100 gets %d bytes of memory" % s, n)
                        return u | {"memory"}
                    if fl(l, T) and fieldof(l) == "cursor":
                        if is_int(r) and r[1] != 0: cx.run.report("a new page starts at %d" % r[1], n)
                        return u | {"cursor"}
                    if fl(l, T) and fieldof(l) == "page_size":
                        if ceval(r, lambda v: 100 if v[0] == "param" else None) not in (None, 100): cx.run.report("the size of a new page is %s" % vstr(r), n)
                        return u | {"page_size"}
                else:
                    o = P(f, 0)
                    if fl(l, T): 
                        if r[0] == "field" and r[1] == o and fieldof(r) != fieldof(l): cx.run.report("%s is moved to %s" % (fieldof(r), fieldof(l)), n)
                        if fieldof(l) == "memory" and "taken" in u: cx.run.report("the memory is moved after it was given up", n)
                        return u | {fieldof(l)}
                    if fl(l, o) and fieldof(l) == "memory" and ceval(r, lambda v: None) == 0: return u | {"taken"}
            return u
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            miss = {"memory", "cursor", "page_size"} - u
            if miss: return "%s is not set" % ", ".join(sorted(miss))
            if move and "taken" not in u: return "two pages own the same memory after a move"
        ck.run(rule, g, tr, frozenset(), None, final=fin, subject=f.pretty)


def cur_in(f, q):
    return any(f.x[z].get("n") == "cursor" or str(f.x[z].get("f", "")).endswith("::cursor") for z in f.subtree(q))


def a_fit(ck, rule="memory is taken from a page only when the clause fits, from the newest page, and every clause is stored where it was allocated"):
    B = bytes_of(ck)
    for f in ck.prog.funcs.values():
        if not f.q.startswith(MEM + "::") or not any(x["k"] == "call" and x.get("fn") == PG + "::allocate" for e, x in f.elems()): continue
        g = ck.graph(f, (PG + "::*",)); L0 = 5
        lens = lambda L: (lambda v: L if v[0] == "param" or v[0] == "size" and v[1][0] in ("elem", "param") else B(ceval(v[3][0], lens(L))) if v[0] == "call" and short(v[1]) == "clauseBytes" and ceval(v[3][0], lens(L)) is not None else None)
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and short(n.fn()) in ("emplace_back", "push_back") and fieldof(cx.obj()) == "pages":
                return ("new", cx.arg(0))
            if n.kind == "call" and n.fn() == PG + "::allocate":
                o, a = cx.obj(), cx.arg(0)
                fits = {k: w for k, w in cx.facts.items() if has(k, lambda v: fieldof(v) == "page_size" and v[1] == o)}
                bad = None
                for c in (0, 40, 80, 90, 96, 100, 120):
                    for L in (1, 2, 5, 9, 20, 30):
                        if c + B(L) > 100 and consistent(fits, lambda v: c if fieldof(v) == "cursor" and v[1] == o else 100 if fieldof(v) == "page_size" and v[1] == o else lens(L)(v)) is True: bad = (c, L)
                good = bool(fits) and bad is None
                if u is not None and u[0] == "new":
                    for L in (1, 2, 5, 50, 1000):
                        for dflt in (0, 64, 1 << 12):
                            e = lambda v: dflt if v[0] == "field" and fieldof(v) == "default_page_size" else lens(L)(v)
                            s, b = ceval(u[1], e), B(L)
                            if s is not None and s < b: cx.run.report("a new page of %d bytes is made for a clause of %d bytes" % (s, b), n); return u
                    good = True
                if not good and u is None: cx.run.report("memory is taken from a page without knowing that it is large enough", n)
                if ceval(a, lens(L0)) not in (None, L0): cx.run.report("memory for %s literals is taken for a clause of %d" % (ceval(a, lens(L0)), L0), n)
            return u
        ck.run(rule, g, tr, None, "all", subject=f.q)
    # placement
    for f in ck.prog.funcs.values():
        if not f.q.startswith("Candy::"): continue
        for e, x in f.elems():
            if x["k"] != "new" or "Candy::Clause" not in x.get("t", "") or "SubsumptionClause" in x.get("t", "") or not x.get("place"): continue
    for f in ck.fns("Candy::ClauseDatabase::createClause"):
        g = ck.graph(f, (AL + "::*", CL + "::Clause", "Candy::Certificate::*"))
        for n in g.nodes:
            if n.kind == "call" and n.fn() == AL + "::allocate":
                a = g.val(n.frame, n.x["args"][0]); b, e = P(f, 0), P(f, 1)
                d = ceval(a, lambda v: 5 if v[0] == "call" and short(v[1]) == "distance" and v[-1 if len(v) < 5 else 3][:2] == (b, e) or v == ("op", "-", e, b) else None)
                ck.judge(rule, f.q + " (length)", d in (5, None), n.line(), "memory for %s literals is taken for a clause of 5" % d)
    for f in ck.fns(AL + "::allocate"):
        g = ck.graph(f, (MEM + "::*", AL + "::allocate")); p = P(f, 0)
        def tr(n, cx):
            if n.kind == "call" and n.fn() in (MEM + "::allocate", AL + "::allocate"):
                a = cx.arg(0)
                if is_int(a) and cx.facts.get(("eq", p, a)) is not True and cx.facts.get(("eq", a, p)) is not True: cx.run.report("memory for %d literals is taken for a clause of any length" % a[1], n)
                elif not is_int(a) and a != p and ceval(a, lambda v: 5 if v == p else None) not in (5, None): cx.run.report("memory for %s literals is taken for a clause of 5" % ceval(a, lambda v: 5 if v == p else None), n)
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if is_int(v): cx.run.report("no memory is handed out", n)
            return None
        ck.run(rule, g, tr, None, "all", subject=f.q)


def _ge(a, b): return a is not None and b is not None and a >= b


def a_move(ck, rule="reorganisation keeps every clause that is not deleted: whole and exactly once, before the old memory is freed"):
    B = bytes_of(ck)
    for f in ck.fns(MEM + "::reallocate"):
        g = ck.graph(f, (MEM + "::allocate", MEM + "::used", PG + "::*"))
        old = lambda c: fieldof(c) == "phase_out_pages"
        clause = lambda v: v[0] == "elem" and v[1][0] == "elem" and old(v[1][1])
        cp = lambda n: n.kind == "call" and short(n.fn()) in ("memcpy", "memmove", "copy", "copy_n")
        def event(n, cx): return cp(n) and (clause(cx.arg(1)) or short(n.fn()) in ("copy",) and has(cx.arg(0), clause))
        def gone(cx):
            return any(k[0] == "zero" and w is False and k[1][0] == "call" and short(k[1][1]) == "isDeleted" and clause(k[1][2]) or k[0] == "eq" and w and ("int", 65535) in k for k, w in cx.facts.items())
        m = Nested(old, lambda c: c[0] == "elem" and old(c[1]), event, gone)
        size = lambda v: v[0] == "size" and clause(v[1]) or v[0] == "call" and short(v[1]) == "size" and clause(v[2])
        def tr(n, cx):
            st, sw, al = cx.ust
            st = m.step(n, cx, st)
            if n.kind == "call" and short(n.fn()) == "swap" and mentions(("x", cx.obj()) + tuple(cx.arg(i) for i in range(cx.nargs())), "phase_out_pages"): sw = True
            if n.kind == "write" and old(cx.lhs()): sw = True
            if n.kind == "call" and short(n.fn()) == "operator=" and old(cx.obj()): sw = True
            if n.kind == "call" and n.fn() == MEM + "::allocate":
                if not sw: cx.run.report("clauses are copied into the pages that are to be freed", n)
                L = ceval(cx.arg(0), lambda v: 5 if size(v) else None)
                if L is not None and L < 5: cx.run.report("memory for %d literals is taken for a clause of 5" % L, n)
                al = cx.callval() if hasattr(cx, "callval") else "some"
            if cp(n):
                if al is None: cx.run.report("a clause is copied to memory that was used before", n)
                s = ceval(cx.arg(2), lambda v: 5 if size(v) else B(5) if v[0] == "call" and short(v[1]) == "clauseBytes" and v[3] and ceval(v[3][0], lambda w: 5 if size(w) else None) == 5 else None) if cx.nargs() > 2 else None
                if s is not None and s < B(5) - 4 * 0 and short(n.fn()) != "copy": cx.run.report("only %d of %d bytes of a clause are copied" % (s, B(5)), n)
                if s is not None and s > B(5): cx.run.report("%d bytes are copied for a clause of %d bytes" % (s, B(5)), n)
                d = cx.arg(0)
                if clause(d): cx.run.report("the new memory is copied over the old clause", n)
                al = None
            return (st, sw, al)
        def ed(n, c, cx, u): return (m.edge(n, c, cx, u[0]), u[1], u[2])
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            for k, w in facts.items():
                if k[0] == "lt" and k[1][0] == "size" and old(k[1][1]) and (is_int(k[2]) and k[2][1] <= 1 or isinstance(k[2], int) and k[2] <= 1) and not w: return None
                if k[0] == "zero" and has(k, lambda v: v[0] == "call" and short(v[1]) == "empty" and old(v[2])) and w: return None
            if u[1] and not u[0][1]: return "a clause that is not deleted may be lost"
            if not u[1]: return "the pages are not reorganised"
        ck.run(rule, g, tr, (m.INIT, False, None), "all", ed, final=fin, subject=f.q, fe=[m])
    for f in ck.fns(AL + "::reorganize"):
        g = ck.graph(f, (MEM + "::*",)); mem = lambda v: v[0] == "field" and v[1] == T
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and n.fn() == MEM + "::reallocate" and mem(cx.obj()): return u | {cx.obj()}
            if n.kind == "call" and n.fn() in (MEM + "::free_phase_out_pages", MEM + "::clear") and mem(cx.obj()):
                if n.fn().endswith("clear"): cx.run.report("clauses are thrown away", n)
                if "done" in u: pass
                if fieldof(cx.obj()) == "facts" : pass
            return u
        ck.run(rule, g, tr, frozenset(), None, subject=f.q)
    # pages are given up only after their clauses have been copied, or with the whole database
    for f in ck.prog.funcs.values():
        if f.cls != MEM or f.kind in ("ctor", "dtor"): continue
        g = ck.graph(f, (MEM + "::*", PG + "::*"))
        oth = lambda c: fieldof(c) == "pages" and c[1] != T
        take = lambda n, cx: n.kind == "call" and short(n.fn()) in ("emplace_back", "push_back", "insert") and fieldof(cx.obj()) == "pages" and has(("x",) + tuple(cx.arg(i) for i in range(cx.nargs())), oth)
        m = ForEach(oth, take, bulk=lambda n, cx: take(n, cx) and any(cx.arg(i)[0] == "iter" and cx.arg(i)[2] == "end" and oth(cx.arg(i)[1]) for i in range(cx.nargs())))
        def tr(n, cx):
            u = m.step(n, cx, cx.ust)
            if n.kind == "call" and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) in ("pages", "phase_out_pages"):
                s = short(n.fn()); own = cx.obj()[1] == T
                if s in ("clear", "pop_back", "erase", "resize", "shrink_to_fit") and short(f.q) not in ("clear", "free_phase_out_pages"):
                    if own or not u[1]: cx.run.report("pages are given up in %s" % short(f.q), n)
                if s in ("clear", "pop_back", "erase", "resize") and short(f.q) == "free_phase_out_pages" and fieldof(cx.obj()) == "pages": cx.run.report("the pages in use are given up", n)
            return u
        ck.run(rule, g, tr, m.INIT, None, lambda n, c, cx, u: m.edge(n, c, cx, u), subject=f.q + " (pages)", fe=[m])


def a_collect(ck, rule="collecting the clauses yields every clause that is not deleted and no deleted one, from all memory clauses are allocated in"):
    for f in ck.fns(MEM + "::collect"):
        g = ck.graph(f, (MEM + "::const_iterator::*", PG + "::*"))
        page = lambda c: c[0] == "elem" and fieldof(c[1]) == "pages"
        coll = lambda c: c == T or page(c)
        el = lambda v: v[0] == "elem" and coll(v[1])
        dele = lambda k: k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "isDeleted" and el(k[1][2]) or k[0] == "eq" and ("int", 65535) in k[1:]
        def ev(n, cx): return n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back", "insert") and el(cx.arg(cx.nargs() - 1))
        ex = lambda cx: any(dele(k) and w == (k[0] == "eq") for k, w in cx.facts.items())
        one = ForEach(lambda c: c == T, ev, ex); two = Nested(lambda c: fieldof(c) == "pages", page, ev, ex)
        def tr(n, cx):
            a, b = cx.ust
            if ev(n, cx) and ex(cx): cx.run.report("a deleted clause is collected", n)
            return (one.step(n, cx, a), two.step(n, cx, b))
        def ed(n, c, cx, u): return (one.edge(n, c, cx, u[0]), two.edge(n, c, cx, u[1]))
        def fin(kind, u, facts, cx):
            if kind == "exit" and not u[0][1] and not u[1][1]: return "a clause that is not deleted may be missing"
        ck.run(rule, g, tr, (one.INIT, two.INIT), "all", ed, final=fin, subject=f.q, fe=[one, two])
    # the memories clauses are allocated in are those collected
    used = set(); f0 = None
    for f in ck.fns(AL + "::allocate"):
        for n in ck.graph(f, (MEM + "::*", AL + "::allocate")).nodes:
            if n.kind == "call" and n.fn() == MEM + "::allocate": used.add(ck.graph(f, (MEM + "::*", AL + "::allocate")).val(n.frame, n.x["obj"]))
    for f in ck.fns(AL + "::collect"):
        g = ck.graph(f, (MEM + "::*",))
        glob = lambda v: has(v, lambda w: fieldof(w) == "global_allocator")
        # the vector that is given out: the constructors that initialise it count, those of other local vectors do not
        own = set()
        retd = {f.x[q].get("d") for e, x in f.elems() if x["k"] == "ret" and x.get("a", -1) >= 0 for q in f.subtree(x["a"]) if f.x[q]["k"] == "ref" and f.x[q].get("dk") == "var"}
        for e, x in f.elems():
            if x["k"] == "decl":
                for w in x["vars"]:
                    if w["d"] not in retd and w.get("init", -1) >= 0: own |= set(f.subtree(w["init"]))
        def src(v): return {w[2] for w in walk(v) if isinstance(w, tuple) and w and w[0] == "call" and w[1] == MEM + "::collect"}
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and short(n.fn()) in ("insert", "push_back") and n.x.get("obj", -1) >= 0:
                for i in range(cx.nargs()):
                    a = cx.arg(i)
                    if a[0] == "iter" and a[2] == 0: u = u | src(a[1]) if any(cx.arg(j) == ("iter", a[1], "end") for j in range(i + 1, cx.nargs())) else u
                return u
            if n.kind == "ctor" and n.x.get("cls", "").startswith("std::vector") and n.frame is g.rootframe and not (retd and n.e in own):
                for i in range(cx.nargs()): u = u | src(cx.arg(i))
            if n.kind == "call" and n.fn() == MEM + "::collect": return u
            return u
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            withglob = any(k[0] == "zero" and fieldof(k[1]) == "global_allocator" and w is False for k, w in facts.items())
            miss = [fieldof(m) for m in used if m not in u and not (withglob and fieldof(m) == "facts")]
            if miss: return "clauses allocated in %s are not collected" % ", ".join(miss)
        # collected one by one: a loop over the collected clauses that adds its element to another vector
        looped = set()
        def scan(n, cx):
            if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.frame is g.rootframe and cx.nargs():
                for a in either(cx.arg(0)):
                    if a[0] in ("elem", "at"): looped.add(a[1])
            return None
        Run(g, scan, track=lambda k: mentions(k, "global_allocator"))
        def led(n, c, cx, u):
            if c[0] == "case": return u
            lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
            if lc is not None and not lc[1] and lc[2] in ("fwd", "rev", "from0") and lc[0] in looped: return u | src(lc[0])
            return u
        ck.run(rule, g, tr, frozenset(), lambda k: mentions(k, "global_allocator"), led, final=fin, subject=f.q)
    # all of them are emptied, and deallocation marks the clause deleted
    for f in ck.fns(AL + "::clear"):
        g = ck.graph(f, (MEM + "::*",))
        for m in used:
            must(ck, rule, g, lambda n, cx: n.kind == "call" and n.fn() == MEM + "::clear" and cx.obj() == m, "clauses allocated in %s stay when all clauses are dropped" % fieldof(m), subject="%s %s" % (f.q, fieldof(m)))
    for f in ck.fns(AL + "::deallocate"):
        g = ck.graph(f, ("Candy::Clause::setDeleted",))
        must(ck, rule, g, lambda n, cx: n.kind == "call" and short(n.fn()) == "setDeleted" and cx.obj() in (P(f, 0), ("un", "*", P(f, 0))), "a deallocated clause is not marked deleted", subject=f.q)
    for f in ck.fns(AL + "::collect_unit_clauses"):
        g = ck.graph(f, (MEM + "::*",))
        one = [m for m in used]
        for n, v in rets(g):
            s = {w[2] for w in walk(v) if isinstance(w, tuple) and w and w[0] == "call" and w[1] == MEM + "::collect"}
            ck.judge(rule, f.q, all(fieldof(w) == "facts" for w in s), n.line(), "clauses of %s are given out as unit clauses" % ", ".join(sorted(str(fieldof(w)) for w in s)))


def a_iterate(ck, rule="iteration visits every clause of every page once and stops behind the last"):
    fl = lambda v, *n: v[0] == "field" and fieldof(v) in n
    pg = lambda v: fl(v, "page"); pos = lambda v: fl(v, "position"); epos = lambda v: fl(v, "end_position"); epg = lambda v: fl(v, "end_page")
    for f in ck.fns(MEM + "::const_iterator::skip_empty_pages"):
        g = ck.graph(f, (PG + "::*",))
        def eqf(facts, a, b):
            for k, w in facts.items():
                if k[0] == "eq" and (a(k[1]) and b(k[2]) or b(k[1]) and a(k[2])): return w
            return None
        def tr(n, cx):
            st = cx.ust      # consistent / advanced (page moved on, positions stale) / half
            if n.kind == "write" or n.kind == "call" and short(n.fn()) in ("operator++", "operator="):
                l = cx.lhs() if n.kind == "write" else cx.obj()
                if pg(l):
                    if eqf(cx.facts, pos, epos) is False: cx.run.report("a page is left before its last clause", n)
                    if st[0] == "page" and st[1] != {"pos", "end"}: cx.run.report("a page is skipped", n)
                    return ("page", frozenset())
                r = cx.rhs() if n.kind == "write" else cx.arg(0) if cx.nargs() else ("?",)
                if pos(l):
                    if r[0] == "iter" and r[2] == "end": cx.run.report("a page is entered at its end", n)
                    return (st[0], st[1] | {"pos"}) if st[0] == "page" else st
                if epos(l):
                    if r[0] == "iter" and r[2] == 0: cx.run.report("a page ends at its begin", n)
                    return (st[0], st[1] | {"end"}) if st[0] == "page" else st
            return st
        def ed(n, c, cx, st):
            if st[0] == "page" and eqf(cx.facts, pg, epg) is True: return ("ok", frozenset())
            if st[0] == "page" and st[1] == {"pos", "end"} and eqf(cx.facts, pos, epos) is False: return ("ok", frozenset())
            return st
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            if u[0] == "page" and u[1] != {"pos", "end"}: return "a page is entered without its clauses"
            if u[0] == "page": return "a page without clauses may be taken for one with clauses"
            if eqf(facts, pos, epos) is True and eqf(facts, pg, epg) is False: return "the iteration ends at a page without clauses although others follow"
        ck.run(rule, g, tr, ("ok", frozenset()), lambda k: k[0] == "eq", ed, final=fin, subject=f.q)
    for f in ck.fns(MEM + "::const_iterator::operator++"):
        g = ck.graph(f, (PG + "::*", MEM + "::const_iterator::skip_empty_pages"))
        inc = lambda n, cx: n.kind == "call" and short(n.fn()) == "operator++" and pos(cx.obj())
        def tr(n, cx):
            u = cx.ust
            if n.kind != "block" and inc(n, cx):
                if u == "inc": cx.run.report("a clause is skipped", n)
                return "inc"
            if n.kind == "call" and short(n.fn()) == "skip_empty_pages" and u == "inc": return "done"
            return u
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            null = any(k[0] in ("zero", "eq") and has(k, pos) and w for k, w in facts.items())
            if u == "inc": return "the end of a page is taken for a clause"
            if u == "start" and not null: return "the iteration does not move on"
        ck.run(rule, g, tr, "start", lambda k: has(k, pos), final=fin, subject=f.q)
    for f in ck.fns(MEM + "::begin"):
        g = ck.graph(f, (MEM + "::const_iterator::*", PG + "::*"))
        for n, v in rets(g):
            if v[0] != "mk" or len(v[2]) != 4: continue
            pages = [w for w in walk(v[2][0]) if isinstance(w, tuple) and fieldof(w) == "pages"]
            if not pages: continue
            p0 = [("at", pages[0], ("int", 0)), ("iter", pages[0], 0)]
            want = (("iter", pages[0], 0), ("iter", pages[0], "end"))
            ok = v[2][:2] == want and v[2][2][0] == "iter" and v[2][2][2] == 0 and v[2][3][0] == "iter" and v[2][3][2] == "end" and v[2][2][1] == v[2][3][1]
            known = all(w[0] == "iter" for w in v[2])
            ck.judge(rule, f.q, ok or not known, n.line(), "the iteration starts at %s" % vstr(v))
    for q, want in ((PG + "::begin", 0), (PG + "::end", 1)):
        for f in ck.fns(q):
            g = ck.graph(f, (PG + "::const_iterator::*",))
            for n, v in rets(g):
                r = [ceval(w, lambda z: 5000 if fl(z, "memory") else 40 if fl(z, "cursor") else 100 if fl(z, "page_size") else None) for w in (v[2] if v[0] == "mk" else (v,))]
                if len(r) == 1 and r[0] is not None: ck.judge(rule, f.q, r[0] == 5000 + 40 * want, n.line(), "the iteration of a page %s %d bytes from its start although %d are used" % ("ends" if want else "begins", r[0] - 5000, 40))
                else: ck.note(rule, q + " not evaluated")


def a_clause(ck, rule="a clause holds the literals it was made from, in order, and is marked deleted by deletion only"):
    W = lambda v: v[0] == "field" and fieldof(v) == "weight" and v[1] == T
    def weights(q):
        out = []
        for f in ck.fns(q):
            g = ck.graph(f)
            for n in g.nodes:
                if n.kind != "write": continue
                l, v = lr(g, n)
                if l is not None and W(l): out.append((f, n, v))
        return out
    def pred(q):
        for f in ck.fns(q):
            g = ck.graph(f); vs = rets(g)
            if len(vs) == 1: return lambda w: ceval(vs[0][1], lambda v: w if W(v) else None)
        return lambda w: None
    isdel, isper, islea = pred(CL + "::isDeleted"), pred(CL + "::isPersistent"), pred(CL + "::isLearnt")
    where = ck.fns(CL + "::isDeleted")[0].where()
    dv = [ceval(v, lambda w: None) for f, n, v in weights(CL + "::setDeleted")]
    for d in dv:
        if d is not None: ck.judge(rule, CL + "::setDeleted", bool(isdel(d)) or isdel(d) is None, where, "a clause with the deletion mark %d does not count as deleted" % d)
    if not dv: ck.bad(rule, CL + "::setDeleted", ck.fns(CL + "::setDeleted")[0].where(), "setDeleted leaves no mark")
    for f, n, v in weights(CL + "::setPersistent"):
        d = ceval(v, lambda w: None)
        if d is not None: ck.judge(rule, f.q, isper(d) in (True, 1, None), n.line(), "a clause marked persistent does not count as persistent")
    for w in (0, 1, 2, 30, 65534):
        ck.judge(rule, CL + " (weight %d)" % w, not isdel(w), where, "a clause of weight %d counts as deleted" % w)
        if isper(w) is not None: ck.judge(rule, CL + " (persistent %d)" % w, bool(isper(w)) == (w == 0), where, "a clause of weight %d %s" % (w, "counts as persistent" if isper(w) else "does not count as persistent"))
        if islea(w) is not None: ck.judge(rule, CL + " (learnt %d)" % w, bool(islea(w)) == (w > 0), where, "a clause of weight %d %s as learnt" % (w, "counts" if islea(w) else "does not count"))
    for q in (CL + "::setLBD", CL + "::Clause"):
        for f in ck.fns(q):
            par = [P(f, i) for i, p in enumerate(f.params) if "int" in p.get("t", "") or "short" in p.get("t", "")]
            if len(par) != 1: continue
            g = ck.graph(f)
            for n in g.nodes:
                if n.kind != "write": continue
                l, v = lr(g, n)
                if l is None or not W(l): continue
                for lbd in (0, 1, 5, 65534, 65535):
                    r = ceval(v, lambda w: lbd if w == par[0] else None)
                    if r is None: continue
                    ck.judge(rule, f.pretty + " (lbd %d)" % lbd, not isdel(r), n.line(), "a clause with lbd %d counts as deleted" % lbd)
                    if lbd < 65534: ck.judge(rule, f.pretty + " (keeps %d)" % lbd, (r == 0) == (lbd == 0), n.line(), "a clause with lbd %d gets weight %d" % (lbd, r))
    for f in ck.fns(CL + "::Clause"):
        if len(f.params) != 3: continue
        g = ck.graph(f, (CL + "::copyLiterals",)); b, e = P(f, 0), P(f, 1)
        lits = lambda v: v == T or v[0] == "iter" and v[1] == T and v[2] == 0 or fieldof(v) == "literals"
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and n.fn() == CL + "::copyLiterals" or n.kind == "call" and n.fn() == "std::copy":
                if cx.arg(0) != b or cx.arg(1) != e: cx.run.report("other literals are stored", n)
                if not lits(cx.arg(2)) and cx.arg(2)[0] not in ("?",): cx.run.report("the literals are stored at %s" % vstr(cx.arg(2)), n)
                return u | {"copy"}
            if n.kind == "write" and (cx.lhs() == ("size", T) or fieldof(cx.lhs()) == "length"):
                d = ceval(cx.rhs(), lambda v: 5 if v[0] == "call" and short(v[1]) == "distance" and any(w == (b, e) for w in v) or v == ("op", "-", e, b) else None)
                if d not in (5, None): cx.run.report("the length of a clause with 5 literals is %d" % d, n)
                return u | {"len"}
            return u
        ck.run(rule, g, tr, frozenset(), final=lambda k, u, fa, cx: None if k != "exit" else "the literals are not stored" if "copy" not in u else "the length is not stored" if "len" not in u else None, subject=f.pretty)
    for f in ck.fns(CL + "::copyLiterals"):
        g = ck.graph(f); b, e, t = P(f, 0), P(f, 1), P(f, 2)
        iv = lambda v, p: v == p or v[0] == "ivar" and v[2] == p
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and n.fn() == "std::copy" and (cx.arg(0), cx.arg(1), cx.arg(2)) == (b, e, t): return ("all", frozenset())
            if n.kind == "write" and u[0] != "all" and (n.x["k"] != "un" and not short(n.fn() or "x").startswith("operator+") or cx.lhs()[0] == "local"):
                if cx.lhs()[0] != "local":
                    if "stored" in u[1]: cx.run.report("a literal is overwritten by the next", n)
                    return (u[0], u[1] | {"stored"})
                if cx.lhs()[2] == f.params[2]["n"]: return (u[0], u[1] | {"moved"})
            return u
        def ed(n, c, cx, u):
            if c[0] == "case": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            if v[0] == "op" and v[1] in ("!=", "==") and (iv(v[2], b) and v[3] == e or iv(v[3], b) and v[2] == e):
                more = c[1] == (v[1] == "!=")
                if u[0] == "in" and "stored" not in u[1]: cx.run.report("a literal is not stored", n)
                if u[0] == "in" and u[1] == {"stored"} and more: cx.run.report("a literal is overwritten by the next", n)
                return ("in" if more else "all", frozenset())
            return u
        ck.run(rule, g, tr, ("start", frozenset()), None, ed, final=lambda k, u, fa, cx: "the literals are not all stored" if k == "exit" and u[0] != "all" else None, subject=f.pretty)
    for ln in (0, 1, 2, 5):
        val = lambda w: ln if w == ("size", T) or fieldof(w) == "length" and w[1] == T else None
        for q, want in ((CL + "::size", ln),):
            for f in ck.fns(q):
                for n, v in rets(ck.graph(f)):
                    r = ceval(v, val)
                    if r is not None: ck.judge(rule, "%s (%d literals)" % (q, ln), r == want, n.line(), "the size of a clause with %d literals is %d" % (ln, r))
        base = lambda w: 1000 if w == T or w[0] == "iter" and w[1] == T and w[2] == 0 or fieldof(w) == "literals" else val(w)
        for q, want in ((CL + "::begin", 1000), (CL + "::end", 1000 + ln)):
            for f in ck.fns(q):
                for n, v in rets(ck.graph(f)):
                    r = ceval(v, base)
                    if r is not None: ck.judge(rule, "%s (%d literals)" % (q, ln), r == want, n.line(), "%s of a clause with %d literals is its literal %d" % (short(q), ln, r - 1000))
        for q, want in ((CL + "::first", 0), (CL + "::second", 1), (CL + "::third", 2), (CL + "::operator[]", 3)) + (((CL + "::back", ln - 1),) if ln else ()):
            for f in ck.fns(q):
                for n, v in rets(ck.graph(f)):
                    if v[0] == "at":
                        r = ceval(v[2], lambda w: 3 if f.params and w == P(f, 0) else val(w))
                        if r is not None: ck.judge(rule, "%s (%d literals)" % (q, ln), r == want, n.line(), "%s gives literal %d instead of %d" % (short(q), r, want))
    for f in ck.fns(CL + "::swap"):
        g = ck.graph(f); i, j = P(f, 0), P(f, 1)
        def tr(n, cx):
            if n.kind == "call" and n.fn() == "std::swap": return frozenset([(i, j), (j, i)])
            if n.kind == "write" and cx.lhs()[0] == "at" and cx.rhs()[0] == "at": return cx.ust | {(cx.lhs()[2], cx.rhs()[2])}
            return cx.ust
        ck.run(rule, g, tr, frozenset(), final=lambda k, u, fa, cx: None if k != "exit" or u == {(i, j), (j, i)} else "the two literals are not exchanged", subject=f.q)


P15 = (a_size, a_page, a_fit, a_move, a_collect, a_iterate, a_clause)
