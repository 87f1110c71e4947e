"""Search core: P06 watch lists, P07 unit propagation, P08 trail, P09 conflict analysis."""
from .lib import *
from .solver import UNITS, full_of, each

DB = "Candy::ClauseDatabase"
TR = "Candy::Trail"
TRAIL = tuple(TR + "::" + m for m in ("value", "satisfies", "falsifies", "propagate", "decide", "set_value", "fact", "backtrack", "reset", "init", "newDecisionLevel"))


def equals(facts, v):
    """values known to be equal to v"""
    out = {v}; ch = True
    while ch:
        ch = False
        for k, w in facts.items():
            if k[0] == "eq" and w is True:
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if a in out and b not in out: out.add(b); ch = True
    return out


def litval(facts, l):
    """known truth values of a literal under the current assignment"""
    r = frozenset([0, 1, 2])
    flip = {0: 1, 1: 0, 2: 2}
    E = equals(facts, l)
    N = {x[1] if x[0] == "neg" else ("neg", x) for x in E}
    for k, w in facts.items():
        if k[0] == "lbv" and k[1][0] == "call" and k[1][1] == TR + "::value" and k[1][3]:
            if k[1][3][0] in E: r &= w
            elif k[1][3][0] in N: r &= frozenset(flip[i] for i in w)
        elif k[0] == "zero" and k[1][0] == "call" and k[1][1] in (TR + "::satisfies", TR + "::falsifies") and len(k[1][3]) == 1:
            t = 0 if k[1][1].endswith("satisfies") else 1
            if k[1][3][0] in E: r &= (frozenset([0, 1, 2]) - {t}) if w else frozenset([t])
            elif k[1][3][0] in N: r &= (frozenset([0, 1, 2]) - {flip[t]}) if w else frozenset([flip[t]])
    return r


def lits(v):
    """alternatives of a conditional value"""
    return set(either(v))


PROP = ("Candy::Propagate", "Candy::StaticPropagate")


def isclause(v):
    """v is the clause of a watcher (field cref / clause of a list element)"""
    return v[0] == "field" and fieldof(v) in ("cref", "clause")


def long_list(c): return c[0] in ("at", "elem") and fieldof(c[1]) == "watchers"
def bin_list(c):
    return c[0] in ("at", "elem") and fieldof(c[1]) == "binaryWatchers" or c[0] == "call" and short(c[1]) == "getBinaryWatchers"


def list_index(c):
    return c[2] if c[0] in ("at", "elem") else c[3][0] if c[0] == "call" and c[3] else None


def no_clause(facts):
    """the clause of a watcher is never null"""
    return any(k[0] == "zero" and w is True and isclause(k[1]) for k, w in facts.items())


# ---------------------------------------------------------------- P07
def w_scan(ck, rule="a clause only propagates or conflicts when all its other literals are false, with the clause as reason"):
    """the scan of one watch list, for both propagation engines"""
    for cls in PROP:
        for f in ck.fns(cls + "::propagate"):
            g = ck.graph(f, TRAIL + ("Candy::Clause::swap", DB + "::getBinaryWatchers"))
            w_scan1(ck, rule, f, g)


def w_scan1(ck, rule, f, g):
    prop = calls(TR + "::propagate", TR + "::set_value", TR + "::decide", TR + "::fact")
    keepseen = [0]
    # state: (watcher being examined: None | (list, key), scan machine state, clause being scanned, flags)
    # flags: sat: a literal of the watcher is known true; fired: propagated; moved: new watch literal attached; kept; good: position 1 holds a non-false literal
    INITW = (None, None, False, frozenset())

    def watcher_of(v):
        """the watcher a clause value / literal belongs to"""
        for w in walk(v):
            if isinstance(w, tuple) and w and w[0] == "elem" and (long_list(w[1]) or bin_list(w[1])): return w
        return None

    def scanned_ok(cx, clause, key):
        el = ("elem", clause, key)
        if litval(cx.facts, el) == frozenset([1]): return True
        for k, w in cx.facts.items():
            if k[0] == "eq" and w is True and el in k[1:]:
                o = k[2] if k[1] == el else k[1]
                return True      # compared with a watched literal of the same clause: skipped on purpose
        return False

    def tr(n, cx):
        if n.kind == "block": return cx.ust
        cur, scan, done, fl = cx.ust
        if prop(n, cx):
            l, why = cx.arg(0), cx.arg(1)
            w = watcher_of(why) or watcher_of(l)
            if w is None: return cx.ust
            bl = bin_list(w[1])
            cl = why
            if watcher_of(why) is None or not isclause(why): cx.run.report("a literal is propagated without the clause as its reason", n)
            if bl:
                if not (l == ("field", w, l[2]) and fieldof(l) == "other") : cx.run.report("a binary clause propagates %s instead of its other literal" % vstr(l), n)
                elif 1 in litval(cx.facts, l) and short(n.fn()) != "propagate" or litval(cx.facts, l) == frozenset([1]): cx.run.report("a false literal is propagated instead of reporting a conflict", n)
                elif 0 in litval(cx.facts, l): cx.run.report("a literal that may already be true is propagated again", n)
                elif 1 in litval(cx.facts, l): fl = fl | {"unsure"}
            else:
                if not done: cx.run.report("a clause propagates although a literal that is not false may not have been examined", n)
                vs = litval(cx.facts, l)
                for a in lits(l):
                    if watcher_of(a) != w: cx.run.report("a literal that does not belong to the clause is propagated", n)
                if vs <= frozenset([1, 2]) and 1 in vs and short(n.fn()) == "propagate": fl = fl | {"unsure"}
                elif not (vs <= frozenset([2])):
                    other = any(k[0] == "lbv" and has(k, lambda y: y == w) and s <= frozenset([2]) for k, s in cx.facts.items())
                    if not other: cx.run.report("a literal that may already be %s is propagated" % ("true" if 0 in vs else "false"), n)
            return (cur, scan, done, fl | {"fired"})
        if n.kind == "call" and n.fn() == "Candy::Clause::swap":
            w = watcher_of(cx.obj())
            if w is not None:
                a, b = cx.arg(0), cx.arg(1)
                if b == ("int", 1): a, b = b, a
                if a == ("int", 1) and b != ("int", 0):
                    c = cx.obj()
                    vs = litval(cx.facts, ("at", c, b)) if not is_elemkey(b) else None
                    known = litval(cx.facts, ("at", c, b)) & litval(cx.facts, ("elem", c, b[1] if b[0] == "ivar" else None))
                    if 1 in known: cx.run.report("a literal that may be false becomes watched", n)
                    else: fl = fl | {"good"}
            return (cur, scan, done, fl)
        if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and long_list(cx.obj()):
            o = cx.obj(); idx = o[2]
            vals = [cx.arg(i) for i in range(cx.nargs())]
            w = next((watcher_of(v) for v in vals if watcher_of(v) is not None), None)
            if w is not None and idx is not None:
                l = idx[1] if idx[0] == "neg" else ("neg", idx)
                ok = False
                if l[0] == "at" and isclause(l[1]) and l[2] == ("int", 1): ok = "good" in fl
                else: ok = 1 not in litval(cx.facts, l)
                if watcher_of(l) is None: cx.run.report("a clause is watched by %s, which is not the negation of one of its literals" % vstr(idx), n)
                elif not ok: cx.run.report("a clause is watched by a literal that may be false", n)
                fl = fl | {"moved"}
            return (cur, scan, done, fl)
        if n.kind == "write" and n.x["k"] in ("bin", "call"):
            lh, rh = cx.lhs(), cx.rhs()
            if lh[0] in ("elem", "at") and long_list(lh[1]) and rh[0] in ("elem", "at") and rh[1] == lh[1]:
                keepseen[0] += 1
                return (cur, scan, done, fl | {"kept"})
            if lh[0] == "field" and fieldof(lh) in ("watch0", "watch1") and watcher_of(lh) is not None:
                return (cur, scan, done, fl | {(fieldof(lh), rh)})
        if n.kind == "call" and short(n.fn()) == "erase" and long_list(cx.obj()):
            a, b = cx.arg(0), cx.arg(1)
            if cur is not None:
                if b[0] == "iterv" and b[1] == cur[0] and b[3] != cur[1]: cx.run.report("the wrong end of the watch list is cut off", n)
                if b == ("iter", cur[0], "end") and a[0] == "iterv": cx.run.report("the watchers that have not been examined are dropped on a conflict", n)
                if b[0] not in ("iterv", "iter"): cx.run.report("the watcher of the conflicting clause is dropped", n)
                fl = fl | {"cut"}
            else:
                if b[0] == "iter" and b[1] == cx.obj() and b[2] != "end": cx.run.report("moved watchers stay in the old list", n)
                fl = fl | {"cut"}
            return (cur, scan, done, fl)
        if n.kind == "ret":
            v = cx.val(n.x["a"]) if n.x.get("a", -1) >= 0 else ("int", 0)
            for a in either(v):
                w = watcher_of(a)
                if w is not None and isclause(a):
                    if cur is None or w[1] != cur[0]: continue
                    refused = any(k[0] == "zero" and v2 is True and k[1][0] == "call" and k[1][1] == TR + "::propagate" and has(k, lambda y: y == w) for k, v2 in cx.facts.items())
                    if refused: pass      # Trail::propagate refuses exactly the false literals
                    elif bin_list(w[1]):
                        if not litval(cx.facts, ("field", w, oth(w, cx))) <= frozenset([1]): cx.run.report("a binary clause is reported as conflict although its other literal may not be false", n)
                    else:
                        if not done: cx.run.report("a clause is reported as conflict although a literal that is not false may not have been examined", n)
                        if "fal" not in fl and not first_false(cx, w): cx.run.report("a clause is reported as conflict although its first literal may not be false", n)
                        if "moved" in fl and "cut" not in fl: pass
                    return (None, None, False, frozenset(["conflict"]))
        return cx.ust

    def oth(w, cx):
        for k in cx.facts:
            for y in walk(k):
                if isinstance(y, tuple) and y and y[0] == "field" and y[1] == w and fieldof(y) == "other": return y[2]
        return "other"

    def is_elemkey(b): return b[0] == "ivar"

    def endof(n, cx, cur, fl):
        """one watcher has been dealt with"""
        if "unsure" in fl: cx.run.report("a conflict may be overlooked: a literal that may be false is propagated", n)
        if bin_list(cur[0]): 
            if "sat" not in fl and "fired" not in fl: cx.run.report("a binary clause is skipped although its other literal may not be true", n)
            return
        if "moved" in fl and "kept" in fl: cx.run.report("a moved watcher stays in its old list", n)
        if "moved" not in fl and "kept" not in fl and ck_keep[0]: cx.run.report("a watcher is dropped although its clause is not watched elsewhere", n)
        if "moved" not in fl and "sat" not in fl and "fired" not in fl: cx.run.report("a clause is skipped although none of its literals is known to be true", n)
        ws = [x for x in fl if isinstance(x, tuple)]
        if len(ws) == 2 and "moved" in fl and ws[0][1] == ws[1][1]: cx.run.report("a clause ends up with one watched literal", n)

    ck_keep = [0]

    def edge(n, c, cx, st):
        cur, scan, done, fl = st
        if c[0] == "case": return st
        if no_clause(cx.facts): return STOP
        v = cx.g.val(n.frame, c[0], dict(cx.env))
        lc = loopcond(v, c[1])
        if lc is not None:
            C = lc[0]
            if long_list(C) or bin_list(C):
                if cur is not None and cur == (C, lc[3]): endof(n, cx, cur, fl)
                if lc[2] not in ("fwd", "rev"): cx.run.report("the watch list is not examined from its beginning", n)
                if lc[1]: return ((C, lc[3]), None, False, frozenset())
                return (None, None, False, frozenset())
            if isclause(C) or (C[0] in ("at",) and False):
                ok = True
                if scan is not None and scan[0] == lc[3]: ok = scan[1] and scan[2]
                start = lc[2]
                if start not in ("fwd", "rev", "from1", "from2"): ok = False
                if lc[1]: return (cur, (lc[3], False, ok), False, fl)
                return (cur, None, ok, fl)
        if scan is not None and not scan[1] and cur is not None:
            el = [C for C in clauses_in(cx.facts, cur)]
            for C in el:
                if scanned_ok(cx, C, scan[0]) or idx_false(cx, C, scan[0]): scan = (scan[0], True, scan[2])
        if cur is not None and "fal" not in fl and not bin_list(cur[0]) and first_false(cx, ("elem",) + cur): fl = fl | {"fal"}
        if "unsure" in fl and any(k[0] == "zero" and w is False and k[1][0] == "call" and k[1][1] == TR + "::propagate" for k, w in cx.facts.items()): fl = fl - {"unsure"}
        # a literal of the current watcher is known to be true
        if cur is not None and "sat" not in fl:
            W = ("elem",) + cur
            for k, s in cx.facts.items():
                if k[0] == "lbv" and s == frozenset([0]) and has(k, lambda y: y == W): fl = fl | {"sat"}
                if k[0] == "zero" and s is False and k[1][0] == "call" and k[1][1] == TR + "::satisfies" and has(k, lambda y: y == W): fl = fl | {"sat"}
        return (cur, scan, done, fl)

    def first_false(cx, W):
        """a literal of the watcher that is not an element of the scan is known to be false"""
        for k, s in cx.facts.items():
            if k[0] == "lbv" and s <= frozenset([1]) and has(k, lambda y: y == W):
                if not has(k, lambda y: y[0] == "elem" and y != W and has(y, lambda z: z == W) or y[0] == "ivar" and not has(W, lambda z: z == y)): return True
        return False

    def idx_false(cx, C, key):
        for k, s in cx.facts.items():
            if k[0] == "lbv" and s == frozenset([1]) and has(k, lambda y: y[0] == "at" and y[1] == C and y[2][0] == "ivar" and y[2][1] == key): return True
        return False

    def clauses_in(facts, cur):
        W = ("elem",) + cur; out = set()
        for k in facts:
            for y in walk(k):
                if isinstance(y, tuple) and y and y[0] in ("elem", "at") and isclause(y[1]) and watcher_of(y[1]) == W: out.add(y[1])
        return out
    track = lambda k: k[0] in ("lbv", "eq") or k[0] == "zero" and mentions(k, "satisfies", "falsifies", "propagate")
    # first pass finds out whether the keep idiom is used
    class Null:
        pass
    before_v = list(ck.viol)
    Run(g, tr, INITW, track, edge)
    ck_keep[0] = keepseen[0]
    if not keepseen[0]: ck.note(rule, "compaction idiom not recognised in " + f.q)
    ck.run(rule, g, tr, INITW, track, edge, subject=f.q)


def w_loop(ck, rule="propagation processes every assigned literal against binary and longer clauses until the queue is empty or a conflict is found"):
    for cls in PROP:
        for f in ck.fns(cls + "::propagate"):
            g = ck.graph(f, TRAIL + ("Candy::Clause::swap", DB + "::getBinaryWatchers"))
            B = ForEach(bin_list); L = ForEach(long_list)
            isq = lambda l: fieldof(l) == "qhead"
            def idxok(cx, c): 
                i = list_index(c)
                return True
            # state: pending literal: (binary done, long done) or None; conflict returned
            def tr(n, cx):
                if n.kind == "block": return cx.ust
                pend, = cx.ust
                if n.kind == "write" and isq(cx.lhs()):
                    if pend is not None and pend != (True, True): cx.run.report("the next literal is taken from the queue before the last one has been propagated through %s clauses" % ("binary" if not pend[0] else "longer"), n)
                    adv = n.x["k"] == "un" and n.x["op"] in ("++", "p++") or n.x["k"] == "bin" and n.x["op"] == "+=" and cx.rhs() == ("int", 1) or linear_inc(cx)
                    if not adv: cx.run.report("the queue head is moved by something else than one element", n)
                    return ((False, False),)
                if n.kind == "ret" and n.frame is g.rootframe:
                    v = cx.val(n.x["a"])
                    nul = v == ("int", 0) or any(k == ("zero", v) and w is True for k, w in cx.facts.items())
                    if nul:
                        if pend is not None and pend != (True, True): cx.run.report("propagation ends without conflict before the last literal has been propagated through %s clauses" % ("binary" if not pend[0] else "longer"), n)
                        if not empty(cx): cx.run.report("propagation ends without conflict although the queue may not be empty", n)
                return cx.ust
            def linear_inc(cx):
                r = cx.rhs()
                return r[0] == "op" and r[1] == "+" and ("int", 1) in r[2:]
            def empty(cx):
                for k, w in cx.facts.items():
                    if k[0] == "lt" and mentions(k, "qhead") and isinstance(k[2], tuple):
                        if w is False and mentions(k[1], "qhead"): return True
                    if k[0] == "eq" and w is True and mentions(k, "qhead"): return True
                return False
            def edge(n, c, cx, st):
                if c[0] == "case": return st
                if no_clause(cx.facts): return STOP
                pend, = st
                lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
                if lc is not None and not lc[1] and pend is not None:
                    if bin_list(lc[0]): pend = (True, pend[1])
                    elif long_list(lc[0]): pend = (pend[0], True)
                return (pend,)
            ck.run(rule, g, tr, (None,), lambda k: mentions(k, "qhead") or k[0] == "zero", edge, subject=f.q)


def w_detail(ck, rule="a clause only propagates or conflicts when all its other literals are false, with the clause as reason"):
    """what the scan of a watch list relies on: the false literal is at position 1 before positions from 2 on are scanned, truth
    values are not used after the literal they belong to was exchanged, both watches are kept when one moves, to a third literal"""
    for cls in PROP:
        for f in ck.fns(cls + "::propagate"):
            g = ck.graph(f, TRAIL + ("Candy::Clause::swap", DB + "::getBinaryWatchers"))
            w_detail1(ck, rule, f, g)


def w_detail1(ck, rule, f, g):
    def owner(v):
        for w in walk(v):
            if isinstance(w, tuple) and w and w[0] == "elem" and long_list(w[1]): return w
        return None
    pos = lambda v, i: v[0] == "at" and isclause(v[1]) and v[2] == ("int", i)
    isp = lambda v: v[0] == "neg" and not has(v, lambda w: isclause(w)) and owner(v) is None
    FL = ("watch0", "watch1", "blocker")
    def deps(v):
        if not has(v, lambda w: w[0] == "call" and w[1] in (TR + "::value", TR + "::satisfies", TR + "::falsifies")): return frozenset()
        return frozenset(w for w in walk(v) if isinstance(w, tuple) and w and (w[0] == "field" and fieldof(w) in FL or pos(w, 0) or pos(w, 1)))
    # state: position 1 holds the false literal, watch fields written: (field, is known to be the other watch), locals: (key, deps, stale), from2 scan running, new literal checked
    def setlocal(loc, key, v): return frozenset(x for x in loc if x[0] != key) | ({(key, deps(v), False)} if deps(v) else frozenset())
    def tr(n, cx):
        norm, wr_, loc, cur, pushed, third = cx.ust
        if n.kind == "decl":
            for v in n.x["vars"]:
                if v.get("init", -1) >= 0 and not v.get("ref"): loc = setlocal(loc, ("v", n.frame.key, v["d"]), cx.val(v["init"]))
        elif n.kind == "write":
            lh = cx.lhs()
            if lh[0] == "local":
                if cx.rhs() is not None: loc = setlocal(loc, lh[1], cx.rhs())
            elif lh[0] == "field" and fieldof(lh) in FL:
                loc = frozenset((k, d, st or lh in d and cx.rhs() != lh) for k, d, st in loc)
                if fieldof(lh) != "blocker":
                    other = any(k[0] == "eq" and v is False and lh in k[1:] and any(isp(x) for x in k[1:]) for k, v in cx.facts.items())
                    wr_ = wr_ | {(fieldof(lh), other)}
        elif n.kind == "call" and n.fn() == "Candy::Clause::swap" and owner(cx.obj()) is not None:
            a = {cx.arg(0), cx.arg(1)}
            if a == {("int", 0), ("int", 1)}:
                if any(k[0] == "eq" and (v is True and any(pos(x, 0) for x in k[1:]) or v is False and any(pos(x, 1) for x in k[1:])) and any(isp(x) for x in k[1:]) for k, v in cx.facts.items()): norm = True
            loc = frozenset((k, d, st or any(w[0] == "at" and w[2] in a for w in d)) for k, d, st in loc)
        elif n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and long_list(cx.obj()) and cur is not None:
            pushed = True
            i = cx.obj()[2]
            l = i[1] if i[0] == "neg" else ("neg", i)
            if l[0] == "elem" and isclause(l[1]) and not cur:
                if third != l: cx.run.report("a watch can move to the literal that is already watched", n)
        return (norm, wr_, loc, cur, pushed, third)
    def edge(n, c, cx, st):
        if c[0] == "case": return st
        norm, wr_, loc, cur, pushed, third = st
        if no_clause(cx.facts): return STOP
        if any(x[2] for x in loc):
            fn = n.frame.func
            stale = {x[0] for x in loc if x[2]}
            for e in fn.subtree(c[0]):
                d = fn.localref(e)
                if d is not None and ("v", n.frame.key, d) in stale: cx.run.report("the truth value of a literal is used after the literal has been exchanged", n)
        v = cx.g.val(n.frame, c[0], dict(cx.env))
        lc = loopcond(v, c[1])
        if lc is not None and long_list(lc[0]):
            if pushed:
                if len(wr_) == 1 and next(iter(wr_))[1]: cx.run.report("the other watch of a clause is lost when a watch moves", n)
            return (False, frozenset(), frozenset(), False, False, None)
        if not norm and any(k[0] == "eq" and (w is False and any(pos(x, 0) for x in k[1:]) or w is True and any(pos(x, 1) for x in k[1:])) and any(isp(x) for x in k[1:]) for k, w in cx.facts.items()): norm = True
        if lc is not None and isclause(lc[0]):
            if lc[2] == "from2":
                if not norm: cx.run.report("literals are examined from the third on while the false literal may be the first one", n)
                cur = True
            elif lc[2] == "from1": cur = True
            third = None
        elif third is None:
            for k, w in cx.facts.items():
                if k[0] == "eq" and w is False:
                    for l, x in ((k[1], k[2]), (k[2], k[1])):
                        if l[0] == "elem" and isclause(l[1]) and not isclause(x) and (has(x, lambda y: y[0] == "field" and fieldof(y) in FL or pos(y, 0) or pos(y, 1)) or x[0] in ("obj", "phi")): third = l
        return (norm, wr_, loc, cur, pushed, third)
    track = lambda k: k[0] in ("lbv", "eq") or k[0] == "zero" and mentions(k, "satisfies", "falsifies", "propagate")
    ck.run(rule, g, tr, (False, frozenset(), frozenset(), None, False, None), track, edge, subject=f.q + " (details)")



P07 = [w_scan, w_detail, w_loop]
