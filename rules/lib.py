"""Rule library: obligations, default inlining policy, event matchers and the generic rule shapes."""
import json, os, re, sys, time
from engine.core import *
from engine.extract import AnalysisError, REPO, VERIF

# accessors that the value language knows; inlining them would only hide the canonical form
LEAF = ("Candy::Lit::", "Candy::Var::", "Candy::lbool::", "Candy::mkLit", "Candy::toInt", "Candy::operator")
CLAUSE_LEAF = {"Candy::Clause::" + m for m in ("operator[]", "begin", "end", "size", "first", "second", "third", "back", "contains", "isPersistent",
               "isLearnt", "isDeleted", "getLBD", "printDIMACS")}


def is_leaf(q):
    return q.startswith(LEAF) or q in CLAUSE_LEAF or q in KEEP or short(q) in ITERS or "::const_iterator" in q


class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.viol = []; self.notes = []; self.obl = []; self.assume = []; self.undecided = []
        self.stats = {"functions_analysed": set(), "abstract_states": 0, "supergraph_nodes": 0}
        self.rules = {}
        self.prog = None
        self._g = {}

    # -- results
    def ok(self, rule, subject):
        self.rules.setdefault(rule, [0, 0])[0] += 1
        self.obl.append((rule, subject, "holds"))

    def bad(self, rule, subject, where, msg, trace=()):
        key = (rule, where, msg)
        if any(v["key"] == key for v in self.viol): return
        self.rules.setdefault(rule, [0, 0])[1] += 1
        self.viol.append({"key": key, "rule": rule, "subject": subject, "where": where, "msg": msg, "trace": list(trace)})

    def judge(self, rule, subject, cond, where, msg, trace=()):
        if cond: self.ok(rule, subject)
        else: self.bad(rule, subject, where, msg, trace)
        return cond

    def note(self, rule, msg): 
        if (rule, msg) not in self.notes: self.notes.append((rule, msg))

    # -- building
    def fns(self, q):
        return self.prog.fn(q)

    def inst(self, q, which=None):
        """representative instantiations of a member of the solver template (all of them in the thorough tier)"""
        fs = sorted(self.prog.fn(q), key=lambda f: f.id)
        if which is not None:
            return [f for f in fs if which in f.pretty or which in f.id] or fs[:1]
        if len(fs) <= 2 or self.tier == "thorough": return fs
        out = []
        for pat in ("_9PropagateENS_16ConflictAnalysisENS_5VSIDSE", "StaticPropagateENS_16ConflictAnalysisENS_5VSIDSE"):
            c = [f for f in fs if pat in f.id]
            if c and c[0] not in out: out.append(c[0])
        return out or fs[:2]

    def graph(self, f, prims=(), only=None, this=("this",), args=None, leaf=True, maxdepth=12):
        if isinstance(f, str): f = self.prog.fn(f)[0]
        ps = frozenset(prims)
        key = (f.id, ps, only, this, tuple(args) if args else None, leaf)
        g = self._g.get(key)
        if g is None:
            pre = tuple(p[:-1] for p in ps if p.endswith("*"))
            exact = set(p for p in ps if not p.endswith("*"))
            def pol(t, fr):
                if "/src/candy/" not in t.file: return False
                if t.q in exact or (pre and t.q.startswith(pre)): return False
                if leaf and is_leaf(t.q): return False
                if t.q.startswith("Candy::Sonification") : return False
                if only is not None and not only(t.q): return False
                return True
            g = Graph(self.prog, f, pol, this=this, args=args, maxdepth=maxdepth)
            self._g[key] = g
            self.stats["supergraph_nodes"] += len(g.nodes)
        for fr in g.frames: self.stats["functions_analysed"].add(fr.func.id)
        return g

    def run(self, rule, g, transfer, init=None, track=None, edge=None, cap=400000, final=None, subject=None, fe=()):
        """run a rule automaton; its reports become violations, otherwise one obligation is discharged.
        fe: traversal machines used by the automaton (a first run finds the loops they are about)"""
        if fe:
            tr0 = (lambda key: True) if track == "all" else track if track is not None else (lambda key: False)
            for m in fe: m.keys = None
            Run(g, transfer, init, tr0, edge, cap)
            for m in fe: m.freeze()
        tr = (lambda key: True) if track == "all" else track if track is not None else (lambda key: False)
        r = Run(g, transfer, init, tr, edge, cap)
        self.stats["abstract_states"] += r.nstates
        if final is not None:
            for (ni, kind), L in r.final.items():
                for ust, facts, st in L:
                    m = final(kind, ust, facts, Ctx(g, g.nodes[ni], facts, dict(st[2]), ust, r))
                    if m: 
                        r.violations.append((m, self.lastnode(g, r, st), st))
        sub = subject or g.root.pretty
        if not r.violations: self.ok(rule, sub)
        for msg, n, st in r.violations:
            self.bad(rule, sub, n.line() if n is not None else g.root.where(), msg, r.trace(st))
        return r

    def lastnode(self, g, r, st):
        """last node with a source position on the path to st"""
        while st is not None:
            n = g.nodes[st[0]]
            if n.x is not None: return n
            st = r.pred.get(st)
        return None


# ---------------------------------------------------------------- matchers
def calls(*names):
    S = set(n for n in names if not n.endswith("*")); P = tuple(n[:-1] for n in names if n.endswith("*"))
    return lambda n, cx=None: n.kind in ("call", "ctor") and n.x is not None and (n.fn() in S or bool(P) and n.fn().startswith(P))


def meth(*shorts):
    S = set(shorts)
    return lambda n, cx=None: n.kind in ("call",) and short(n.fn()) in S


def fieldof(v):
    """unqualified name of the field an access path ends in, else None"""
    return v[2].rsplit("::", 1)[-1] if isinstance(v, tuple) and v and v[0] == "field" else None


def has(v, pred):
    return any(isinstance(w, tuple) and w and pred(w) for w in walk(v))


def mentions(v, *names):
    """does the value mention a field / callee / variable with one of these unqualified names"""
    S = set(names)
    for w in walk(v):
        if isinstance(w, tuple) and w:
            if w[0] == "field" and w[2].rsplit("::", 1)[-1] in S: return True
            if w[0] in ("call", "glob", "param", "mk") and isinstance(w[1], str) and w[1].rsplit("::", 1)[-1] in S: return True
            if w[0] in ("obj", "var") and len(w) > 2 and w[2] in S: return True
    return False


def tracks(*names):
    return lambda key: mentions(key, *names)


def either(v):
    """alternatives of a value"""
    if v[0] == "phi": return list(v[1])
    if v[0] == "cond": return either(v[2]) + either(v[3])
    return [v]


# ---------------------------------------------------------------- loops
def loopcond(v, pol):
    """(container, kind, key) when condition v with polarity pol means 'there is a further element' of a traversal, and
    (container, kind, key, False) style information for the exit edge: returns (container, more?, kind, key) or None"""
    if v[0] == "not": return loopcond(v[1], not pol)
    if v[0] == "op" and v[1] in ("!=", "==", "<", ">", "<=", ">="):
        op, a, b = v[1], v[2], v[3]
        if op == "==": op = "!="; pol = not pol
        if op == "!=":
            if b[0] in ("iterv", "ivar") and a[0] not in ("iterv", "ivar"): a, b = b, a
            if a[0] == "iterv":
                if b[0] == "iter" and b[1] == a[1] and ((a[2] == 0 and b[2] == "end") or (a[2] == "rbegin" and b[2] == "rend")):
                    return (a[1], pol, "fwd" if a[2] == 0 else "rev", a[3])
                if b[0] == "iter" and b[1] == a[1] and b[2] == "end" and isinstance(a[2], int): return (a[1], pol, "from%s" % a[2], a[3])
            if a[0] == "ivar" and a[2][0] == "param" and b[0] == "param": return (("range", a[2], b), pol, "fwd", a[1])
            if a[0] == "ivar" and b[0] == "size" and is_int(a[2]): return (b[1], pol, "fwd" if a[2][1] == 0 else "from%d" % a[2][1], a[1])
        if op in (">", "<=") :
            a, b = b, a; op = {">": "<", "<=": ">="}[op]
        if op == ">=": op = "<"; pol = not pol
        if op == "<" and a[0] == "ivar" and b[0] == "size" and is_int(a[2]) and a[3] in (("++",), ("p++",), ("op",)):
            return (b[1], pol, "fwd" if a[2][1] == 0 else "from%d" % a[2][1], a[1])
    return None


class ForEach:
    """'every element of a container receives event E unless exempt'.  A small state machine to be embedded in a rule automaton:
    state (current, done): current None | (handled, all handled so far, loop key); done: a complete pass has been made."""
    INIT = (None, False)

    def __init__(self, container, event=None, exempt=None, bulk=None, order=None):
        self.container = container; self.event = event; self.exempt = exempt; self.bulk = bulk; self.order = order
        self.keys = None; self.seen = set()      # loops in which the event occurs (found by a first run)

    def freeze(self): self.keys = set(self.seen)

    def step(self, n, cx, st):
        cur, done = st
        if cur is not None and n.kind == "decl" and cur[2][0] == "v" and any(("v", n.frame.key, v["d"]) == cur[2] for v in n.x.get("vars") or []):
            return (None, done)        # the loop was left early and starts anew
        if n.kind == "algoloop":
            lc = algocond(n, cx)
            if lc is not None and (self.keys is None or n.extra in self.keys) and self.container(lc[0]):
                if cur is not None and cur[2] == n.extra: return ((False, cur[1] and cur[0], n.extra), done)
                return ((False, True, n.extra), done)
        if n.kind == "leave" and cur is not None and cur[2] == ("algo", n.frame.key, n.e):
            return (None, done or cur[1])
        if self.bulk is not None and n.kind in ("call", "ctor", "write") and self.bulk(n, cx): return (cur, True)
        if cur is not None and not cur[0] and self.event is not None and self.event(n, cx):
            self.seen.add(cur[2])
            return ((True,) + cur[1:], done)
        return st

    def edge(self, n, c, cx, st):
        cur, done = st
        if c[0] != "case":
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            lc = loopcond(v, c[1])
            if lc is not None and (self.keys is None or lc[3] in self.keys) and self.container(lc[0]) and (lc[2] in ("fwd", "rev") if self.order is None else lc[2] == self.order):
                allok = True
                if cur is not None and cur[2] == lc[3]: allok = cur[0] and cur[1]
                if lc[1]: return ((False, allok, lc[3]), done)
                return (None, done or allok)
        if cur is not None and not cur[0] and self.exempt is not None and self.exempt(cx):
            if self.event is None: self.seen.add(cur[2])
            return ((True,) + cur[1:], done)
        return st


class ForPairs:
    """'every pair of an element of one container and one of another receives event E': two nested traversals.
    state (outer cursor, done, inner state)"""
    INIT = (None, False, (None, False))

    def __init__(self, conts, event, exempt=None):
        self.inner = ForEach(lambda c: c in conts, event, exempt)
        self.outer = ForEach(lambda c: c in conts)

    @property
    def keys(self): return None
    @keys.setter
    def keys(self, v): self.inner.keys = self.outer.keys = v

    def freeze(self):
        self.inner.freeze(); self.outer.seen -= self.inner.seen; self.outer.freeze()

    def post(self, st, i):
        cur, done, old = st
        if cur is not None and i[1]:
            self.outer.seen.add(cur[2])
            return ((True,) + cur[1:], done, (i[0], False))
        return (cur, done, i)

    def step(self, n, cx, st):
        return self.post(st, self.inner.step(n, cx, st[2]))

    def edge(self, n, c, cx, st):
        i = self.inner.edge(n, c, cx, st[2])
        st = self.post(st, i)
        o = self.outer.edge(n, c, cx, st[:2]) if self.outer.keys is None or not self._isinner(n, c, cx) else st[:2]
        return o + (st[2],)

    def _isinner(self, n, c, cx):
        if c[0] == "case": return False
        lc = loopcond(cx.g.val(n.frame, c[0], dict(cx.env)), c[1])
        return lc is not None and lc[3] in self.inner.keys


def algocond(n, cx):
    """container of a std algorithm with an inlined lambda, when it traverses the full range"""
    a = n.frame.func.x[n.e]["args"]
    x, y = cx.g.val(n.frame, a[0]), cx.g.val(n.frame, a[1])
    if x[0] == "iter" and y[0] == "iter" and x[1] == y[1] and x[2] == 0 and y[2] == "end": return (x[1], "fwd")
    if x[0] == "iter" and y[0] == "iter" and x[1] == y[1] and x[2] == "rbegin" and y[2] == "rend": return (x[1], "rev")
    return None


# ---------------------------------------------------------------- generic rule shapes
def only_when(ck, rule, g, event, guard, msg, track=None, subject=None, need=False, edge=None):
    """each occurrence of the event happens under the guard"""
    hits = [0]
    def tr(n, cx):
        if n.kind not in ("block",) and event(n, cx):
            hits[0] += 1
            if not guard(cx): cx.run.report(msg(cx) if callable(msg) else msg, n)
        return None
    r = ck.run(rule, g, tr, None, track, edge, subject=subject)
    if need and not hits[0]: ck.note(rule, "no occurrence in " + g.root.q)
    return hits[0]


def must(ck, rule, g, event, msg, unless=None, track=None, subject=None, init=False):
    """the event happens on every path to a normal exit, unless the exit's facts excuse it"""
    def tr(n, cx):
        if not cx.ust and n.kind != "block" and event(n, cx): return True
        return cx.ust
    def fin(kind, ust, facts, cx):
        if kind == "exit" and not ust and not (unless is not None and unless(facts, cx)): return msg
    return ck.run(rule, g, tr, init, track, final=fin, subject=subject)


def before(ck, rule, g, first, then, msg, reset=None, track=None, subject=None):
    """`then` only happens after `first` (since the last `reset`)"""
    def tr(n, cx):
        if n.kind == "block": return cx.ust
        if reset is not None and reset(n, cx): return False
        if first(n, cx): return True
        if then(n, cx) and not cx.ust: cx.run.report(msg, n)
        return cx.ust
    return ck.run(rule, g, tr, False, track, subject=subject)


def follows(ck, rule, g, trigger, event, msg, forbidden=None, unless=None, track=None, subject=None):
    """after `trigger`, `event` happens before the exit (and before `forbidden`)"""
    def tr(n, cx):
        if n.kind == "block": return cx.ust
        if event(n, cx): return False
        if cx.ust and forbidden is not None and forbidden(n, cx):
            cx.run.report(msg, n); return False
        if trigger(n, cx): return True
        return cx.ust
    def fin(kind, ust, facts, cx):
        if kind == "exit" and ust and not (unless is not None and unless(facts, cx)): return msg
    return ck.run(rule, g, tr, False, track, final=fin, subject=subject)


def on(field, *shorts):
    """call of one of the methods on an object that is the given field (of anything)"""
    S = set(shorts)
    return lambda n, cx: n.kind == "call" and short(n.fn()) in S and n.x.get("obj", -1) >= 0 and fieldof(cx.obj()) == field


def wr(pred):
    """assignment whose target satisfies pred"""
    return lambda n, cx: n.kind == "write" and pred(cx.lhs())


def P(f, n):
    """value of the n-th parameter of f at its own root graph"""
    return ("param", f.params[n]["n"] or "arg%d" % n, n, f.id)


def lbs(facts, v, S):
    """is the lifted boolean v known to lie in S (subset of {0: true, 1: false, 2: undefined})?"""
    S = frozenset(S)
    if v[0] == "lb": return v[1] in S
    if v[0] in ("phi", "cond"): return all(lbs(facts, a, S) for a in either(v))
    if v[0] == "lbxor" and is_int(v[2]):
        return lbs(facts, v[1], S if not v[2][1] else frozenset({0: 1, 1: 0, 2: 2}[q] for q in S))
    o = facts.get(("lbv", v))
    return o is not None and o <= S


def lbv_of(facts, v):
    """known value set of a lifted boolean"""
    if v[0] == "lb": return frozenset([v[1]])
    if v[0] in ("phi", "cond"):
        r = frozenset()
        for a in either(v): r |= lbv_of(facts, a)
        return r
    return facts.get(("lbv", v), frozenset([0, 1, 2]))


# ---------------------------------------------------------------- program-wide queries
def sites(prog, *names):
    """(func, elem, node) of every direct call of a function with one of these names, once per source position"""
    S = set(names); seen = set()
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        for e, x in f.elems():
            if x["k"] in ("call", "ctor") and x.get("fn") in S:
                k = (f.file, x.get("l"), x.get("c"), x.get("fn"))
                if k in seen and "Solver" not in f.q: continue
                seen.add(k)
                yield f, e, x


def writes(prog, *fields):
    """(func, elem, node, kind) of every direct modification of one of these fields"""
    S = set(fields)
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        for e, x in f.elems():
            k = x["k"]
            tgt = None
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): tgt = x["a"]
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"): tgt = x["a"]
            elif k == "init" and x.get("f") in S:
                yield f, e, x, "init"; continue
            elif k == "call":
                fn = x.get("fn", ""); sn = short(fn)
                if x.get("obj", -1) >= 0 and not x.get("const") and not prog.targets(x) and sn not in CONTAINER_RO: tgt = x["obj"]
                elif x.get("obj", -1) < 0 and not prog.targets(x) and sn not in READONLY_STD:
                    pts = dict(zip(x.get("args", []), x.get("pt", [])))
                    for a in outargs(sn, x.get("args", [])):
                        if pts.get(a, "").startswith("const "): continue
                        r = prog.lvfield(f, a)
                        if r is not None and r[0] == "F" and r[1] in S: yield f, e, x, "algo"
                    continue
            if tgt is None: continue
            r = prog.lvfield(f, tgt)
            if r is not None and r[0] == "F" and r[1] in S: yield f, e, x, k


def only_via(ck, rule, targets, gates, what, allowed=()):
    """every call path from outside to one of the functions `targets` passes through a function named in `gates`.
    A target (or a helper between gate and target) that is callable from anywhere else is a violation."""
    prog = ck.prog
    rev = {}
    for f in prog.funcs.values():
        for c in prog.callees(f): rev.setdefault(c, set()).add(f.id)
    G = set(gates) | set(allowed)
    for t in sorted(targets, key=lambda f: f.id):
        if t.q in G: ck.ok(rule, t.q); continue
        seen = set(); work = [t.id]; badp = None
        while work and badp is None:
            i = work.pop()
            if i in seen: continue
            seen.add(i)
            cs = [c for c in rev.get(i, ()) if c in prog.funcs]
            if not cs:
                badp = prog.funcs[i]; break
            for c in cs:
                if prog.funcs[c].q in G: continue
                work.append(c)
        if badp is None: ck.ok(rule, t.q)
        else: ck.bad(rule, t.q, badp.where(), "%s: %s is reachable through %s without passing %s" % (what, t.q, badp.q, " / ".join(sorted(gates))))


# ---------------------------------------------------------------- text output
def out_event(n, cx):
    """(root stream value, token) for a stream insertion; token: ("s", text) | ("v", value) | ("endl",)"""
    if n.kind != "call" or short(n.fn()) != "operator<<": return None
    if n.x.get("obj", -1) >= 0: st, v = cx.val(n.x["obj"]), cx.arg(0)
    elif cx.nargs() == 2: st, v = cx.arg(0), cx.arg(1)
    else: return None
    while st[0] == "call" and short(st[1]) == "operator<<":
        st = st[2] if st[2] is not None and st[2][0] != "none" else st[3][0]
    if v[0] == "str": tok = ("s", v[1])
    elif v[0] == "fn": tok = ("endl",) if short(v[2]) == "endl" else ("manip", short(v[2]))
    elif v[0] == "int" and cx.g.prog is not None and n.x.get("pt", [""])[-1] in ("char", "unsigned char"): tok = ("s", chr(v[1] & 255))
    elif v[0] == "int": tok = ("s", str(v[1]))
    else: tok = ("v", v)
    return st, tok


def linear(v, sign, env):
    """value as (coefficient of the variable index, constant) for a literal of the given sign; env collects the literal"""
    k = v[0]
    if k == "int": return (0, v[1])
    if k == "var_of":
        if env.setdefault("lit", v[1]) != v[1]: return None
        return (1, 0)
    if k == "op" and v[1] in ("+", "-", "*"):
        a, b = linear(v[2], sign, env), linear(v[3], sign, env)
        if a is None or b is None: return None
        if v[1] == "+": return (a[0] + b[0], a[1] + b[1])
        if v[1] == "-": return (a[0] - b[0], a[1] - b[1])
        if a[0] == 0: return (a[1] * b[0], a[1] * b[1])
        if b[0] == 0: return (b[1] * a[0], b[1] * a[1])
        return None
    if k == "un" and v[1] == "-":
        a = linear(v[2], sign, env)
        return None if a is None else (-a[0], -a[1])
    if k == "cond":
        c = boolsign(v[1], sign, env)
        if c is None: return None
        return linear(v[2] if c else v[3], sign, env)
    if k == "sign_of":
        if env.setdefault("lit", v[1]) != v[1]: return None
        return (0, sign)
    return None


def boolsign(v, sign, env):
    if v[0] == "not":
        r = boolsign(v[1], sign, env); return None if r is None else not r
    if v[0] == "sign_of":
        if env.setdefault("lit", v[1]) != v[1]: return None
        return bool(sign)
    if v[0] == "op" and v[1] in ("==", "!=") and is_int(v[3]):
        r = boolsign(v[2], sign, env)
        return None if r is None else ((int(r) == v[3][1]) == (v[1] == "=="))
    if v[0] == "int": return bool(v[1])
    return None


def dimacs_of(v, facts=None):
    """the literal l when v is the signed, one-based number of l in DIMACS notation; False when v is an affine form of a
    literal that is not its DIMACS number; None when the form is not recognised"""
    env = {}
    if has(v, lambda w: w[0] == "narrow"): return False      # the number is truncated
    r0, r1 = linear(v, 0, env), linear(v, 1, env)
    if r0 is None or r1 is None or "lit" not in env: return None
    if facts is not None:
        # a branch on the sign decides which case is needed
        for k, val in facts.items():
            if k == ("zero", ("sign_of", env["lit"])):
                if val and r0 == (1, 1): return env["lit"]
                if not val and r1 == (-1, -1): return env["lit"]
                return False
    if r0 == (1, 1) and r1 == (-1, -1): return env["lit"]
    return False


def only_if_unset(ck, f, e):
    """call e of f is reached only when a Boolean parameter of f is false (e.g. 'not input')"""
    bs = [P(f, i) for i, p in enumerate(f.params) if p["t"] == "bool"]
    if not bs: return False
    g = ck.graph(f, ("Candy::*",))
    seen = []
    def tr(n, cx):
        if n.e == e and n.frame is g.rootframe and n.kind in ("call", "ctor"): seen.append(any(cx.facts.get(("zero", b)) is True for b in bs))
        return None
    Run(g, tr, None, lambda k: k[0] == "zero" and k[1] in bs)
    return bool(seen) and all(seen)
