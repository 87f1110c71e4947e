"""Program model, value canonicalisation, inlined supergraph and the exploded-graph dataflow engine.

Nothing here runs the analysed program: values are canonical access paths obtained by copy propagation
(reaching definitions), guards are branch conditions that hold on every path of the abstract state, and the
engine is a worklist fixpoint over (program point, finite abstract state)."""
import re, sys
from functools import lru_cache
from .extract import AnalysisError, load

sys.setrecursionlimit(20000)

ITER_RE = re.compile(r"iterator|^(const )?Candy::Lit \*$")
READONLY_STD = {"find", "find_if", "any_of", "all_of", "none_of", "min_element", "max_element", "distance", "accumulate",
                "count", "count_if", "equal", "max", "min", "move", "forward", "ref", "cref", "begin", "end", "get", "binary_search",
                "is_sorted", "includes", "back_inserter", "inserter", "tie", "make_pair", "make_tuple", "make_unique", "make_shared", "advance", "next", "prev", "abs"}
OUTARG = {"copy": (2,), "copy_if": (2,), "copy_n": (2,), "transform": (2, 3), "remove_copy_if": (2,), "remove_copy": (2,), "set_union": (4,), "set_difference": (4,), "set_intersection": (4,), "for_each": ()}


def outargs(sn, args):
    """arguments through which a std algorithm modifies a sequence"""
    o = OUTARG.get(sn)
    return list(args) if o is None else [a for i, a in enumerate(args) if i in o]


STORE_ONLY = {"emplace_back", "push_back", "emplace", "insert", "push", "emplace_front", "push_front", "make_pair", "make_tuple", "assign", "operator<<", "make_unique", "make_shared"}   # forwarding references that are only copied from
PASS_STD = {"move", "forward", "ref", "cref", "addressof", "as_const"}
CONTAINER_RO = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "at", "operator[]", "front", "back", "data", "find",
                "count", "c_str", "length", "capacity", "get", "operator*", "operator->", "operator bool", "substr", "compare", "max_size", "top", "is_open", "good", "lower_bound", "upper_bound", "crbegin", "crend", "operator==", "operator!=", "operator<", "operator+", "operator-", "load"}
ALGO_LAMBDA = {"for_each", "copy_if", "any_of", "all_of", "none_of", "find_if", "remove_if", "sort", "min_element", "max_element", "count_if", "transform", "accumulate", "partition", "stable_sort", "generate", "stable_partition"}

# accessors whose calls are canonical atoms of the value language (their own bodies are checked by the algebra rules)
KEEP = {
    "Candy::Trail::value", "Candy::Trail::level", "Candy::Trail::reason", "Candy::Trail::decisionLevel",
    "Candy::Trail::nVars", "Candy::Trail::isDecisionVar",
    "Candy::Clause::getLBD", "Candy::Clause::isDeleted", "Candy::Clause::isLearnt", "Candy::Clause::isPersistent", "Candy::Clause::contains",
}
ITERS = {"begin": 0, "cbegin": 0, "end": "end", "cend": "end", "rbegin": "rbegin", "crbegin": "rbegin", "rend": "rend", "crend": "rend"}
NARROW = {"short", "unsigned short", "char", "signed char", "unsigned char"}
FIRSTN = {"Candy::Clause::first": 0, "Candy::Clause::second": 1, "Candy::Clause::third": 2}


def mutref(pt, rv=False):
    """is the parameter type a reference through which the callee can modify its argument"""
    if not pt.endswith("&"): return False
    if pt.endswith("&&"): return rv
    b = pt[:-1].rstrip()
    if b.endswith("*") or "(" in b: return True
    return not (b.endswith("const") or b.startswith("const "))


def short(fn):
    return fn.rsplit("::", 1)[-1] if not fn.startswith("operator") else fn


def is_int(v):
    return isinstance(v, tuple) and v and v[0] == "int"


class Func:
    def __init__(self, raw, prog):
        self.raw = raw
        self.prog = prog
        self.id = raw["id"]
        self.q = raw["q"]
        self.pretty = raw["pretty"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.x = raw["x"]
        self.params = raw["params"]
        self.cls = raw.get("cls")
        self.kind = raw.get("kind")
        self.blocks = {b["b"]: b for b in raw.get("blocks", [])}
        self.entry = raw.get("entry")
        self.exit = raw.get("exit")
        self._pos = None
        self._defs = None
        self._reach = {}

    def where(self, i=None):
        l = self.line if i is None else self.x[i].get("l", self.line)
        return "%s:%s" % (self.file.replace("/repo/", ""), l)

    @property
    def pos(self):
        if self._pos is None:
            self._pos = {}
            for b in self.blocks.values():
                for n, e in enumerate(b["e"]):
                    self._pos.setdefault(e, (b["b"], n))
        return self._pos

    def elems(self):
        for b in self.raw.get("blocks", []):
            for e in b["e"]:
                yield e, self.x[e]

    def strip(self, i):
        while i is not None and i >= 0 and self.x[i]["k"] == "cast":
            i = self.x[i]["a"]
        return i

    def localref(self, i):
        """decl id when expression i is (a cast of) a reference to a local variable or parameter"""
        i = self.strip(i)
        if i is None or i < 0: return None
        x = self.x[i]
        if x["k"] == "ref" and x["dk"] in ("var", "param"):
            return x["d"]
        return None

    def lvroot(self, i):
        """decl id of the local object an lvalue expression is rooted in (through fields, subscripts), else None"""
        while True:
            i = self.strip(i)
            if i is None or i < 0: return None
            x = self.x[i]
            k = x["k"]
            if k == "ref": return x["d"] if x["dk"] in ("var", "param") else None
            if k == "mem":
                if x.get("arrow"): return None
                i = x["b"]
            elif k == "idx": i = x["a"]
            elif k == "call" and x.get("obj", -1) is not None and x.get("obj", -1) >= 0 and short(x.get("fn", "")) in ("operator[]", "at", "front", "back"): i = x["obj"]
            else: return None

    @property
    def defs(self):
        """declid -> list of (kind, elem, rhs expr or None); kinds: param, decl, asg, inc, opasg, mut (object mutated in place)"""
        if self._defs is not None:
            return self._defs
        D = {}
        self.decls = {}
        self.refvars = set()
        for n, p in enumerate(self.params):
            D.setdefault(p["d"], []).append(("param", None, n))
            self.decls[p["d"]] = p
            if p["ref"]: self.refvars.add(p["d"])
        for e, x in self.elems():
            k = x["k"]
            if k == "decl":
                for v in x["vars"]:
                    self.decls[v["d"]] = v
                    if v["ref"]: self.refvars.add(v["d"])
                    D.setdefault(v["d"], []).append(("decl", e, v.get("init", -1)))
            elif k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                d = self.localref(x["a"])
                if d is not None:
                    D.setdefault(d, []).append(("asg" if x["op"] == "=" else "opasg", e, x["b"]))
                else:
                    r = self.lvroot(x["a"])
                    if r is not None: D.setdefault(r, []).append(("mut", e, None))
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                d = self.localref(x["a"])
                if d is not None: D.setdefault(d, []).append(("inc", e, x["op"]))
                else:
                    r = self.lvroot(x["a"])
                    if r is not None: D.setdefault(r, []).append(("mut", e, None))
            elif k == "un" and x["op"] == "&":
                d = self.localref(x["a"])
                if d is not None: D.setdefault(d, []).append(("mut", e, None))
            elif k == "call":
                sn = short(x.get("fn", ""))
                o = x.get("obj", -1)
                if o >= 0 and x.get("opcall") in ("++", "--"):
                    d = self.localref(o)
                    if d is not None: D.setdefault(d, []).append(("inc", e, x["opcall"])); continue
                if o >= 0 and x.get("opcall") == "=":
                    d = self.localref(o)
                    if d is not None: D.setdefault(d, []).append(("asg", e, x["args"][0])); continue
                if o >= 0 and x.get("opcall") in ("+=", "-="):
                    d = self.localref(o)
                    if d is not None: D.setdefault(d, []).append(("opasg", e, x["args"][0])); continue
                if o >= 0 and not x.get("const"):
                    ro = x.get("fn", "").startswith("std::") and sn in CONTAINER_RO
                    if not ro:
                        oi = self.strip(o)
                        ox = self.x[oi]
                        if not ox.get("t", "").endswith("*"):
                            r = self.lvroot(o)
                            if r is not None: D.setdefault(r, []).append(("mut", e, None))
                for a, pt in zip(x.get("args", []), x.get("pt", [])):
                    if sn in STORE_ONLY and x.get("fn", "").startswith("std::"): continue
                    if mutref(pt):
                        d = self.lvroot(a)
                        if d is not None: D.setdefault(d, []).append(("mut", e, None))
                    elif pt.endswith("&&") and not (x.get("fn", "").startswith("std::")):
                        d = self.localref(a)
                        if d is not None: D.setdefault(d, []).append(("mut", e, None))
                if x.get("fn", "").startswith("std::") and sn not in READONLY_STD and x.get("obj", -1) < 0:
                    # std algorithms mutate through iterators
                    for a in outargs(sn, x.get("args", [])):
                        ai = self.strip(a)
                        if ai >= 0 and self.x[ai]["k"] == "call" and short(self.x[ai].get("fn", "")) in ("begin", "end", "rbegin", "data"):
                            r = self.lvroot(self.x[ai].get("obj", -1))
                            if r is not None: D.setdefault(r, []).append(("mut", e, None))
            elif k == "lambda":
                for c in x["caps"]:
                    if c.get("byref") and "d" in c and self.prog.lambda_writes(x["fid"], c["d"]):
                        D.setdefault(c["d"], []).append(("mut", e, None))
        self._defs = D
        return D

    def kids(self, i):
        x = self.x[i]
        for k in ("a", "b", "c", "obj", "ce", "init"):
            v = x.get(k, -1)
            if isinstance(v, int) and v >= 0 and x["k"] not in ("lit", "flit"): yield v
        for k in ("args", "ch"):
            for v in x.get(k, ()):
                if isinstance(v, int) and v >= 0: yield v
        for v in x.get("vars", ()):
            if v.get("init", -1) >= 0: yield v["init"]

    def subtree(self, i, seen=None):
        seen = set() if seen is None else seen
        st = [i]
        while st:
            j = st.pop()
            if j in seen: continue
            seen.add(j); st += list(self.kids(j))
        return seen

    def live_in(self):
        """block -> set of ("v", decl) and ("ret", call element) whose current definition may still be evaluated"""
        if getattr(self, "_live", None) is not None: return self._live
        D = self.defs
        refs = {}      # decl -> elements referring to it
        esc = set()
        for e in range(len(self.x)):
            x = self.x[e]
            if x["k"] == "ref" and x["dk"] in ("var", "param"): refs.setdefault(x["d"], set()).add(e)
            if x["k"] == "lambda":
                for c in x["caps"]:
                    if "d" in c: esc.add(c["d"])
        parents = {}
        for e in range(len(self.x)):
            for c in self.kids(e): parents.setdefault(c, set()).add(e)
        # value dependencies: definition of y uses expression e
        defsub = {}
        for y, L in D.items():
            s = set()
            for k, e, r in L:
                if k in ("decl", "asg", "opasg") and isinstance(r, int) and r >= 0: s |= self.subtree(r)
            defsub[y] = s
        def closure(seed):
            C = set(seed); work = list(seed)
            while work:
                d = work.pop()
                for y, s in defsub.items():
                    if y not in C and refs.get(d, set()) & s: C.add(y); work.append(y)
            return C
        pos = self.pos
        def usepos(elems):
            """positions at which the elements are evaluated (an element not in the CFG is evaluated with its parents)"""
            out = set(); work = list(elems); seen = set()
            while work:
                e = work.pop()
                if e in seen: continue
                seen.add(e)
                if e in pos: out.add(pos[e])
                work += list(parents.get(e, ()))
            for b, blk in self.blocks.items():
                c = blk.get("cond")
                if c is not None and c >= 0 and c in seen: out.add((b, 1 << 30))
            return out
        live = {b: set() for b in self.blocks}
        def solve(key, uses, kills):
            ub = {}
            for b, n in uses: ub.setdefault(b, []).append(n)
            kb = {}
            for b, n in kills: kb[b] = min(kb.get(b, 1 << 31), n)
            L = set()
            preds = {}
            for b, blk in self.blocks.items():
                for t in blk["s"]:
                    if t >= 0: preds.setdefault(t, []).append(b)
            work = []
            for b in ub:
                if min(ub[b]) <= kb.get(b, 1 << 31): L.add(b); work.append(b)
            while work:
                b = work.pop()
                for p in preds.get(b, ()):
                    if p in L or p in kb: continue
                    L.add(p); work.append(p)
            for b in L: live[b].add(key)
        for d in D:
            if d in esc:
                for b in live: live[b].add(("v", d))
                continue
            C = closure([d])
            if C & esc:
                for b in live: live[b].add(("v", d))
                continue
            es = set()
            for c in C: es |= refs.get(c, set())
            # the assignment target itself is not a use
            tg = set()
            for k, e, r in D[d]:
                if k == "asg" and e is not None:
                    x = self.x[e]; tg.add(self.strip(x["a"] if x["k"] == "bin" else x["obj"]))
            kills = [pos[e] for k, e, r in D[d] if k in ("decl", "asg") and e in pos]
            solve(("v", d), usepos(es - tg), kills)
        for e, x in enumerate(self.x):
            if (x["k"] in ("call", "ctor") or x["k"] == "bin" and x["op"] in ("&&", "||")) and e in pos:
                C = closure([y for y, s in defsub.items() if e in s])
                kk = "lg" if x["k"] == "bin" else "ret"
                if C & esc:
                    for b in live: live[b].add((kk, e))
                    continue
                es = {e}
                for c in C: es |= refs.get(c, set())
                up = usepos(es)
                if kk == "lg": solve(("lg", e), up, [(b, 1 << 30) for b, blk in self.blocks.items() if blk.get("tid") == e])
                else:
                    up.discard(pos[e])
                    solve(("ret", e), up, [pos[e]])
        self._live = live
        return live

    def enclosing(self, e):
        """the logical operations the operation e is the left operand of"""
        if not hasattr(self, "_encl"): self._encl = {}
        if e not in self._encl:
            self._encl[e] = [z for z, x in enumerate(self.x) if z != e and x["k"] == "bin" and x["op"] in ("&&", "||") and e in self.subtree(x["a"])]
        return self._encl[e]

    def reaching(self, d, b, n):
        """indices into defs[d] that reach element n of block b"""
        D = self.defs[d]
        if d not in self._reach:
            at = {}
            for i, (k, e, r) in enumerate(D):
                if e is not None and e in self.pos:
                    at.setdefault(self.pos[e][0], []).append((self.pos[e][1], i))
            for v in at.values(): v.sort()
            init = frozenset(i for i, (k, e, r) in enumerate(D) if e is None)
            IN = {bb: frozenset() for bb in self.blocks}
            IN[self.entry] = init
            preds = {}
            for bb, blk in self.blocks.items():
                for s in blk["s"]:
                    if s >= 0: preds.setdefault(s, []).append(bb)
            def out(bb):
                return frozenset([at[bb][-1][1]]) if bb in at else IN[bb]
            work = list(self.blocks)
            while work:
                bb = work.pop()
                o = out(bb)
                for s in self.blocks[bb]["s"]:
                    if s < 0: continue
                    new = IN[s] | o
                    if new != IN[s]:
                        IN[s] = new
                        work.append(s)
            self._reach[d] = (IN, at)
        IN, at = self._reach[d]
        cur = IN.get(b, frozenset())
        for m, i in at.get(b, []):
            if m < n: cur = frozenset([i])
        return cur


class Prog:
    def __init__(self, facts=None):
        self.facts = facts or load()
        self.funcs = {i: Func(r, self) for i, r in self.facts["functions"].items()}
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f.q, []).append(f)
        self.over = {}
        for f in self.funcs.values():
            for b in f.raw.get("over", []):
                self.over.setdefault(b, set()).add(f.id)
        changed = True
        while changed:
            changed = False
            for b in list(self.over):
                for o in list(self.over[b]):
                    for oo in self.over.get(o, ()):
                        if oo not in self.over[b]:
                            self.over[b].add(oo); changed = True
        self._mod = {}; self._read = {}; self._pmod = {}
        self._callees = {}
        self._lw = {}

    def fn(self, q, required=True):
        r = self.by_q.get(q, [])
        if not r and required:
            raise AnalysisError("anchor vanished: no function %s in the analysed tree" % q)
        return r

    def lambda_writes(self, fid, d):
        f = self.funcs.get(fid)
        if f is None: return True
        return d in f.defs

    def targets(self, x):
        """Func objects a call node may reach (virtual: all overriders)"""
        fid = x.get("fid")
        if fid is None: return []
        out = []
        if fid in self.funcs: out.append(self.funcs[fid])
        if x.get("virt"):
            out += [self.funcs[o] for o in sorted(self.over.get(fid, ())) if o in self.funcs]
        return out

    def callees(self, f):
        if f.id not in self._callees:
            s = set()
            for e, x in f.elems():
                if x["k"] in ("call", "ctor", "dtor"):
                    for t in self.targets(x): s.add(t.id)
                if x["k"] == "lambda" and x["fid"] in self.funcs: s.add(x["fid"])
                if x["k"] == "new" and x.get("init", -1) >= 0:
                    for t in self.targets(f.x[x["init"]]): s.add(t.id)
                if x["k"] == "ref" and x.get("dk") == "fn" and x.get("fid") in self.funcs: s.add(x["fid"])
            self._callees[f.id] = s
        return self._callees[f.id]

    def reachable(self, roots):
        seen = set(); work = [f.id for f in roots]
        while work:
            i = work.pop()
            if i in seen or i not in self.funcs: continue
            seen.add(i)
            work += list(self.callees(self.funcs[i]))
        return seen

    def callers_closure(self, ids):
        rev = {}
        for f in self.funcs.values():
            for c in self.callees(f): rev.setdefault(c, set()).add(f.id)
        seen = set(); work = list(ids)
        while work:
            i = work.pop()
            if i in seen: continue
            seen.add(i); work += list(rev.get(i, ()))
        return seen

    # ---- field-based MOD / READ sets
    def lvfield(self, f, i, through=False):
        """('F', field) / ('P', param index) / None written when storing through lvalue expression i of f"""
        while True:
            i = f.strip(i)
            if i is None or i < 0: return None
            x = f.x[i]; k = x["k"]
            if k == "mem":
                if x.get("method"): return None
                return ("F", x["f"])
            if k == "ref":
                if x["dk"] == "global": return ("G", x["q"])
                if x["dk"] == "param":
                    for n, p in enumerate(f.params):
                        if p["d"] == x["d"]: return ("P", n)
                    return None
                if x["dk"] == "var":
                    f.defs
                    dd = f.decls.get(x["d"])
                    if dd and (dd.get("ref") or through and ("iterator" in dd["t"] or dd["t"].endswith("*"))) and dd.get("init", -1) >= 0:
                        i = dd["init"]; continue
                return None
            if k == "idx": i = x["a"]; through = True; continue
            if k == "un" and x["op"] in ("*", "&"):
                if x["op"] == "*": through = True
                i = x["a"]; continue
            if k == "cond": i = x["a"]; continue
            if k == "bin" and x["op"] in ("+", "-"): i = x["a"]; continue
            if k == "call" and x.get("obj", -1) >= 0:
                # accessor returning a reference into its object
                fn = x.get("fn", "")
                if not fn.startswith("std::"):
                    t = self.funcs.get(x.get("fid"))
                    if t is not None:
                        for e, y in t.elems():
                            if y["k"] == "ret" and y["a"] >= 0:
                                r = self.lvfield(t, y["a"])
                                if r is not None and r[0] == "F": return r
                if x.get("opcall") in ("*", "->", "[]"): through = True
                i = x["obj"]; continue
            if k == "call" and x.get("args"):
                i = x["args"][0]; continue
            return None

    def _direct(self, f):
        """direct modifications and reads of f: (mods, reads, pmods)"""
        mods, reads, pm = set(), set(), set()
        def addmod(i, through=False):
            d = f.lvroot(i)
            if d is not None and d not in f.refvars:
                t = f.decls.get(d, {}).get("t", "*")
                if not t.endswith("*") and "iterator" not in t: return      # a local object is nobody else's storage
            r = self.lvfield(f, i, through)
            if r is None: return
            if r[0] in "FG": mods.add(r[1])
            else: pm.add(r[1])
        f.defs
        for e, x in f.elems():
            k = x["k"]
            if k == "mem" and not x.get("method"): reads.add(x["f"])
            if k == "ref" and x.get("dk") == "global": reads.add(x["q"])
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): addmod(x["a"])
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"): addmod(x["a"])
            elif k == "init" and "f" in x: mods.add(x["f"])
            elif k == "call":
                fn = x.get("fn", ""); sn = short(fn)
                std = fn.startswith("std::") or fn.startswith("__gnu") or not self.targets(x)
                if std:
                    if x.get("obj", -1) >= 0 and not x.get("const") and sn not in CONTAINER_RO: addmod(x["obj"])
                    if x.get("obj", -1) >= 0:
                        for a, pt in zip(x.get("args", []), x.get("pt", [])):
                            if mutref(pt, True) and sn not in STORE_ONLY: addmod(a)
                    if x.get("obj", -1) < 0 and sn not in READONLY_STD:
                        for a in outargs(sn, x.get("args", [])): addmod(a, True)
        if f.kind == "ctor" and f.cls:
            # initialising a new object changes no existing one
            own = f.q.rsplit("::", 1)[0] + "::"
            mods = {m for m in mods if not m.startswith(own)}
        return mods, reads, pm

    def mod(self, fid, _stack=None):
        self._compute_mod(); return self._mod.get(fid, frozenset())

    def read(self, fid):
        self._compute_mod(); return self._read.get(fid, frozenset())

    def _compute_mod(self):
        if self._mod: return
        M, R, P = {}, {}, {}
        for f in self.funcs.values():
            M[f.id], R[f.id], P[f.id] = self._direct(f)
        calls = {}
        for f in self.funcs.values():
            L = []
            for e, x in f.elems():
                if x["k"] in ("call", "ctor"):
                    for t in self.targets(x): L.append((t.id, x))
                elif x["k"] == "lambda" and x["fid"] in self.funcs: L.append((x["fid"], None))
                elif x["k"] == "dtor" and x.get("fid") in self.funcs: L.append((x["fid"], None))
            calls[f.id] = L
        changed = True
        while changed:
            changed = False
            for f in self.funcs.values():
                m, r, p = M[f.id], R[f.id], P[f.id]
                n0 = (len(m), len(r), len(p))
                for t, x in calls[f.id]:
                    m |= M[t]; r |= R[t]
                    if x is not None:
                        for pi in P[t]:
                            if pi < len(x.get("args", [])):
                                q = self.lvfield(f, x["args"][pi])
                                if q is not None:
                                    if q[0] in "FG": m.add(q[1])
                                    else: p.add(q[1])
                if (len(m), len(r), len(p)) != n0: changed = True
        self._mod, self._read, self._pmod = M, R, P

    def pmod(self, fid):
        self._compute_mod(); return self._pmod.get(fid, frozenset())


# ------------------------------------------------------------------ values
def vmk(*a): return tuple(a)

def phi(vals):
    out = set()
    for v in vals:
        if isinstance(v, tuple) and v and v[0] == "phi": out |= v[1]
        else: out.add(v)
    if len(out) == 1: return next(iter(out))
    return ("phi", frozenset(out))

def neg(v):
    if v[0] == "neg": return v[1]
    return ("neg", v)

def at(c, i):
    """element access; an index variable that starts at a constant and is only stepped denotes the current element"""
    if i[0] == "ivar" and is_int(i[2]) and all(q in ("++", "p++") for q in i[3]): return ("elem", c, i[1])
    return ("at", c, i)

def deref(v):
    if v[0] == "iterv": return ("elem", v[1], v[3])
    if v[0] == "iter" and isinstance(v[2], int): return ("at", v[1], ("int", v[2]))
    if v[0] == "iter" and isinstance(v[2], tuple): return at(v[1], v[2][1])
    return v

def walk(v):
    yield v
    if isinstance(v, tuple):
        for a in v:
            if isinstance(a, (tuple, frozenset)):
                yield from walk(a)
    elif isinstance(v, frozenset):
        for a in v: yield from walk(a)

def vstr(v, d=0):
    if not isinstance(v, tuple): return str(v)
    if d > 8: return "..."
    k = v[0]
    s = lambda w: vstr(w, d + 1)
    try:
        if k == "int": return str(v[1])
        if k == "str": return repr(v[1])
        if k == "lb": return ("l_True", "l_False", "l_Undef")[v[1]] if v[1] in (0, 1, 2) else "lbool(%s)" % v[1]
        if k == "this": return "this"
        if k == "field": return s(v[1]) + "." + v[2].rsplit("::", 1)[-1]
        if k in ("param", "glob"): return v[1]
        if k == "obj" or k == "var": return v[2]
        if k == "at": return "%s[%s]" % (s(v[1]), s(v[2]))
        if k == "elem": return "elem(%s)" % s(v[1])
        if k == "iterv": return "it(%s)" % s(v[1])
        if k == "ivar": return "$%s%s" % (v[1][2], "".join(v[3]))
        if k == "iter": return "iter(%s,%s)" % (s(v[1]), v[2])
        if k == "neg": return "~" + s(v[1])
        if k == "not": return "!(%s)" % s(v[1])
        if k == "op": return "(%s %s %s)" % (s(v[2]), v[1], s(v[3]))
        if k == "call": return "%s%s(%s)" % ((s(v[2]) + ".") if v[2] else "", v[1].rsplit("::", 1)[-1], ", ".join(s(a) for a in v[3]))
        if k == "phi": return "{" + " | ".join(sorted(s(a) for a in v[1])) + "}"
        if k == "mk": return "%s(%s)" % (v[1].rsplit("::", 1)[-1], ", ".join(s(a) for a in v[2]))
        return "%s(%s)" % (k, ", ".join(s(a) if isinstance(a, tuple) else str(a) for a in v[1:]))
    except Exception:
        return str(v)


class Frame:
    __slots__ = ("func", "key", "_this", "_args", "parent", "outer", "calls", "depth", "memo", "clos", "g", "lazy")

    def __init__(self, func, key, this, args, parent=None, outer=None, depth=0):
        self.func = func; self.key = key; self._this = this; self._args = args
        self.g = None; self.lazy = None
        self.parent = parent; self.outer = outer; self.calls = {}; self.depth = depth
        self.memo = {}; self.clos = None


    # receiver and arguments of a spliced call are evaluated once the whole supergraph exists
    @property
    def this(self):
        if self.lazy is None: return self._this
        lz = self.lazy; v = lz[0]()
        if self.g.built and self.lazy is not None: self._this = v; self._args = lz[1](); self.lazy = None
        return v

    @property
    def args(self):
        if self.lazy is None: return self._args
        lz = self.lazy; v = lz[1]()
        if self.g.built and self.lazy is not None: self._this = lz[0](); self._args = v; self.lazy = None
        return v


class Node:
    __slots__ = ("i", "frame", "kind", "e", "succ", "x", "inl", "extra", "lg", "encl")

    def __init__(self, i, frame, kind, e, x):
        self.i = i; self.frame = frame; self.kind = kind; self.e = e; self.x = x
        self.succ = []     # (node index, condition or None); condition = (expr id, True/False) or ("case", expr id, [consts], negated)
        self.inl = None; self.extra = None; self.lg = None; self.encl = ()

    def line(self): return self.frame.func.where(self.e if self.e is not None and self.e >= 0 else None)
    def fn(self): return self.x.get("fn", "") if self.x else ""


EMPTY = {}


class Graph:
    """Supergraph of `root` with the callees selected by `policy(func, frame)` spliced in."""

    def __init__(self, prog, root, policy=None, this=("this",), args=None, keep=KEEP, maxdepth=12, maxnodes=60000):
        self.prog = prog; self.root = root; self.policy = policy or (lambda f, fr: False)
        self.keep = keep; self.nodes = []; self.maxdepth = maxdepth; self.maxnodes = maxnodes
        self.nframes = 0; self.frames = []
        self.truncated = []; self.built = False
        if args is None:
            args = [("param", p["n"] or "arg%d" % n, n, root.id) for n, p in enumerate(root.params)]
        self.rootframe = self.mkframe(root, this, args, None, None)
        self.exit = self.node(self.rootframe, "exit", None, None)
        self.texit = self.node(self.rootframe, "throwexit", None, None)
        self.nexit = self.node(self.rootframe, "noret", None, None)
        self.entry = self.splice(self.rootframe, self.exit.i)
        self.built = True
        for fr in self.frames: fr.memo.clear()

    def mkframe(self, func, this, args, parent, outer):
        fr = Frame(func, self.nframes, this, args, parent, outer, parent.depth + 1 if parent else 0)
        self.nframes += 1
        self.frames.append(fr)
        return fr

    def node(self, frame, kind, e, x):
        n = Node(len(self.nodes), frame, kind, e, x)
        self.nodes.append(n)
        if len(self.nodes) > self.maxnodes: raise AnalysisError("supergraph of %s too large" % self.root.q)
        return n

    def infr(self, frame, fid):
        f = frame
        while f:
            if f.func.id == fid: return True
            f = f.parent
        return False

    def splice(self, frame, cont):
        """add frame.func's CFG; normal exits go to node index cont; returns entry node index"""
        f = frame.func
        heads = {}
        for b in f.blocks: heads[b] = self.node(frame, "block", None, None); heads[b].extra = b
        for bid, blk in f.blocks.items():
            cur = heads[bid]
            ended = False
            for e in blk["e"]:
                x = f.x[e]; k = x["k"]
                n = None
                if k == "call":
                    if x.get("opcall") == "=" and x.get("obj", -1) >= 0 and x.get("fid") not in self.prog.funcs:
                        n = self.node(frame, "write", e, x)
                    elif x.get("opcall") in ("++", "--") and x.get("obj", -1) >= 0 and x.get("fid") not in self.prog.funcs:
                        n = self.node(frame, "write", e, x)
                    else:
                        n = self.node(frame, "call", e, x)
                    cur.succ.append((n.i, None)); cur = n
                    cur = self.maybe_inline(frame, n)
                    if x.get("noret"):
                        cur.succ.append((self.nexit.i, None)); ended = True; break
                    continue
                elif k == "ctor":
                    n = self.node(frame, "ctor", e, x)
                    cur.succ.append((n.i, None)); cur = n
                    if not (x.get("copy") or x.get("move")):
                        cur = self.maybe_inline(frame, n)
                    continue
                elif k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): n = self.node(frame, "write", e, x)
                elif k == "un" and x["op"] in ("++", "--", "p++", "p--"): n = self.node(frame, "write", e, x)
                elif k in ("decl", "init", "new", "delete", "throw", "dtor", "lambda"): n = self.node(frame, k if k != "init" else "write", e, x)
                elif k == "ret":
                    n = self.node(frame, "ret", e, x)
                if n is None: continue
                cur.succ.append((n.i, None)); cur = n
                if k == "ret":
                    n.succ.append((cont, None)); ended = True; break
                if k == "throw":
                    ex = [s for s in blk["s"] if s >= 0 and s != f.exit]
                    if ex: n.succ.append((heads[ex[0]].i, None))
                    else: n.succ.append((self.texit.i, None))
                    ended = True; break
            if ended: continue
            ss = blk["s"]
            if bid == f.exit:
                cur.succ.append((cont, None)); continue
            cond = blk.get("cond")
            live = [s for s in ss if s >= 0]
            if blk.get("term") == "SwitchStmt" and cond is not None:
                allc = []
                for s in live: allc += f.blocks[s].get("case", [])
                for s in live:
                    c = f.blocks[s].get("case")
                    if c: cur.succ.append((heads[s].i, ("case", cond, tuple(c), False)))
                    else: cur.succ.append((heads[s].i, ("case", cond, tuple(allc), True)))
            elif cond is not None and len(ss) == 2 and blk.get("term") not in ("CXXTryStmt",):
                if blk.get("tid") is not None and blk["tid"] in f.pos: cur.lg = blk["tid"]
                if blk.get("tid") is not None: cur.encl = [z for z in f.enclosing(blk["tid"]) if z in f.pos]
                if ss[0] >= 0: cur.succ.append((heads[ss[0]].i, (cond, True)))
                if ss[1] >= 0: cur.succ.append((heads[ss[1]].i, (cond, False)))
            else:
                for s in live: cur.succ.append((heads[s].i, None))
        return heads[f.entry].i

    def maybe_inline(self, frame, n):
        x = n.x
        fn = x.get("fn", "")
        # std algorithm with a lambda: loop around the lambda body
        if fn.startswith("std::") and short(fn) in ALGO_LAMBDA and n.kind == "call":
            for ai in x.get("args", []):
                lv = self.val(frame, ai)
                if lv[0] == "lambda" and lv[1] in self.prog.funcs and self.policy(self.prog.funcs[lv[1]], frame) and not self.infr(frame, lv[1]) and frame.depth < self.maxdepth:
                    lf = self.prog.funcs[lv[1]]
                    outf = self.frames[lv[2]]
                    fr = self.mkframe(lf, None, None, frame, outf)
                    def algoargs(x=x, frame=frame, n=n, lf=lf):
                        a0 = self.val(frame, x["args"][0]); cont = a0[1] if a0[0] in ("iter", "iterv") else a0
                        return [("elem", cont, ("algo", frame.key, n.e))] * len(lf.params)
                    fr.g = self; fr.lazy = (lambda outf=outf: outf.this, algoargs)
                    head = self.node(frame, "algoloop", n.e, x); out = self.node(frame, "leave", n.e, x)
                    head.extra = ("algo", frame.key, n.e)
                    n.succ.append((head.i, None))
                    ent = self.splice(fr, head.i)
                    head.succ.append((ent, None)); head.succ.append((out.i, None))
                    n.inl = [fr]
                    return out
            return n
        ts = [t for t in self.prog.targets(x) if t.blocks]
        if not ts or frame.depth >= self.maxdepth: return n
        sel = [t for t in ts if self.policy(t, frame) and not self.infr(frame, t.id)]
        if not sel: return n
        if len(sel) > 8: return n
        out = self.node(frame, "leave", n.e, x)
        n.inl = []
        outer = None
        if x.get("opcall") == "()" and x.get("obj", -1) >= 0:
            obj = self.objval(frame, x["obj"])
            if obj[0] == "lambda": outer = self.frames[obj[2]]
        def thisval():
            if outer is not None: return outer.this
            if n.kind == "ctor": return ("mk", x.get("cls"), tuple(self.val(frame, a) for a in x["args"]), ("site", frame.key, n.e))
            return self.objval(frame, x["obj"]) if x.get("obj", -1) >= 0 else None
        def argvals(): return [self.val(frame, a) for a in x.get("args", [])]
        for t in sel:
            fr = self.mkframe(t, None, None, frame, outer)
            fr.g = self; fr.lazy = (thisval, argvals)
            ent = self.splice(fr, out.i)
            n.succ.append((ent, None)); n.inl.append(fr)
            frame.calls.setdefault(n.e, []).append(fr)
        if len(sel) < len(ts): n.succ.append((out.i, None))
        return out

    # ---------------------------------------------------------------- evaluation
    def objval(self, frame, i, env=EMPTY):
        v = self.val(frame, i, env)
        if v[0] in ("iterv", "iter"): return deref(v)
        return v

    def val(self, frame, i, env=EMPTY):
        if i is None or i < 0: return ("none",)
        if not env:
            m = frame.memo.get(i)
            if m is not None:
                return ("rec", frame.key, i) if m == "busy" else m
            frame.memo[i] = "busy"
            try:
                v = self._val(frame, i, env)
            except RecursionError:
                v = ("deep", frame.key, i)
            frame.memo[i] = v
            return v
        k = ("e", frame.key, i)
        busy = env.setdefault("_busy", set()); memo = env.setdefault("_memo", {})
        if k in memo: return memo[k]
        if k in busy: return ("rec", frame.key, i)
        busy.add(k)
        v = self._val(frame, i, env)
        busy.discard(k)
        memo[k] = v
        return v

    def _val(self, frame, i, env):
        f = frame.func; x = f.x[i]; k = x["k"]
        V = lambda j: self.val(frame, j, env)
        if "cv" in x and k not in ("bin",): return ("int", int(x["cv"]))
        if "cv" in x and x.get("op") not in ("=",): return ("int", int(x["cv"]))
        if k == "cast":
            if x.get("ck") == "IntegralCast" and x.get("t", "").replace("const ", "") in NARROW:
                y = f.x[f.strip(x["a"])]
                if not ("cv" in y or y["k"] == "lit" or y.get("t", "").replace("const ", "") in NARROW or y.get("t", "").replace("const ", "") == "bool"):
                    w = V(x["a"])
                    return w if is_int(w) else ("narrow", x["t"].replace("const ", ""), w)
            return V(x["a"])
        if k == "lit": return ("int", int(x["v"]))
        if k == "null" or k == "zero": return ("int", 0)
        if k == "flit": return ("flt", x["v"])
        if k == "str": return ("str", x["v"])
        if k == "this":
            if env and ("a", frame.key, "this") in env: return env[("a", frame.key, "this")]
            return frame.this if frame.this is not None else ("this",)
        if k == "ref":
            dk = x["dk"]
            if dk in ("var", "param"): return self.local(frame, x["d"], i, env, x["n"])
            if dk == "global": return ("glob", x["q"])
            if dk == "fn": return ("fn", x["fid"], x["fn"])
            return ("glob", x.get("q", x["n"]))
        if k == "mem":
            if x.get("method"): return ("method", x["f"])
            if x.get("static"): return ("glob", x["f"])
            b = self.objval(frame, x["b"], env)
            if x["f"] == "Candy::Clause::literals": return b          # a clause is the sequence of its literals
            if x["f"] == "Candy::Clause::length": return ("size", b)
            return ("field", b, x["f"])
        if k == "un":
            op = x["op"]; a = V(x["a"])
            if op == "*": return deref(a)
            if op == "&": return a
            if op == "!": return ("not", a)
            if op in ("p++", "p--"): return a
            if op in ("++", "--"):
                if a[0] in ("iterv", "ivar", "iter"): return a
                return ("op", op[0], a, ("int", 1))
            if is_int(a) and op == "-": return ("int", -a[1])
            return ("un", op, a)
        if k == "bin":
            op = x["op"]
            if op == "=": return V(x["b"])
            if op == ",": return V(x["b"])
            if op in ("&&", "||"):
                if env:
                    d = env.get(("lg", frame.key, i))
                    if d is not None: return V(x["b"]) if d == (op == "&&") else ("int", int(op == "||"))
                a = V(x["a"])
                if is_int(a): return V(x["b"]) if (a[1] != 0) == (op == "&&") else ("int", int(op == "||"))
                return ("and" if op == "&&" else "or", a, V(x["b"]))
            a, b = V(x["a"]), V(x["b"])
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="): return ("op", op[:-1], a, b)
            return self.binop(op, a, b)
        if k == "idx":
            a = V(x["a"]); 
            if a[0] == "iter" and isinstance(a[2], int) and a[2] == 0: a = a[1]
            return at(a, V(x["b"]))
        if k == "cond":
            c, a, b = V(x["c"]), V(x["a"]), V(x["b"])
            if a == b: return a
            return ("cond", c, a, b)
        if k == "call": return self.callval(frame, i, x, env)
        if k == "ctor":
            A = x["args"]
            if (x.get("copy") or x.get("move")) and A: return V(A[0])
            cls = x.get("cls", "")
            if cls == "Candy::Var": return V(A[0]) if A else ("int", -1)
            if cls == "Candy::lbool":
                a = V(A[0])
                if is_int(a):
                    if x["pt"][0] == "bool": return ("lb", 0 if a[1] else 1)
                    return ("lb", a[1])
                return ("lbool", a)
            if cls == "Candy::Lit":
                if not A: return ("glob", "Candy::lit_Undef")
                return ("mk", "Candy::Lit", (V(A[0]), V(A[1]) if len(A) > 1 else ("int", 0)))
            if "iterator" in cls and len(A) == 1: return V(A[0])
            if cls.startswith("std::") and len(A) == 1 and A[0] >= 0 and f.x[f.strip(A[0])].get("t", "").replace("const ", "") == x.get("t", "").replace("const ", ""): return V(A[0])
            return ("mk", cls, tuple(V(a) for a in A))
        if k == "ilist": return ("ilist", tuple(V(a) for a in x["args"]))
        if k == "new": return ("new", x["nt"], V(x.get("init", -1)), ("site", frame.key, i))
        if k == "lambda": return ("lambda", x["fid"], frame.key)
        return ("other", x.get("cls", k), tuple(V(c) for c in x.get("ch", [])), ("site", frame.key, i))

    def binop(self, op, a, b):
        if op in ("+", "-"):
            s = 1 if op == "+" else -1
            if a[0] == "iter" and is_int(b) and isinstance(a[2], int): return ("iter", a[1], a[2] + s * b[1])
            if is_int(a) and is_int(b): return ("int", a[1] + s * b[1])
            if is_int(b) and b[1] == 0: return a
            if op == "+" and a[0] == "iter" and a[2] == 0: return ("iter", a[1], ("off", b))
        if op == "*" and is_int(a) and is_int(b): return ("int", a[1] * b[1])
        if op == "-" and a[0] == "iter" and b[0] == "iter" and a[1] == b[1] and a[2] == "end" and b[2] == 0: return ("size", a[1])
        return ("op", op, a, b)

    def callval(self, frame, i, x, env):
        f = frame.func
        fn = x.get("fn")
        V = lambda j: self.val(frame, j, env)
        if fn is None:
            return ("icall", V(x.get("ce", -1)), tuple(V(a) for a in x.get("args", [])), ("site", frame.key, i))
        sn = short(fn)
        o = x.get("obj", -1)
        oc = x.get("opcall")
        args = x.get("args", [])
        # graph-inlined call: value of the returns
        if i in frame.calls:
            frs = frame.calls[i]
            sel = env.get(("ret", frame.key, i)) if env else None
            if sel is not None:
                return self.val(self.frames[sel[0]], self.frames[sel[0]].func.x[sel[1]]["a"], env)
            vals = []
            for fr in frs:
                for e, y in fr.func.elems():
                    if y["k"] == "ret": vals.append(self.val(fr, y["a"], env))
            if vals: return phi(vals)
            return ("none",)
        if o >= 0:
            ov = V(o)
            if oc in ("*", "->") and not args:
                return deref(ov)
            if oc in ("++", "--"): return ov
            if oc == "=": return V(args[0])
            if oc in ("==", "!=", "<", ">", "<=", ">="): return self.binop(oc, ov, V(args[0]))
            if fn == "Candy::Lit::operator~": return neg(ov if ov[0] not in ("iterv",) else deref(ov))
            if oc in ("+", "-") and ov[0] in ("iter", "iterv"): return self.binop(oc, ov, V(args[0]))
            ov = deref(ov) if ov[0] in ("iterv", "iter") else ov
            if sn.startswith("operator ") and fn.split("::")[-2] in ("Var", "Lit"): return ov       # conversions
            if sn.startswith("operator ") and not fn.startswith("std::") and fn in self.prog.by_q: pass
            if sn in ITERS and not args:
                if not fn.startswith(("std::", "Candy::Clause::")) and x.get("fid") in self.prog.funcs:
                    if self.rangelike(fn):
                        r = self.exprinline(self.prog.funcs[x["fid"]], ov, [], frame, None)
                        if r is not None and r[0] == "iter": return r
                return ("iter", ov, ITERS[sn])
            if sn in ("begin", "end") and args and x.get("fid") in self.prog.funcs and not fn.startswith("std::"):
                r = self.exprinline(self.prog.funcs[x["fid"]], ov, [V(a) for a in args], frame, None)
                if r is not None and r[0] == "iter": return r
            std = fn.startswith("std::")
            if std or fn.startswith("Candy::Clause::"):
                if sn in ("size", "length"): return ("size", ov)
                if sn == "empty": return ("op", "<", ("size", ov), ("int", 1))
                if oc == "[]" or sn in ("at", "operator[]"): return at(ov, V(args[0]))
                if sn == "front": return ("at", ov, ("int", 0))
                if sn == "back": return ("back", ov)
                if sn in ("data", "c_str", "get", "str") and not args: return ov
            if sn in ("empty",) and not std and fn not in self.prog.by_q: return ("op", "<", ("size", ov), ("int", 1))
            if fn in FIRSTN: return ("at", ov, ("int", FIRSTN[fn]))
            if fn == "Candy::Lit::var":
                if ov[0] == "neg": ov = ov[1]
                if ov[0] == "mk" and ov[1] == "Candy::Lit": return ov[2][0]
                return ("var_of", ov)
            if fn == "Candy::Lit::sign":
                n = False
                if ov[0] == "neg": ov = ov[1]; n = True
                r = ov[2][1] if ov[0] == "mk" and ov[1] == "Candy::Lit" else ("sign_of", ov)
                return ("not", r) if n else r
            if fn == "Candy::Lit::operator^": return ("litxor", ov, V(args[0]))
            if fn == "Candy::lbool::operator^": return ("lbxor", ov, V(args[0]))
            if oc == "()" and ov[0] == "lambda":
                r = self.exprinline(self.prog.funcs.get(ov[1]), self.frames[ov[2]].this, [V(a) for a in args], frame, self.frames[ov[2]])
                if r is not None: return r
            av = tuple(V(a) for a in args)
        else:
            ov = None
            if fn.startswith("std::"):
                if sn in PASS_STD and len(args) == 1: return V(args[0])
                if sn == "distance":
                    a, b = V(args[0]), V(args[1])
                    if a[0] == "iter" and b[0] == "iter" and a[1] == b[1] and a[2] == 0 and b[2] == "end": return ("size", a[1])
                if sn in ("begin", "end") and len(args) == 1: return ("iter", V(args[0]), 0 if sn == "begin" else "end")
                if sn in ("next",) and len(args) >= 1: return self.binop("+", V(args[0]), V(args[1]) if len(args) > 1 else ("int", 1))
            if oc in ("==", "!=", "<", ">", "<=", ">=") and len(args) == 2: return self.binop(oc, V(args[0]), V(args[1]))
            if oc in ("+", "-") and len(args) == 2: return self.binop(oc, V(args[0]), V(args[1]))
            av = tuple(V(a) for a in args)
        if fn.startswith("std::") and sn in ("any_of", "all_of", "none_of", "find_if", "count_if") and len(av) >= 3 and av[2][0] == "lambda":
            lam = self.prog.funcs.get(av[2][1])
            rng = av[0][1] if av[0][0] == "iter" else av[0]
            body = self.exprinline(lam, self.frames[av[2][2]].this, [("elem", rng, ("algo", sn))], frame, self.frames[av[2][2]])
            full = av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1] and av[0][2] == 0 and av[1][2] == "end"
            return ("algo", sn, rng, body if body is not None else av[2], "full" if full else (av[0], av[1]))
        if fn.startswith("std::") and sn in ("find", "count") and len(av) == 3:
            rng = av[0][1] if av[0][0] == "iter" else av[0]
            full = av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1] and av[0][2] == 0 and av[1][2] == "end"
            return ("algo", sn, rng, av[2], "full" if full else (av[0], av[1]))
        if fn in self.keep: return ("call", fn, ov, av)
        ts = self.prog.targets(x)
        if len(ts) == 1 and not x.get("virt"):
            r = self.exprinline(ts[0], ov, list(av), frame, None)
            if r is not None: return r
        elif len(ts) > 1 and x.get("virt") is False:
            pass
        pure = x.get("const") or (ts and all(not self.prog.mod(t.id) and not self.prog.pmod(t.id) for t in ts)) or (fn.startswith("std::") and (sn in READONLY_STD or sn in CONTAINER_RO))
        if pure: return ("call", fn, ov, av)
        return ("call", fn, ov, av, ("site", frame.key, i))

    def rangelike(self, fn):
        """begin() and end() of the class are those of one member container"""
        cls, sn = fn.rsplit("::", 1)
        pair = {"begin": "end", "end": "end", "rbegin": "rend", "rend": "rend", "cbegin": "cend", "cend": "cend"}[sn] if sn[:2] != "cr" else "crend"
        c = self.prog.__dict__.setdefault("_rl", {})
        if (cls, pair) not in c:
            c[(cls, pair)] = True
            for t in self.prog.by_q.get(cls + "::" + pair, []):
                if t.params: continue
                r = self.exprinline(t, ("this",), [], self.rootframe, None)
                c[(cls, pair)] = r is not None and r[0] == "iter" and not isinstance(r[2], tuple)
        return c[(cls, pair)]

    def exprinline(self, t, this, args, frame, outer):
        """value of a call to an expression-like function (one return, no side effect), else None"""
        if t is None or not t.blocks: return None
        d = 0; p = frame
        if frame.depth > 40: return None
        rets = []
        for e, y in t.elems():
            k = y["k"]
            if k == "ret": rets.append(y["a"])
            elif k in ("throw", "new", "delete", "dtor"): return None
            elif k == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="): return None
            elif k == "un" and y["op"] in ("++", "--", "p++", "p--"): return None
        if len(rets) != 1 or rets[0] < 0: return None
        if any(b.get("cond") is not None and b.get("term") in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt") for b in t.blocks.values()): return None
        f = frame
        while f is not None:
            if f.func is t: return None
            f = f.parent
        if t.id in self.prog.funcs and (self.prog.mod(t.id) or self.prog.pmod(t.id)): return None
        fr = Frame(t, ("x",), this, args, frame, outer, frame.depth + 1)
        fr.key = self.nframes; self.nframes += 1; self.frames.append(fr)
        return self.val(fr, rets[0])

    def local(self, frame, d, i, env, name):
        f = frame.func
        D = f.defs.get(d)
        if D is None or d not in f.decls:
            o = frame.outer
            while o is not None:
                if d in o.func.defs and d in o.func.decls:
                    return self.outerlocal(o, d, env, name)
                o = o.outer
            return ("var", ("ext", frame.key, d), name)
        decl = f.decls[d]
        key = ("v", frame.key, d)
        def defval(idx):
            k, e, r = D[idx]
            if k == "param":
                if env:
                    a = env.get(("a", frame.key, r))
                    if a is not None: return a
                a = frame.args[r] if frame.args is not None and r < len(frame.args) else ("none",)
                return a
            if k == "decl":
                if r is None or r < 0: return ("uninit", key)
                return self.val(frame, r, env)
            if k == "asg": return self.val(frame, r, env)
            if k == "inc": return ("var", key, name)
            if k == "opasg": return ("var", key, name)
            return ("obj", key, name)
        main = [n for n, q in enumerate(D) if q[0] != "mut"]
        muts = [q for q in D if q[0] == "mut"]
        if d in f.refvars:
            b = [n for n in main if D[n][0] in ("decl", "param")]
            if b: return defval(b[0])
        if decl["t"].endswith("*") or decl["t"].endswith("* const"): muts = [m for m in muts if f.x[m[1]]["k"] == "un" and f.x[m[1]]["op"] == "&" or f.x[m[1]]["k"] == "lambda" or f.x[m[1]]["k"] == "call" and any(f.localref(a) == d for a in f.x[m[1]].get("args", []))]
        if muts:
            # an object changed in place (or a scalar passed by reference): identity, not value
            return ("obj", key, name)
        if len(main) == 1: return defval(main[0])
        bases = [n for n in main if D[n][0] in ("decl", "param")]
        rest = [n for n in main if D[n][0] in ("inc", "opasg")]
        if len(bases) == 1 and len(rest) == len(main) - 1:
            base = defval(bases[0])
            if base[0] == "iter" : return ("iterv", base[1], base[2], key)
            if base[0] == "iterv": return ("iterv", base[1], base[2], key)
            steps = tuple(sorted(set(str(D[n][2]) if D[n][0] == "inc" else "op" for n in rest)))
            return ("ivar", key, base, steps)
        p = f.pos.get(i)
        if env:
            s = env.get(key)
            if s is not None and (p is None or s in f.reaching(d, p[0], p[1])): return defval(s)
        if p is None: idxs = main
        else:
            idxs = [n for n in f.reaching(d, p[0], p[1]) if D[n][0] != "mut"] or main
        if len(idxs) == 1: return defval(idxs[0])
        vals = []
        for n in idxs:
            v = defval(n)
            vals.append(v)
        # iterator variables that are also re-assigned
        if any(v[0] == "iter" for v in vals) and all(v[0] in ("iter", "var", "iterv") for v in vals):
            b = [v for v in vals if v[0] in ("iter", "iterv")]
            if len(set(q[1] for q in b)) == 1: return ("iterv", b[0][1], b[0][2], key)
        return phi(vals)

    def outerlocal(self, o, d, env, name):
        f = o.func; D = f.defs[d]
        main = [q for q in D if q[0] != "mut"]
        if len(D) == 1 or (d in f.refvars) or (len(main) == 1 and f.decls[d]["t"].endswith("*")):
            k, e, r = main[0]
            if k == "param":
                if env and ("a", o.key, r) in env: return env[("a", o.key, r)]
                return o.args[r] if r < len(o.args) else ("none",)
            if k in ("decl", "asg") and r is not None and r >= 0: return self.val(o, r, env)
        if len(main) != len(D): return ("obj", ("v", o.key, d), name)
        return ("var", ("v", o.key, d), name)

    # ---------------------------------------------------------------- conditions
    def cond(self, frame, c, env=EMPTY):
        """canonical (value, polarity)"""
        return self.val(frame, c[0], env), c[1]


# ---------------------------------------------------------------- canonical atoms
def atoms(v, pol):
    """facts implied by condition value v having truth value pol: list of (key, value) with value bool, or for
    lifted booleans a frozenset of admissible values"""
    k = v[0]
    if k == "not": return atoms(v[1], not pol)
    if k == "and" and pol: return atoms(v[1], True) + atoms(v[2], True)
    if k == "or" and not pol: return atoms(v[1], False) + atoms(v[2], False)
    if k == "and" or k == "or": return [(v, pol)]
    if k == "int": return [(("int", 1), (v[1] != 0) == pol)]
    if k == "op" and v[1] in ("==", "!=", "<", ">", "<=", ">="):
        op, a, b = v[1], v[2], v[3]
        if op == "!=": return atoms(("op", "==", a, b), not pol)
        if op == "==":
            if a[0] == "lb" or (is_int(a) and not is_int(b)): a, b = b, a
            if b[0] == "lb":
                s = frozenset([b[1]]) if pol else frozenset([0, 1, 2]) - {b[1]}
                if a[0] == "lb": return [(("int", 1), (a[1] == b[1]) == pol)]
                if a[0] == "lbxor" and is_int(a[2]) and a[2][1]:
                    s = frozenset({0: 1, 1: 0, 2: 2}[q] for q in s); a = a[1]
                return [(("lbv", a), s)]
            if is_int(a) and is_int(b): return [(("int", 1), (a[1] == b[1]) == pol)]
            if is_int(b) and b[1] == 0:
                if a[0] in ("size",): return [(("lt", a, 1), pol)]
                if a[0] in ("op", "not", "and", "or", "algo") and (a[0] != "op" or a[1] in ("==", "!=", "<", ">", "<=", ">=")): return atoms(a, not pol)
                return [(("zero", a), pol)]
            if repr(b) < repr(a): a, b = b, a
            return [(("eq", a, b), pol)]
        if op == ">": return atoms(("op", "<", b, a), pol)
        if op == ">=": return atoms(("op", "<", a, b), not pol)
        if op == "<=": return atoms(("op", "<", b, a), not pol)
        # a < b
        if is_int(a) and is_int(b): return [(("int", 1), (a[1] < b[1]) == pol)]
        if is_int(b): return [(("lt", a, b[1]), pol)]
        if is_int(a): return [(("lt", b, a[1] + 1), not pol)]
        return [(("lt", a, b), pol)]
    return [(("zero", v), not pol)]


def unsigned_zero(facts_key):
    return facts_key


def lbpossible(v):
    """structurally possible values of a lifted boolean"""
    if v[0] == "lb": return frozenset([v[1]])
    if v[0] == "cond": return lbpossible(v[2]) | lbpossible(v[3])
    if v[0] == "phi":
        r = frozenset()
        for a in v[1]: r |= lbpossible(a)
        return r
    return frozenset([0, 1, 2])


def add_fact(facts, key, val):
    """-> new facts dict or None when contradictory"""
    if key == ("int", 1): return facts if val else None
    if key[0] == "eq" and key[1] == key[2] and val is False and key[1][0] in ("glob", "int", "lb", "str"): return None    # tautology
    old = facts.get(key)
    if isinstance(val, frozenset):
        if old is None: old = lbpossible(key[1])
        new = val if old is None else (old & val)
        if not new: return None
        if new == old: return facts
        d = dict(facts); d[key] = new; return d
    if old is not None:
        return facts if old == val else None
    # numeric implications between (lt a k) facts on the same term
    if key[0] == "lt" and isinstance(key[2], int):
        for kk, vv in facts.items():
            if kk[0] == "lt" and kk[1] == key[1] and isinstance(kk[2], int):
                if val and not vv and key[2] <= kk[2]: return None     # a<k, !(a<k'), k<=k'
                if not val and vv and key[2] >= kk[2]: return None
    d = dict(facts); d[key] = val; return d


def holds(facts, key, val):
    """does the fact set entail (key, val)?"""
    if key == ("int", 1): return bool(val)
    if isinstance(val, frozenset):
        o = facts.get(key)
        if o is None: o = lbpossible(key[1])
        return o <= val
    if facts.get(key) == val: return True
    if key[0] == "lt" and isinstance(key[2], int):
        for kk, vv in facts.items():
            if kk[0] == "lt" and kk[1] == key[1] and isinstance(kk[2], int):
                if val and vv and kk[2] <= key[2]: return True
                if not val and not vv and kk[2] >= key[2]: return True
            if kk[0] == "zero" and kk[1] == key[1] and vv and ((0 < key[2]) == val): return True
    return False


def entails(facts, v, pol):
    """does the fact set entail that condition value v has truth value pol?"""
    if v[0] == "or" and pol: return entails(facts, v[1], True) or entails(facts, v[2], True)
    if v[0] == "and" and not pol: return entails(facts, v[1], False) or entails(facts, v[2], False)
    return all(holds(facts, k, w) for k, w in atoms(v, pol))


def reduce_by(facts, v):
    """simplify a conjunction / disjunction by operands the facts decide"""
    if v[0] == "not":
        r = reduce_by(facts, v[1]); return ("not", r) if r is not v[1] else v
    if v[0] in ("and", "or") and facts:
        unit = v[0] == "and"
        a, b = reduce_by(facts, v[1]), reduce_by(facts, v[2])
        if entails(facts, a, unit): return b
        if entails(facts, b, unit): return a
        if entails(facts, a, not unit) or entails(facts, b, not unit): return ("int", int(not unit))
        if a is not v[1] or b is not v[2]: return (v[0], a, b)
    return v


class Ctx:
    """view of one abstract state at a node, handed to rules"""
    __slots__ = ("g", "node", "facts", "env", "ust", "run")

    def __init__(self, g, node, facts, env, ust, run):
        self.g = g; self.node = node; self.facts = facts; self.env = env; self.ust = ust; self.run = run

    def val(self, i): return self.g.val(self.node.frame, i, dict(self.env))
    def arg(self, n):
        a = self.node.x.get("args", [])
        return self.val(a[n]) if n < len(a) else ("none",)
    def nargs(self): return len(self.node.x.get("args", []))
    def obj(self):
        v = self.val(self.node.x.get("obj", -1))
        return deref(v) if v[0] in ("iterv", "iter") else v
    def holds(self, v, pol): return entails(self.facts, v, pol)
    def lhs(self):
        x = self.node.x
        if x["k"] == "init": return ("field", self.node.frame.this or ("this",), x.get("f", ""))
        if x["k"] == "call":
            v = self.val(x["obj"])
            if v[0] in ("obj", "local"): return v
            w = self.lval(x["obj"])          # assignment to a local copy does not change what it was copied from
            return w if w[0] == "local" else v
        return self.lval(x["a"])
    def lval(self, i):
        f = self.node.frame.func
        j = f.strip(i)
        x = f.x[j]
        if x["k"] == "ref" and x["dk"] in ("var", "param") and x["d"] not in getattr(f, "refvars", ()):
            f.defs
            if x["d"] not in f.refvars: return ("local", ("v", self.node.frame.key, x["d"]), x["n"])
        return self.val(i)
    def rhs(self):
        x = self.node.x
        if x["k"] == "init": return self.val(x["a"])
        if x["k"] == "call": return self.val(x["args"][0]) if x.get("args") else ("none",)
        if x["k"] == "un": return ("un", x["op"], self.val(x["a"]))
        return self.val(x["b"])


STOP = ("<stop>",)       # returned by a transfer or edge function: the path need not be followed further


class Run:
    """Worklist fixpoint over (node, facts, tracked definitions, rule state)."""

    def __init__(self, g, transfer, init=None, track=None, edge=None, cap=400000, track_defs=True):
        self.g = g; self.transfer = transfer; self.track = track; self.edge = edge
        self.cap = cap; self.nstates = 0; self.visited_nodes = set()
        self.deps_cache = {}
        self.violations = []
        self.pred = {}
        self.final = {}
        self.init = init
        self.track_defs = track_defs
        self.tracked = self.select_tracked() if track_defs else {}
        self.run()

    # which locals have their current definition in the state
    def select_tracked(self):
        T = {}
        for fr in self.g.frames:
            f = fr.func
            if not f.blocks: continue
            if f.id in T: continue
            s = set()
            for d, D in f.defs.items():
                if d not in f.decls: continue
                if d in f.refvars: continue
                ks = [q[0] for q in D]
                if "mut" in ks or "inc" in ks or "opasg" in ks: continue
                if len(D) < 2: continue
                s.add(d)
            T[f.id] = s
        return T

    def deps(self, v):
        r = self.deps_cache.get(v)
        if r is None:
            r = set()
            def go(w):
                if isinstance(w, frozenset):
                    for a in w: go(a)
                    return
                if not isinstance(w, tuple) or not w: return
                if w[0] in ("call", "icall", "new", "other") and isinstance(w[-1], tuple) and w[-1] and w[-1][0] == "site":
                    r.add(w[-1]); return          # result of an effectful operation: a snapshot
                if w[0] == "field": r.add(w[2])
                elif w[0] == "glob": r.add(w[1])
                elif w[0] in ("v", "site", "algo"): r.add(w)
                elif w[0] in ("at", "elem", "back"): r.add("Candy::Clause::literals")
                elif w[0] == "call" and len(w) > 1:
                    for f in self.g.prog.by_q.get(w[1], []): r.update(self.g.prog.read(f.id))
                for a in w: go(a)
            go(v)
            r = frozenset(r)
            self.deps_cache[v] = r
        return r

    def kills(self, n):
        """what a node may modify: set of fields / globals / keys"""
        x = n.x; g = self.g; p = g.prog; f = n.frame.func
        if n.kind == "block" or x is None: return None
        out = set()
        def lv(i):
            r = p.lvfield(f, i)
            if r is not None:
                if r[0] in "FG": out.add(r[1])
                else: return self.valkeys(g.val(n.frame, i))
            d = f.lvroot(i)
            if d is not None: out.add(("v", n.frame.key, d))
            v = g.val(n.frame, i)
            out.update(self.valkeys(v))
        if n.kind == "write":
            if x["k"] == "init":
                if "f" in x: out.add(x["f"])
            else:
                i = x["obj"] if x["k"] == "call" else x["a"]
                d = f.localref(i); f.defs
                if d is not None and d not in f.refvars:
                    out.add(("v", n.frame.key, d))
                    v = g.val(n.frame, i)
                    if v[0] in ("obj", "var"): out.add(v[1])
                else: lv(i)
        elif n.kind == "decl":
            for v in x["vars"]: out.add(("v", n.frame.key, v["d"]))
        elif n.kind in ("call", "ctor"):
            out.add(("site", n.frame.key, n.e))
            fn = x.get("fn", ""); sn = short(fn)
            if sn in ("operator++", "operator--", "operator+=", "operator-=") and x.get("obj", -1) >= 0:
                d = f.localref(x["obj"])
                if d is not None: out.add(("v", n.frame.key, d))      # a class-type iterator moves on
            if n.inl: return out
            ts = p.targets(x)
            for t in ts:
                out |= p.mod(t.id)
                for pi in p.pmod(t.id):
                    if pi < len(x.get("args", [])): lv(x["args"][pi])
            if not ts:
                if x.get("obj", -1) >= 0 and not x.get("const") and sn not in CONTAINER_RO: lv(x["obj"])
                for a, pt in zip(x.get("args", []), x.get("pt", [])):
                    if mutref(pt) and sn not in STORE_ONLY: lv(a)
                if x.get("obj", -1) < 0 and fn.startswith("std::") and sn not in READONLY_STD:
                    for a in outargs(sn, x.get("args", [])): lv(a)
        elif n.kind == "algoloop":
            out.add(n.extra)
        elif n.kind in ("new", "lambda"):
            out.add(("site", n.frame.key, n.e))
        return out

    def valkeys(self, v):
        """keys that identify the storage a value denotes"""
        w = v
        while isinstance(w, tuple) and w:
            if w[0] == "field": return {w[2]}
            if w[0] == "obj" or w[0] == "var": return {w[1]}
            if w[0] in ("at", "elem", "back", "size", "iter", "iterv"): w = w[1]; continue
            if w[0] == "glob": return {w[1]}
            break
        return set()

    def run(self):
        g = self.g
        start = (g.entry, frozenset(), frozenset(), self.init)
        work = [start]
        seen = {start}
        self.pred[start] = None
        killcache = {}
        while work:
            st = work.pop()
            ni, ff, dd, ust = st
            n = g.nodes[ni]
            self.nstates += 1
            self.visited_nodes.add(ni)
            if self.nstates > self.cap: raise AnalysisError("state budget exceeded in %s" % g.root.q)
            facts = dict(ff); env = dict(dd)
            # rule
            outs = [ust]
            cx = Ctx(g, n, facts, env, ust, self)
            cx_state = st
            self.cur = st
            if n.kind != "block":
                r = self.transfer(n, cx)
                if r is None: outs = [ust]
                elif r is STOP: continue
                elif isinstance(r, list): outs = r
                else: outs = [r]
            # kills and definitions
            if n.kind != "block":
                ks = killcache.get(ni)
                if ks is None:
                    ks = self.kills(n) or frozenset(); killcache[ni] = ks
                if ks and facts:
                    nf = {k: v for k, v in facts.items() if not (self.deps(k) & ks)}
                    if len(nf) != len(facts): facts = nf
            if self.tracked and (env or n.kind != "block"):
                env = self.defs_after(n, env)
            if not n.succ:
                for o in outs: self.final.setdefault((ni, n.kind), []).append((o, facts, st))
                continue
            for s, c in n.succ:
                nf = facts; ne = env
                if c is not None:
                    nf = self.apply(n, c, facts, env)
                    if nf is None: continue
                    if n.encl and ne:      # decided in an earlier round
                        drop = [("lg", n.frame.key, z) for z in n.encl if ("lg", n.frame.key, z) in ne]
                        if drop: ne = {k: v for k, v in ne.items() if k not in drop}
                    if n.lg is not None:
                        ne = dict(ne); ne[("lg", n.frame.key, n.lg)] = c[1]
                elif n.inl and env and n.kind in ("call", "ctor") and g.nodes[s].frame is not n.frame:
                    ne = self.bind(n, g.nodes[s].frame, env)
                for o in outs:
                    oo = o
                    if self.edge is not None and c is not None:
                        oo = self.edge(n, c, Ctx(g, n, nf, ne, o, self), o)
                        if oo is STOP: continue
                    ns = (s, frozenset(nf.items()), frozenset(ne.items()), oo)
                    if ns not in seen:
                        seen.add(ns); self.pred[ns] = st
                        work.append(ns)

    def bind(self, n, fr, env):
        """values of receiver and arguments as far as this path knows them better than the call site alone"""
        if fr.func.kind == "lambda" and n.kind != "call": return env
        new = {}
        for r, a in enumerate(n.x.get("args", [])):
            if fr.args is None or r >= len(fr.args): break
            v = self.g.val(n.frame, a, dict(env))
            if v != fr.args[r]: new[("a", fr.key, r)] = v
        if n.kind == "call" and n.x.get("obj", -1) >= 0 and fr.outer is None:
            v = self.g.objval(n.frame, n.x["obj"], dict(env))
            if v != fr.this: new[("a", fr.key, "this")] = v
        if not new: return env
        env = dict(env); env.update(new)
        return env

    def defs_after(self, n, env):
        f = n.frame.func; x = n.x
        T = self.tracked.get(f.id, ())
        def setdef(d, e):
            nonlocal env
            if d in T:
                for idx, (k, ee, r) in enumerate(f.defs[d]):
                    if ee == e:
                        env = dict(env); env[("v", n.frame.key, d)] = idx; return
        if n.kind == "decl":
            for v in x["vars"]: setdef(v["d"], n.e)
        elif n.kind == "write":
            if x["k"] == "bin":
                d = f.localref(x["a"])
                if d is not None: setdef(d, n.e)
            elif x["k"] == "call":
                d = f.localref(x["obj"])
                if d is not None: setdef(d, n.e)
        elif n.kind == "ret":
            fr = n.frame
            if fr.parent is not None:
                for ce, frs in fr.parent.calls.items():
                    if fr in frs:
                        env = dict(env)
                        # forget the finished frame, remember which return was taken
                        if len([1 for e, y in f.elems() if y["k"] == "ret"]) > 1 or len(frs) > 1:
                            env[("ret", fr.parent.key, ce)] = (fr.key, n.e)
                        break
        if n.kind == "block" and env:
            lv = f.live_in().get(n.extra, ())
            anc = set(); fr = n.frame
            while fr is not None: anc.add(fr.key); fr = fr.parent
            drop = [k for k in env if k[1] == n.frame.key and k[0] != "a" and (k[0], k[2]) not in lv]
            if drop: env = {k: v for k, v in env.items() if k not in drop}
            # finished callees matter only through a remembered return
            while True:
                need = set(v[0] for k, v in env.items() if k[0] == "ret")
                drop = [k for k in env if k[1] not in anc and k[1] not in need]
                if not drop: break
                env = {k: v for k, v in env.items() if k not in drop}
            return env
        if n.kind == "leave":
            fk = set(fr.key for fr in (n.frame.calls.get(n.e) or []))
            drop = [k for k in env if k[0] in ("v", "lg") and k[1] in fk and not self.needed(k, env)]
            if drop:
                env = {k: v for k, v in env.items() if k not in drop}
        return env

    def needed(self, k, env):
        # a tracked local of a finished callee matters only while a remembered return value mentions it
        return any(kk[0] == "ret" and vv[0] == k[1] for kk, vv in env.items())

    def apply(self, n, c, facts, env):
        g = self.g
        if c[0] == "case":
            v = g.val(n.frame, c[1], dict(env))
            if is_int(v):
                inn = str(v[1]) in c[2]
                return facts if inn != c[3] else None
            try: consts = [int(k) for k in c[2]]
            except ValueError: consts = []
            if consts and (c[3] or len(consts) == 1):
                for k in consts:
                    for key, val in atoms(("op", "==", v, ("int", k)), not c[3]):
                        o = facts.get(key)
                        if self.track is None or self.track(key) or o is not None:
                            facts = add_fact(facts, key, val)
                            if facts is None: return None
            if self.track is None or self.track(("case", v)):
                key = ("case", v, c[2])
                return add_fact(facts, key, not c[3])
            return facts
        v, pol = reduce_by(facts, g.val(n.frame, c[0], dict(env))), c[1]
        for key, val in atoms(v, pol):
            if key == ("int", 1):
                if not val: return None
                continue
            # always prune contradictions on already known facts
            o = facts.get(key)
            if self.track is None or self.track(key) or o is not None:
                facts = add_fact(facts, key, val)
                if facts is None: return None
            elif not isinstance(val, frozenset) and holds(facts, key, not val):
                return None
        return facts

    def report(self, msg, node, state=None):
        self.violations.append((msg, node, state if state is not None else self.cur))

    def trace(self, st, maxlen=12):
        """source lines of the branch decisions leading to st"""
        out = []
        while st is not None:
            n = self.g.nodes[st[0]]
            if n.x is not None or n.kind in ("exit",):
                out.append(n.line())
            st = self.pred.get(st)
        out.reverse()
        ded = [l for i, l in enumerate(out) if i == 0 or out[i - 1] != l]
        return ded[-maxlen:]
