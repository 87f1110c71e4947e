"""Debug aid: print the canonical events of an inlined function (never used by a check).
usage: python3 -m engine.dump QNAME [prims,comma,separated] [inst substring] [nofacts]"""
import sys
from .core import *

def dump(prog, q, prims=(), inst=None, facts=True, leaf=True):
    from rules.lib import Check
    ck = Check("X", "quick"); ck.prog = prog
    fs = prog.fn(q)
    f = fs[0]
    if inst: f = [x for x in fs if inst in x.id or inst in x.pretty][0]
    g = ck.graph(f, prims, leaf=leaf)
    seen = {}
    def tr(n, cx):
        if n.kind in ("call", "ctor", "write", "ret", "throw", "new", "delete"):
            if n.kind == "write": s = "%s := %s" % (vstr(cx.lhs()), vstr(cx.rhs()))
            elif n.kind == "ret": s = "return " + vstr(cx.val(n.x["a"]))
            elif n.kind in ("call",): s = "%s%s%s(%s)" % ("INL " if n.inl else "", vstr(cx.obj()) + "." if n.x.get("obj", -1) >= 0 else "", n.fn(), ", ".join(vstr(cx.arg(i)) for i in range(cx.nargs())))
            elif n.kind == "ctor": s = "ctor %s(%s)" % (n.x.get("cls"), ", ".join(vstr(cx.arg(i)) for i in range(cx.nargs())))
            else: s = n.kind
            fs = frozenset("%s%s" % ("!" if v is False else "", vstr(k) + ("" if isinstance(v, bool) else "=" + "/".join("TFU"[i] for i in sorted(v)))) for k, v in cx.facts.items())
            if n.kind in ("call", "ctor") and (n.fn().startswith(("Candy::Lit::", "Candy::lbool::", "Candy::Var::", "__gnu_cxx::")) or short(n.fn()) in CONTAINER_RO or (n.kind == "ctor" and ("iterator" in s or n.x.get("copy") or "Candy::Lit(" in s or "Candy::Var(" in s)) or n.fn() in KEEP or n.fn().startswith("Candy::Clause::") and short(n.fn()) in ("first", "second", "size", "begin", "end")): return
            k = (n.i, s)
            if k in seen: seen[k] = seen[k] & fs
            else: seen[k] = fs; out.append((n.i, n, s, k))
    out = []
    r = Run(g, tr, track=(lambda k: True) if facts else (lambda k: False))
    for i, n, s, k in sorted(out, key=lambda t: t[0]): print("%-28s f%d %-6s %s      [%s]" % (n.line().split("/")[-1], n.frame.key, n.kind, s, "; ".join(sorted(seen[k]))))
    print("nodes", len(g.nodes), "states", r.nstates)

if __name__ == "__main__":
    a = sys.argv
    dump(Prog(), a[1], [p for p in a[2].split(",") if p] if len(a) > 2 else (), a[3] if len(a) > 3 and a[3] else None, not (len(a) > 4 and "nofacts" in a[4]), not (len(a) > 4 and "noleaf" in a[4]))
