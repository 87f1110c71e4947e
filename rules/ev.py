"""Finite-domain evaluation of access-path values: decides what a small function computes from the values of its
sub-expressions.  Nothing is executed: a value expression is folded for every member of a finite set of valuations."""
from .lib import *


class Lb(tuple): pass            # lifted boolean constant
TRUE, FALSE, UNDEF = Lb((0,)), Lb((1,)), Lb((2,))
LB = (TRUE, FALSE, UNDEF)


class LitC(tuple): pass          # literal constant (variable, sign)


WIDTH = {"int": (32, 1), "unsigned int": (32, 0), "unsigned": (32, 0), "short": (16, 1), "unsigned short": (16, 0), "char": (8, 1), "signed char": (8, 1),
         "unsigned char": (8, 0), "bool": (1, 0), "long": (64, 1), "unsigned long": (64, 0)}


def ceval(v, env, deep=0):
    """value of expression v under env (a dict or a function from values to constants); None when not determined"""
    r = env(v) if callable(env) else env.get(v)
    if r is not None: return r
    if deep > 40: return None
    E = lambda w: ceval(w, env, deep + 1)
    k = v[0]
    if k == "int": return v[1]
    if k == "lb": return LB[v[1]] if v[1] in (0, 1, 2) else None
    if k == "lbool":
        b = E(v[1]); return None if b is None else (TRUE if b else FALSE)
    if k == "not":
        b = E(v[1])
        if isinstance(b, Lb): return None
        return None if b is None else int(not b)
    if k == "un":
        b = E(v[2])
        if not isinstance(b, int): return None
        return {"-": lambda: -b, "+": lambda: b, "~": lambda: ~b, "!": lambda: int(not b)}.get(v[1], lambda: None)()
    if k in ("and", "or"):
        a = E(v[1])
        if a is not None and bool(a) == (k == "or"): return int(k == "or")
        b = E(v[2])
        if b is not None and bool(b) == (k == "or"): return int(k == "or")
        return None if a is None or b is None else int(k == "and")
    if k == "cond":
        c = E(v[1])
        if c is None:
            a, b = E(v[2]), E(v[3]); return a if a == b else None
        return E(v[2]) if c else E(v[3])
    if k == "phi":
        s = {E(a) for a in v[1]}
        return s.pop() if len(s) == 1 else None
    if k == "op":
        op = v[1]; a, b = E(v[2]), E(v[3])
        if a is None or b is None:
            if op in ("*", "&") and 0 in (a, b): return 0
            return None
        if op == "==": return int(a == b)
        if op == "!=": return int(a != b)
        if isinstance(a, LitC) and isinstance(b, LitC): a, b = 2 * a[0] + a[1], 2 * b[0] + b[1]
        if not isinstance(a, int) or not isinstance(b, int): return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
                    ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "/": lambda: None if b == 0 else int(a / b), "%": lambda: None if b == 0 else a - b * int(a / b), "&&": lambda: int(bool(a and b)), "||": lambda: int(bool(a or b))}[op]()
        except (KeyError, ValueError): return None
    if k == "narrow":
        a = E(v[2]); w = WIDTH.get(v[1])
        if not isinstance(a, int) or w is None: return None
        if v[1] == "bool": return int(bool(a))
        a &= (1 << w[0]) - 1
        return a - (1 << w[0]) if w[1] and a >> (w[0] - 1) else a
    if k == "mk" and v[1].rsplit("::", 1)[-1] in ("Lit", "mkLit") and len(v[2]) in (1, 2):
        a = E(v[2][0]); b = E(v[2][1]) if len(v[2]) > 1 else 0
        return None if not isinstance(a, int) or b is None else LitC((a, int(bool(b))))
    if k == "mk" and v[1].rsplit("::", 1)[-1] == "Var" and len(v[2]) == 1: return E(v[2][0])
    if k == "neg":
        a = E(v[1]); return LitC((a[0], 1 - a[1])) if isinstance(a, LitC) else None
    if k == "var_of":
        a = E(v[1]); return a[0] if isinstance(a, LitC) else None
    if k == "sign_of":
        a = E(v[1]); return a[1] if isinstance(a, LitC) else None
    if k == "lbxor":
        a, b = E(v[1]), E(v[2])
        if not isinstance(a, Lb) or b is None: return None
        return a if not b or a == UNDEF else (FALSE if a == TRUE else TRUE)
    if k == "call" and short(v[1]) in ("abs", "labs") and len(v[3]) == 1:
        a = E(v[3][0]); return abs(a) if isinstance(a, int) else None
    if k == "call" and short(v[1]) in ("min", "max") and len(v[3]) == 2:
        a, b = E(v[3][0]), E(v[3][1])
        return None if a is None or b is None else {"min": min, "max": max}[short(v[1])](a, b)
    if k == "at":
        i = E(v[2])
        if i is not None and not (isinstance(v[2], tuple) and v[2][0] == "int"): return E(("at", v[1], ("int", i)))
    return None


def consistent(facts, env):
    """False: the facts contradict env; True: all facts could be evaluated and hold; None: some facts are unknown"""
    res = True
    for key, want in facts.items():
        k = key[0]
        if k == "zero":
            a = ceval(key[1], env)
            if a is None or isinstance(a, (Lb, LitC)): res = None
            elif (a == 0) != want: return False
        elif k == "eq":
            a, b = ceval(key[1], env), ceval(key[2], env)
            if a is None or b is None: res = None
            elif (a == b) != want: return False
        elif k == "lt":
            a = ceval(key[1], env) if isinstance(key[1], tuple) else key[1]
            b = ceval(key[2], env) if isinstance(key[2], tuple) else key[2]
            if not isinstance(a, int) or not isinstance(b, int): res = None
            elif (a < b) != want: return False
        elif k == "lbv":
            a = ceval(key[1], env)
            if not isinstance(a, Lb): res = None
            elif a[0] not in want: return False
        else: res = None
    return res


def table(ck, rule, g, envs, expect, what, sel=None, value=None, relevant=None, subject=None):
    """at every return (or node selected by sel) and for every valuation compatible with the path's facts, the value is the
    expected one.  expect(name, env) -> constant, or a predicate"""
    seen = set(); unknown = [0]
    sel = sel or (lambda n, cx: n.kind == "ret" and n.frame is g.rootframe and n.x.get("a", -1) >= 0)
    value = value or (lambda n, cx: cx.val(n.x["a"]))
    def tr(n, cx):
        if n.kind != "block" and sel(n, cx):
            v = value(n, cx)
            for name, env in envs:
                c = consistent(cx.facts, env)
                if c is False: continue
                got = ceval(v, env)
                if got is None: unknown[0] += 1; continue
                seen.add(name)
                want = expect(name)
                ok = want(got) if callable(want) else (got == want and isinstance(got, Lb) == isinstance(want, Lb))
                if not ok and c is None and relevant is not None and any(relevant(k) and consistent({k: w}, env) is None for k, w in cx.facts.items()): continue
                if not ok: cx.run.report("%s: %s gives %s" % (what, name, show(got)), n)
        return None
    ck.run(rule, g, tr, None, "all", subject=subject)
    miss = [n for n, _ in envs if n not in seen]
    if miss: ck.note(rule, "%s: not evaluated for %s" % (g.root.q, ", ".join(miss[:4])))
    return seen


def show(c):
    if isinstance(c, Lb): return ("true", "false", "undefined")[c[0]]
    if isinstance(c, LitC): return "literal %s%d" % ("-" if c[1] else "", c[0] + 1)
    return str(c)


def canbe(v, facts, E, free=lambda z: True, vals=(0, 1, 5)):
    """can v be non-zero under E when its other quantities (sizes, levels, results of unrelated functions) are arbitrary?
    True/False, or None when it depends on something that is not understood"""
    import itertools
    r = ceval(v, E)
    if r is not None: return bool(r) and consistent(facts, E) is not False
    atoms = []
    def go(z):
        if not (isinstance(z, tuple) and z and isinstance(z[0], str)): return
        if E(z) is not None: return
        if z[0] in ("size", "call", "field"):
            if z not in atoms: atoms.append(z)
            return
        for y in z[1:]:
            if isinstance(y, tuple): go(y)
            elif isinstance(y, frozenset):
                for q in y: go(q)
    go(v)
    if not atoms or len(atoms) > 5 or not all(free(z) for z in atoms): return None
    known = False
    for vs in itertools.product(vals, repeat=len(atoms)):
        d = dict(zip(atoms, vs))
        E2 = lambda z: d[z] if z in d else E(z)
        if consistent(facts, E2) is False: continue
        r = ceval(v, E2)
        if r is None: continue
        known = True
        if r: return True
    return False if known else None
