"""P12: what the command line tool reports; P14: option parsing; P16: the parallel portfolio."""
from .lib import *
from .ev import *
T = ("this",)
PRIM = ("Candy::*", "runSolverThread", "printGateStatistics", "printProblemStatistics", "installSignalHandlers")


def glob(name): return lambda v: isinstance(v, tuple) and len(v) > 1 and v[0] == "glob" and v[1].rsplit("::", 1)[-1] == name


def mains(ck, q="main"): return [f for f in ck.fns(q) if f.file.endswith("Main.cc")]


def text(v, env):
    """string constant of a value under env"""
    if v[0] == "str": return v[1]
    if v[0] == "cond":
        c = ceval(v[1], env)
        return None if c is None else text(v[2] if c else v[3], env)
    return None


def texts(v):
    return [w[1] for w in walk(v) if isinstance(w, tuple) and len(w) > 1 and w[0] == "str"]


def outs(n, cx):
    """the value written to standard output by a node, or None"""
    if n.kind != "call": return None
    s = short(n.fn())
    if s in ("printf", "puts", "fputs", "std::puts"): return cx.arg(0)
    o = out_event(n, cx)
    if o is not None:
        t = o[1]
        return ("str", t[1]) if t[0] == "s" else t[1] if t[0] == "v" else None
    return None


def free_env(v, env, facts):
    """environments that extend env by every combination of the unknown globals a condition in v reads (as far as the facts allow)"""
    atoms = []
    for w in walk(v):
        if isinstance(w, tuple) and w and w[0] in ("glob",) and env(w) is None and w not in atoms and not any(isinstance(y, tuple) and y and y[0] == "field" and w in y for y in walk(v)): atoms.append(w)
        if isinstance(w, tuple) and w and w[0] == "field" and w[1][0] == "glob" and env(w) is None and w not in atoms: atoms.append(w)
    if len(atoms) > 4: return [env]
    out = []
    for bits in range(1 << len(atoms)):
        m = {a: bits >> i & 1 for i, a in enumerate(atoms)}
        if any(facts.get(("zero", a)) is bool(b) for a, b in m.items()): continue
        out.append(lambda w, m=m: m[w] if w in m else env(w))
    return out


ANSWER = {TRUE: ("s SATISFIABLE", 10), FALSE: ("s UNSATISFIABLE", 20), UNDEF: ("s INDETERMINATE", 0)}


def o_answer(ck, rule="after solving, the answer line and the exit code say exactly what the solver answered"):
    for f in mains(ck):
        g = ck.graph(f, PRIM); res = glob("result")
        env = lambda L: (lambda v: L if res(v) else None)
        def sline(v):
            """does the value print an answer line: None / list of texts per answer"""
            if v is None: return None
            t = texts(v)
            if not any(x.lstrip().startswith("s ") for x in t): return None
            return t
        rf = lambda facts: {k: w for k, w in facts.items() if has(k, res)}
        code = lambda v: v[1] if is_int(v) else None
        # state: solved, answer line printed, verified (None / True / False)
        def tr(n, cx):
            solved, line, ver = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind == "call" and n.fn() == "Candy::CandySolverInterface::solve": return (True, line, ver)
            if n.kind == "call" and short(n.fn()) == "hasResult" or n.kind == "ctor" and n.x.get("cls", "").endswith("std::thread"): return (True, line, ver)
            v = outs(n, cx)
            if sline(v) is not None:
                if line: cx.run.report("a second answer line is printed", n)
                if not solved: cx.run.report("an answer is printed before solving", n)
                for L in LB:
                    if consistent(rf(cx.facts), env(L)) is False: continue
                    for t in {text(v, e_) for e_ in free_env(v, env(L), cx.facts)}:
                        if t is not None and t.strip() != ANSWER[L][0]: cx.run.report("the answer %s is printed as '%s'" % (show(L), t.strip()), n)
                return (solved, True, ver)
            if v is not None and any("verified by" in x for x in texts(v)):
                t = texts(v)[0]; good = "not" not in t.split("verified")[0]
                chk = lambda w: w[0] == "call" and short(w[1]) in ("checkResult", "check_proof")
                known = next((not w for k, w in cx.facts.items() if k[0] == "zero" and chk(k[1])), None)
                which = next((short(k[1][1]) for k, w in cx.facts.items() if k[0] == "zero" and chk(k[1])), None)
                if known is None or known != good: cx.run.report("'%s' is printed%s" % (t.strip(), " although the check %s" % ("failed" if known is False else "succeeded") if known is not None else " without a check"), n)
                if which == "checkResult" and "proof" in t or which == "check_proof" and "model" in t: cx.run.report("the wrong check is reported", n)
                return (solved, line, good)
            ex = None
            if n.kind == "ret" and n.frame is g.rootframe: ex = cx.val(n.x["a"])
            if n.kind == "call" and short(n.fn()) in ("exit", "_exit", "quick_exit", "_Exit"): ex = cx.arg(0)
            if ex is not None and solved:
                if not line: cx.run.report("the program ends without an answer line", n)
                if ver is not None:
                    c = ceval(ex, lambda v: None)
                    if c is not None and (c == 0) != ver: cx.run.report("exit code %d after a %s check" % (c, "successful" if ver else "failed"), n)
                else:
                    for L in LB:
                        if consistent(rf(cx.facts), env(L)) is False: continue
                        for c in {ceval(ex, e_) for e_ in free_env(ex, env(L), cx.facts)}:
                            if c is not None and c != ANSWER[L][1]: cx.run.report("the answer %s ends with exit code %s" % (show(L), c), n)
            return cx.ust
        track = lambda k: has(k, res) or mentions(k, "checkResult", "check_proof")
        def started(n, c, cx, u):
            # the loop that starts the solver threads counts as solving, whatever number of threads was asked for
            if c[0] != "case" and not u[0]:
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                if mentions(v, "opt_threads") and has(v, lambda w: w[0] == "ivar"): return (True,) + u[1:]
            return u
        ck.run(rule, g, tr, (False, False, None), track, started, subject=f.q)
        # unreadable input: an error exit without an answer
        for b in f.blocks.values():
            if not b.get("catch"): continue
            seen, todo, bad = set(), [b["b"]], None
            byid = f.blocks
            while todo and bad is None:
                i = todo.pop()
                if i in seen or i not in byid: continue
                seen.add(i); c = byid[i]
                stop = False
                for e in c["e"]:
                    x = f.x[e]
                    if x["k"] == "ret":
                        v = g.val(g.rootframe, x["a"]) if x.get("a", -1) >= 0 else None
                        if v is not None and is_int(v) and v[1] == 0: bad = "an unreadable input ends with exit code 0"
                        stop = True
                    if x["k"] == "call" and short(x.get("fn") or "") == "exit":
                        v = g.val(g.rootframe, x["args"][0])
                        if is_int(v) and v[1] == 0: bad = "an unreadable input ends with exit code 0"
                        stop = True
                    if x["k"] == "call" and (x.get("fn") or "") == "Candy::CandySolverInterface::solve": bad = "an unreadable input is solved"
                    if x["k"] == "call" and short(x.get("fn") or "") in ("printf", "operator<<", "puts"):
                        if any(t.startswith("s ") for a in x["args"] for t in texts(g.val(g.rootframe, a))): bad = "an answer is printed for an unreadable input"
                if not stop: todo += [s for s in c["s"] if s >= 0]
            ck.judge(rule, f.q + " (unreadable input)", bad is None, f.where(), bad or "")


def o_input(ck, rule="the problem that was read is the one that is solved, checked and reported on, and the model is the answering solver's"):
    for f in mains(ck):
        g = ck.graph(f, PRIM); slv = glob("solver"); probs = set(); rets = []
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            if n.kind == "call":
                s = short(n.fn())
                if s in ("readDimacsFromFile", "readDimacsFromStdin"):
                    probs.add(cx.obj())
                    if s == "readDimacsFromFile":
                        a = cx.arg(0)
                        if a[0] == "at" and is_int(a[2]) and a[2][1] != 1: cx.run.report("argument %d is read instead of the first" % a[2][1], n)
                        if any(k == ("eq", ("param",) + k[1][1:], ("int", 1)) and w for k, w in cx.facts.items() if k[0] == "eq" and isinstance(k[1], tuple) and k[1][0] == "param"): cx.run.report("a file is read although none was given", n)
                    return True
                if n.fn() == "Candy::CandySolverInterface::init":
                    if not cx.ust: cx.run.report("a solver is set up before the input is read", n)
                    if probs and cx.arg(0) not in probs and cx.arg(0)[0] in ("obj", "var", "glob"): cx.run.report("another problem is solved", n)
                if s == "checkResult":
                    if probs and cx.obj() not in probs and cx.obj()[0] in ("obj", "var", "glob"): cx.run.report("the model is checked against another problem", n)
                    a = cx.arg(0)
                    if not (a[0] == "call" and short(a[1]) == "getCandySolverResult" and slv(a[2])) and a[0] in ("obj", "mk"): cx.run.report("another model is checked", n)
                if s == "clear" and n.fn().endswith("CNFProblem::clear"): cx.run.report("the problem is cleared", n)
            if n.kind == "ctor" and n.x.get("cls", "").endswith("DRATChecker") and probs:
                if cx.arg(0) not in probs and cx.arg(0)[0] in ("obj", "var", "glob"): cx.run.report("the proof is checked against another problem", n)
            return cx.ust
        ck.run(rule, g, tr, False, "all" if False else (lambda k: k[0] == "eq" and has(k, lambda w: w[0] == "param")), subject=f.q)
        # a solver is set up completely before it runs
        def ready(n, cx):
            u = cx.ust
            if n.kind == "write" and slv(cx.lhs()): return frozenset()
            if n.kind == "call":
                if n.fn() == "Candy::CandySolverInterface::init": return u | {"init"}
                if n.fn() == "Candy::CandySolverInterface::solve" and "init" not in u: cx.run.report("a solver runs without the problem", n)
            return u
        for h in mains(ck) + mains(ck, "runSolverThread"):
            ck.run(rule, ck.graph(h, PRIM), ready, frozenset(), None, subject=h.q + " (set-up)")
        # a proof that is to be checked is recorded
        def pr(n, cx):
            u = cx.ust
            if n.kind == "call" and short(n.fn()) in ("operator=", "set") and mentions(cx.obj(), "opt_certified_file") and n.x.get("obj", -1) >= 0: return u or cx.arg(0) != ("str", "")
            if n.kind == "call" and short(n.fn()) in ("createSolver", "createRSARSolver") and not u:
                tp = [(k, w) for k, w in cx.facts.items() if k[0] == "zero" and mentions(k, "test_proof")]
                fl = [(k, w) for k, w in cx.facts.items() if mentions(k, "opt_certified_file")]
                if any(not w for k, w in tp) and not any(k[0] in ("zero", "lt") and w is False for k, w in fl): cx.run.report("a proof is to be checked but no proof file is set", n)
            return u
        ck.run(rule, g, pr, False, lambda k: mentions(k, "test_proof", "opt_certified_file"), subject=f.q + " (proof file)")


def o_model(ck, rule="the model line lists every variable of the problem with its value, once, for satisfiable answers only"):
    for f in mains(ck):
        g = ck.graph(f, PRIM + ("Candy::operator<<",)); res = glob("result")
        nv = lambda v: v[0] == "field" and fieldof(v) == "variables" or v[0] == "call" and short(v[1]) == "nVars"
        ismod = lambda v: v is not None and has(v, lambda w: w[0] == "call" and short(w[1]) == "value" and len(w) > 3 and w[3]) or v is not None and has(v, lambda w: w[0] == "at" and fieldof(w[1]) == "model")
        N = 7
        # state: no / open line; loop done
        def tr(n, cx):
            st, done = cx.ust
            if n.kind == "block": return cx.ust
            v = outs(n, cx)
            if v is not None:
                t = texts(v)
                if v[0] == "str" and v[1].startswith("v") and v[1].strip() in ("v",):
                    if st != "no": cx.run.report("a model line is started within a model line", n)
                    if not any(k[0] == "lbv" and res(k[1]) and w == frozenset([0]) for k, w in cx.facts.items()): cx.run.report("a model line is printed although the answer is not satisfiable", n)
                    return ("open", False)
                if ismod(v):
                    if st == "no": cx.run.report("a value is printed outside the model line", n)
                    elif st == "open" and "sep" not in (done,) and done is not True: pass
                    return (st, done)
                if v[0] == "str" and st == "open" and v[1].strip() == "0":
                    if not done: cx.run.report("the model line ends before all variables are listed", n)
                    if not v[1].startswith(" "): cx.run.report("the last value and the terminating 0 run together", n)
                    return ("no", done)
            ex = n.kind == "ret" and n.frame is g.rootframe or n.kind == "call" and short(n.fn()) in ("exit", "_exit")
            if ex and st == "open": cx.run.report("the model line is not terminated by 0", n)
            return cx.ust
        def ed(n, c, cx, u):
            if c[0] == "case" or u[0] != "open": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
            if not has(v, nv): return u
            iv = next((w for w in walk(v) if isinstance(w, tuple) and w and w[0] in ("ivar", "phi")), None)
            if iv is None: return u
            if iv[0] == "ivar" and ceval(iv[2], lambda w: N if nv(w) else None) not in (0, N, None): cx.run.report("the model line starts with variable %s" % (ceval(iv[2], lambda w: N if nv(w) else None) + 1), n)
            r = [ceval(v, lambda w: k if w == iv else N if nv(w) else None) for k in (0, N - 1, N)]
            if None in r: return u
            if iv[0] == "ivar" and is_int(iv[2]) and iv[2][1] == 0:
                if not r[0] or not r[1]: cx.run.report("the last variables are missing in the model line", n)
                if r[2]: cx.run.report("the model line lists a variable that does not exist", n)
            if bool(r[2]) == pol: return (u[0], True)
            return u
        ck.run(rule, g, tr, ("no", False), lambda k: k[0] == "lbv" and has(k, res), ed, subject=f.q)
        # a model that was asked for is printed, a check that was asked for is made
        opt = lambda name: lambda v: v[0] == "field" and mentions(v, name) or v[0] == "glob" and v[1].rsplit("::", 1)[-1] == name
        slv = glob("solver"); mod, tm, tp = opt("mod"), opt("test_model"), opt("test_proof")
        known = lambda v: res(v) or slv(v) or mod(v) or tm(v) or tp(v)
        def done_(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            v = outs(n, cx)
            if v is not None:
                t = texts(v)
                if any(x.startswith("s ") for x in t): return frozenset(["answered"])
                if u and any(x.strip() == "v" or "Model: " in x for x in t): return u | {"model"}
            if u and n.kind == "call" and short(n.fn()) in ("checkResult", "check_proof"): return u | {short(n.fn())}
            ex = n.kind == "ret" and n.frame is g.rootframe or n.kind == "call" and short(n.fn()) in ("exit", "_exit")
            if ex and u:
                fs = {k: w for k, w in cx.facts.items() if has(k, known)}
                def can(L, m, a, b): return consistent(fs, lambda v: L if res(v) else 1 if slv(v) else m if mod(v) else a if tm(v) else b if tp(v) else None)
                if "model" not in u and can(TRUE, 1, 0, 0) is True and can(TRUE, 0, 0, 0) is not True: cx.run.report("the model is not printed although it was asked for", n)
                if "checkResult" not in u and can(TRUE, 0, 1, 0) is True and can(TRUE, 0, 0, 0) is not True: cx.run.report("the model is not checked although this was asked for", n)
                if "check_proof" not in u and can(FALSE, 0, 0, 1) is True and can(FALSE, 0, 0, 0) is not True: cx.run.report("the proof is not checked although this was asked for", n)
            return u
        ck.run(rule, g, done_, frozenset(), lambda k: has(k, known), subject=f.q + " (on request)")
        # each iteration prints one value
        for n in g.nodes:
            if n.kind == "call" and short(n.fn()) == "value" and n.fn().startswith("Candy::CandySolverResult") and n.frame is g.rootframe:
                a = g.val(n.frame, n.x["args"][0])
                if a[0] == "op" or is_int(a): ck.bad(rule, f.q, n.line(), "the value of variable %s is printed" % vstr(a))
                else: ck.ok(rule, f.q + " (value)")
        def every(n, cx):
            if n.kind != "block":
                v = outs(n, cx)
                if v is not None and ismod(v): return "printed"
            return cx.ust
        def ev_edge(n, c, cx, u):
            if c[0] == "case": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            if not has(v, nv): return u
            iv = next((w for w in walk(v) if isinstance(w, tuple) and w and w[0] == "ivar"), None)
            if iv is None: return u
            r = ceval(v, lambda w: 0 if w == iv else N if nv(w) else None)
            if r is None: return u
            if u == "in": cx.run.report("a variable is missing in the model line", n)
            return "in" if bool(r) == c[1] else "out"
        ck.run(rule, g, every, "out", None, ev_edge, subject=f.q + " (each variable)")


# ---------------------------------------------------------------- P14
def names(v, *fs): return isinstance(v, tuple) and len(v) > 1 and v[0] == "field" and fieldof(v) in fs


def o_parse(ck, rule="an option takes exactly the values given for it by its full name and within its range, and rejects all others"):
    STR, LEN = 1000, 6
    for cls, num in (("IntOption", 1), ("Int64Option", 1), ("DoubleOption", 2), ("StringOption", 0), ("BoolOption", 3)):
        for f in ck.fns("Candy::%s::parse" % cls):
            g = ck.graph(f, ("Candy::%s::set" % cls,) if num == 0 else ()); p = P(f, 0)
            cases = []
            if num in (1, 2):
                for where in ("start", "later", "none"):
                    for conv in (0, 1):
                        for k in (1, 2, 3, 5, 6):
                            for bi, ei in (((1, 1), (0, 1), (1, 0), (0, 0)) if num == 2 else ((1, 1),)):
                                good = where == "start" and conv; rng = (k > 2 or k == 2 and bi) and (k < 5 or k == 5 and ei)
                                cases.append(("name %s, %s%s" % ({"start": "matches", "later": "occurs later", "none": "differs"}[where], "value %d of %s2,5%s" % (k, "[" if bi else "(", "]" if ei else ")") if conv else "no value", ""),
                                              dict(where=where, conv=conv, k=k, bi=bi, ei=ei), ("set", k) if good and rng else "exit" if good else "no"))
            elif num == 0:
                for where in ("start", "later", "none"): cases.append(("name " + where, dict(where=where, conv=1, k=3, bi=1, ei=1), ("set", STR + LEN) if where == "start" else "no"))
            else:
                for y, n_, l in (("start", "none", 6), ("start", "none", 8), ("none", "start", 9), ("none", "start", 12), ("none", "none", 6), ("later", "none", 9), ("none", "later", 12), ("none", "none", 9)):
                    cases.append(("yes-form %s, no-form %s, length %d" % (y, n_, l), dict(y=y, n=n_, l=l), ("set", 1) if y == "start" and l == 6 else ("set", 0) if n_ == "start" and l == 9 else "no"))
            def mkenv(c):
                pat = lambda w, name: has(w, lambda z: names(z, name))
                pos = {"start": STR, "later": STR + 3, "none": 0}
                def env(v):
                    if v == p: return STR
                    if v[0] == "call":
                        s = short(v[1])
                        if s in ("strstr", "strncmp", "strcmp", "memcmp"):
                            if num == 3:
                                which = "y" if any(pat(a, "yes_pattern") for a in v[3]) else "n" if any(pat(a, "no_pattern") for a in v[3]) else None
                                if which is None: return None
                                w = c[which]
                                if s == "strcmp": return int(not (w == "start" and c["l"] == (6 if which == "y" else 9)))
                            elif any(pat(a, "pattern") for a in v[3]): w = c["where"]
                            else: return None
                            return pos[w] if s == "strstr" else int(w != "start")
                        if s == "strlen" and v[3] == (p,): return c.get("l")
                        if s == "strlen" and pat(v[3][0], "yes_pattern"): return 6
                        if s == "strlen" and pat(v[3][0], "no_pattern"): return 9
                        if s == "strlen" and pat(v[3][0], "pattern"): return LEN
                        if s in ("strtol", "strtoll", "strtod", "strtof", "atoi"): return c.get("k")
                    if names(v, "len"): return LEN
                    if names(v, "yes_len"): return 6
                    if names(v, "no_len"): return 9
                    if names(v, "begin"): return 2
                    if names(v, "end"): return 5
                    if names(v, "begin_inclusive"): return c.get("bi")
                    if names(v, "end_inclusive"): return c.get("ei")
                    if v in ends: return STR + LEN + (2 if c.get("conv") else 0)
                    return None
                return env
            ends = set()
            for n in g.nodes:
                if n.kind == "call" and short(n.fn()) in ("strtol", "strtoll", "strtod", "strtof") and len(n.x["args"]) > 1:
                    e = g.val(n.frame, n.x["args"][1]); ends.add(e)
                    if e[0] == "un": ends.add(e[2])
                    if len(n.x["args"]) > 2:
                        b = g.val(n.frame, n.x["args"][2])
                        ck.judge(rule, f.q + " (base)", not is_int(b) or b[1] == 10, n.line(), "numbers are read with base %s" % vstr(b))
                    st = ceval(g.val(n.frame, n.x["args"][0]), mkenv(dict(where="start", conv=1, k=3, bi=1, ei=1)))
                    ck.judge(rule, f.q + " (start)", st in (None, STR + LEN), n.line(), "the value is read from character %s behind the start of a name of length %d" % (None if st is None else st - STR, LEN))
            for e, x in f.elems():
                if num != 1 or x["k"] != "decl": continue
                for w in x["vars"]:
                    if w.get("init", -1) >= 0 and any(f.x[q]["k"] == "call" and short(f.x[q].get("fn") or "") in ("strtol", "strtoll") for q in f.subtree(w["init"])):
                        ck.judge(rule, f.q + " (width)", w["t"].replace("const ", "") not in ("int", "int32_t", "short", "unsigned int"), f.where(e) if False else f.where(), "the number is cut to %s before its range is checked" % w["t"])
            seen = {}
            def tr(n, cx):
                if n.kind == "block": return cx.ust
                if n.kind == "write" and cx.lhs()[0] == "field" and fieldof(cx.lhs()) == "value" and cx.lhs()[1] == T: return ("w", cx.rhs())
                if n.kind == "call" and short(n.fn()) == "set" and n.x.get("obj", -1) >= 0 and cx.obj() == T: return ("w", cx.arg(0))
                out = None
                if n.kind == "ret" and n.frame is g.rootframe: out = cx.val(n.x["a"])
                elif n.kind == "call" and short(n.fn()) == "exit": out = "exit"
                if out is None: return cx.ust
                for nm, c, want in cases:
                    env = mkenv(c)
                    if consistent(cx.facts, env) is not True: continue
                    if out == "exit": got = "exit"
                    else:
                        r = ceval(out, env)
                        if r is None: continue
                        w = ceval(cx.ust[1], env) if cx.ust[0] == "w" else None
                        if cx.ust[0] == "w" and w is None:
                            if cx.ust[1][0] in ("not", "op") and has(cx.ust[1], lambda z: z == ("field", T, "Candy::%s::value" % cls)): cx.run.report("%s: the new value depends on the old one" % nm, n)
                            continue
                        if r and cx.ust[0] != "w": got = "accepted without effect"
                        elif not r and cx.ust[0] == "w": got = "rejected after a change"
                        else: got = ("set", w) if r else "no"
                    seen[nm] = True
                    if got != want:
                        sh = lambda q: {"no": "not recognised", "exit": "an error"}.get(q, q) if isinstance(q, str) else "value %s" % (q[1] if num != 0 else "text behind the name" if q[1] == STR + LEN else "text at %d" % (q[1] - STR))
                        cx.run.report("%s: %s instead of %s" % (nm, sh(got), sh(want)), n)
                return cx.ust
            ck.run(rule, g, tr, ("n",), "all", subject=f.q)
            total = len({c[0] for c in cases})
            if len(seen) < total: ck.note(rule, "%s: %d of %d cases not evaluated" % (f.q, total - len(seen), total))


def o_names(ck, rule="an option is registered under its name, keeps its default, and gives out the value it holds"):
    for cls, fmts in (("IntOption", {"pattern": "-%s="}), ("Int64Option", {"pattern": "-%s="}), ("DoubleOption", {"pattern": "-%s="}), ("StringOption", {"pattern": "-%s="}), ("BoolOption", {"yes_pattern": "-%s", "no_pattern": "-no-%s"})):
        for f in ck.fns("Candy::%s::%s" % (cls, cls)):
            g = ck.graph(f, ("Candy::Option::Option", "Candy::%s::set" % cls))
            got = {}
            def tr(n, cx):
                if n.kind == "call" and short(n.fn()) in ("sprintf", "snprintf"):
                    b = cx.arg(0); i = 1 if short(n.fn()) == "sprintf" else 2
                    b = b[1] if b[0] == "iter" else b
                    if names(b, *fmts): got.setdefault(fieldof(b), (n, cx.arg(i), cx.arg(i + 1)))
                if n.kind == "write" and cx.lhs()[0] == "field" and cx.lhs()[1] == T and fieldof(cx.lhs()) == "value" and cls != "StringOption":
                    v = cx.rhs()
                    if v[0] == "int" or v[0] == "param" and v[1] not in ("def", "v", f.params[3]["n"]): cx.run.report("the default value is replaced by %s" % vstr(v), n)
                return None
            ck.run(rule, g, tr, None, subject=f.q)
            for fld, fmt in fmts.items():
                if fld not in got: ck.note(rule, "%s: %s not recognised" % (f.q, fld)); continue
                n, s, a = got[fld]
                if s[0] == "str": ck.judge(rule, f.q + " " + fld, s[1] == fmt, n.line(), "the option is recognised by '%s' instead of '%s'" % (s[1], fmt))
                if a[0] in ("param", "field"): ck.judge(rule, f.q + " " + fld + " name", fieldof(a) == "name" or a == P(f, 1), n.line(), "the option is recognised by %s" % vstr(a))
        V = ("field", T, "Candy::%s::value" % cls)
        for f in ck.prog.funcs.values():
            if f.q.startswith("Candy::%s::" % cls) and f.kind != "ctor" and short(f.q) in ("get", "operator int", "operator int32_t", "operator long", "operator double", "operator bool", "operator const char *", "operator bool &", "operator int64_t"):
                g = ck.graph(f)
                for n in g.nodes:
                    if n.kind == "ret":
                        v = g.val(n.frame, n.x["a"]); ck.judge(rule, f.pretty, v == V or not (v[0] in ("not", "op", "int", "field", "un")), n.line(), "%s gives out %s" % (f.pretty, vstr(v)))
            if f.q in ("Candy::%s::set" % cls, "Candy::%s::operator=" % cls) and len(f.params) == 1 and cls not in f.params[0].get("t", ""):
                g = ck.graph(f); p = P(f, 0)
                if cls != "StringOption":
                    must(ck, rule, g, lambda n, cx: n.kind == "write" and cx.lhs() == V and (cx.rhs() == p or cx.rhs()[0] == "narrow"), "the value is not stored", subject=f.pretty)
                else:
                    strset(ck, rule, f, g, p, V)
    for f in ck.fns("Candy::Option::Option"):
        g = ck.graph(f); d = P(f, 4) if len(f.params) > 4 else None
        isreg = lambda n, cx: n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and cx.arg(0) == T
        def tr(n, cx):
            if n.kind != "block" and isreg(n, cx): return True
            return cx.ust
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            dis = facts.get(("zero", d))
            if dis is True and not u: return "an option is not registered"
            if dis is False and u: return "a disabled option is registered"
        ck.run(rule, g, tr, False, lambda k: k == ("zero", d), final=fin, subject=f.q)


def aeval(f, e, env):
    """integer value of an expression over locals and parameters"""
    x = f.x[f.strip(e)]
    if x["k"] == "int": return int(x.get("v", x.get("val", 0)))
    if x["k"] == "ref": return env(x["n"]) if x.get("dk") in ("var", "param", "parm") else None
    if x["k"] == "bin":
        a, b = aeval(f, x["a"], env), aeval(f, x["b"], env)
        if a is None or b is None: return None
        o = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, ">": lambda: int(a > b), "<": lambda: int(a < b), ">=": lambda: int(a >= b), "<=": lambda: int(a <= b), "==": lambda: int(a == b), "!=": lambda: int(a != b)}.get(x["op"])
        return o() if o else None
    if x["k"] == "un" and x["op"] == "-":
        a = aeval(f, x["a"], env); return None if a is None else -a
    return None


def strset(ck, rule, f, g, p, V):
    """bounded, terminated copy into a buffer of 256 characters"""
    cap = None
    for h in ck.fns("Candy::StringOption::StringOption"):
        for e, x in h.elems():
            if x["k"] == "new" and x.get("size", -1) >= 0:
                y = h.x[h.strip(x["size"])]
                if y["k"] == "int": cap = int(y.get("v", y.get("val", 0)))
    def tr(n, cx):
        u = cx.ust
        if n.kind == "call" and short(n.fn()) in ("strncpy", "strcpy", "memcpy", "snprintf"):
            if short(n.fn()) == "strcpy": cx.run.report("a text of any length is copied into a buffer of limited size", n)
            k = cx.arg(2) if short(n.fn()) != "snprintf" else cx.arg(1)
            if is_int(k) and cap and k[1] > cap: cx.run.report("up to %d characters are copied into a buffer of %d" % (k[1], cap), n)
            if short(n.fn()) == "strncpy" and cx.arg(1) != p and cx.arg(1)[0] in ("str", "field"): cx.run.report("another text is stored", n)
            return u | {"copy"} | ({"term"} if short(n.fn()) == "snprintf" else set())
        if n.kind == "write" and cx.lhs()[0] == "at" and cx.lhs()[1] == V:
            if is_int(cx.lhs()[2]) and cap and cx.lhs()[2][1] >= cap: cx.run.report("the terminating character is written behind the buffer", n)
            ix = cx.lhs()[2]
            if ix[0] == "call" and short(ix[1]) == "strlen" and not any(k[0] == "lt" and ix in k[1:] for k in cx.facts): cx.run.report("the terminating character is written behind the buffer when the text is long", n)
            return u | {"term"}
        if n.kind == "call" and n.fn() == "Candy::StringOption::set": return u | {"copy", "term"}
        return u
    ck.run(rule, g, tr, frozenset(), track=lambda k: mentions(k, "strlen"), final=lambda kind, u, fa, cx: None if kind != "exit" else "the value is not stored" if "copy" not in u else "a long value is not terminated" if "term" not in u else None, subject=f.pretty)


def o_args(ck, rule="each argument is offered to all options until one accepts it; unknown options are an error, other arguments are kept in order"):
    for f in ck.fns("Candy::parseOptions"):
        g = ck.graph(f, ("Candy::printUsageAndExit", "Candy::Option::parse") + tuple("Candy::%sOption::parse" % c for c in ("Int", "Int64", "Double", "String", "Bool")))
        argv = P(f, 1); strict = P(f, 2)
        isp = lambda v: v[0] == "call" and short(v[1]) == "parse"
        opts = lambda c: mentions(c, "getOptionList", "options")
        st0 = ("idle",)
        # idle, trying (not yet accepted), accepted, failed (all options tried), kept
        def tr(n, cx):
            u = cx.ust
            if n.kind == "leave" and u == "trying": return "unsure"
            if n.kind == "block": return u
            if n.kind == "call" and short(n.fn()) == "parse" and n.fn().startswith("Candy::"):
                a = cx.arg(0)
                if a[0] == "at" and a[1] != argv: cx.run.report("something else than the argument is parsed", n)
                if u == "accepted": cx.run.report("an argument that was accepted is parsed again", n)
                return "trying"
            if n.kind == "write" and cx.lhs()[0] == "at" and cx.lhs()[1] == argv:
                if u == "accepted": cx.run.report("an option is kept as if it was a file name", n)
                if u == "trying": cx.run.report("an argument is kept although not all options were tried", n)
                if any(k[0] == "eq" and ("int", 45) in k[1:] and w for k, w in cx.facts.items()) and cx.facts.get(("zero", strict)) is False: cx.run.report("an unknown option is accepted", n)
                return "kept"
            if n.kind == "call" and short(n.fn()) == "exit":
                if u == "accepted": cx.run.report("an accepted option is an error", n)
                if any(k[0] == "eq" and ("int", 45) in k[1:] and not w for k, w in cx.facts.items()): cx.run.report("a file name is an error", n)
                if cx.facts.get(("zero", strict)) is True: cx.run.report("an unknown option is an error although it may be kept", n)
                if is_int(cx.arg(0)) and cx.arg(0)[1] == 0: cx.run.report("an unknown option ends with exit code 0", n)
            return u
        def ed(n, c, cx, u):
            if c[0] == "case": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            for k, w in cx.facts.items():
                if k[0] == "zero" and isp(k[1]) and w is False and u == "trying": u = "accepted"
                if k[0] == "zero" and k[1][0] == "algo" and has(k[1], isp) and u in ("trying", "unsure"):
                    if k[1][1] == "any_of": u = "failed" if w else "accepted"
                    elif k[1][1] == "none_of": u = "accepted" if w else "failed"
            lc = loopcond(v, c[1])
            if lc is not None and opts(lc[0]) and lc[2].startswith("from") and lc[2] != "from0": cx.run.report("the first options are not tried", n)
            if lc is not None and opts(lc[0]) and not lc[1] and u in ("trying", "idle"): return "failed"
            if v[0] == "op" and v[1] == "<" and v[3] == P(f, 0) or has(v, lambda w: w == P(f, 0)):
                if u == "failed": cx.run.report("an argument that no option accepts is dropped", n)
                return "idle"
            return u
        ck.run(rule, g, tr, "idle", lambda k: k[0] in ("zero", "eq") and (has(k, isp) or ("zero", strict) == k or k[0] == "eq" and ("int", 45) in k), ed, subject=f.q)
        # each kept argument gets a place of its own
        def place(n, cx):
            if n.kind == "block": return cx.ust
            if n.kind == "write" and n.frame is g.rootframe:
                v = cx.lhs()
                if v[0] == "at" and v[1] == argv:
                    t = f.x[f.strip(n.x["a"])]
                    ix = [f.x[q]["n"] for q in f.subtree(n.x["a"]) if f.x[q]["k"] == "ref" and f.x[q].get("dk") == "var"]
                    if len(set(ix)) != 1 or ix[0] in cx.ust[1]: return cx.ust
                    return (ix[0], cx.ust[1])
                if v[0] == "local": return ("" if cx.ust[0] == v[2] else cx.ust[0], cx.ust[1] | {v[2]})
            return cx.ust
        def pe(n, c, cx, u):
            if c[0] == "case": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            if has(v, lambda w: w == P(f, 0)):
                if u[0]: cx.run.report("an argument that is kept is overwritten by the next", n)
                return ("", frozenset())
            return u
        ck.run(rule, g, place, ("", frozenset()), None, pe, subject=f.q + " (place)")
        # argc shrinks by the arguments that were consumed; kept arguments move to the front
        I = J = None
        for n in g.nodes:
            if n.kind == "write" and n.frame is g.rootframe and n.x["k"] == "bin" and n.x["op"] in ("=", "-="):
                lv = f.localref(n.x["a"]) if False else None
                tgt = f.x[f.strip(n.x["a"])]
                if tgt["k"] == "ref" and tgt.get("n") == f.params[0]["n"]:
                    a, b = n.x["op"], f.subtree(n.x["b"])
                    refs = [f.x[q]["n"] for q in b if f.x[q]["k"] == "ref" and f.x[q].get("dk") == "var"]
                    ck.judge(rule, f.q + " (count)", len(set(refs)) >= 1, n.line(), "the number of arguments is set to a constant")
                    kept = {f.x[q]["n"] for m in g.nodes if m.kind == "write" and m.frame is g.rootframe and m.x["k"] == "bin" and g.val(m.frame, m.x["a"])[0] == "at" and g.val(m.frame, m.x["a"])[1] == argv for q in f.subtree(m.x["a"]) if f.x[q]["k"] == "ref" and f.x[q].get("dk") == "var"}
                    if len(kept) == 1 and set(refs) <= kept | {r for r in refs} and len(set(refs) - kept) <= 1:
                        J = next(iter(kept))
                        for jv in (1, 2, 4, 10):
                            r = aeval(f, n.x["b"], lambda nm: jv if nm == J else 10)
                            if r is None: break
                            if a == "-=": r = 10 - r
                            if r != jv: ck.bad(rule, f.q + " (count)", n.line(), "with %d of 9 arguments kept, the number of arguments becomes %d instead of %d" % (jv - 1, r, jv)); break
                        else: ck.ok(rule, f.q + " (count value)")


# ---------------------------------------------------------------- P16
SHARED = ("result", "solver", "solvers")


def held(u, n, cx):
    """lock typestate: multiset of held mutexes as (mutex, guard declaration)"""
    if n.kind == "ctor" and n.x.get("cls", "").rsplit("::", 1)[-1] in ("lock_guard", "unique_lock", "scoped_lock"):
        a = cx.arg(0)
        return u | {(a, "guard")} if cx.nargs() == 1 else u
    if n.kind == "call" and n.x.get("obj", -1) >= 0 and n.fn().startswith("std::"):
        s = short(n.fn())
        if s in ("lock", "unlock"):
            o = cx.obj()
            if o[0] in ("mk", "obj") and len(o) > 2 and isinstance(o[2], tuple) and o[2]: o = o[2][0]
            if s == "lock": return u | {(o, "call")}
            return frozenset(x for x in u if x[0] != o) if any(x[0] == o for x in u) else frozenset()
    if n.kind == "dtor" and any(t in n.x.get("t", "") for t in ("lock_guard", "unique_lock", "scoped_lock")):
        return frozenset(x for x in u if x[1] != "guard")
    return u


def shared_refs(ck, f):
    """does a function's element mention the shared state: name -> globals or reference parameters bound to them"""
    out = set()
    for p in f.params:
        if p["n"] in SHARED and "&" in p.get("t", ""): out.add(p["n"])
    return out


def p_lock(ck, rule="solver threads and the main thread access the shared result only while they hold its lock"):
    fs = mains(ck, "runSolverThread")
    threads = {f.id for f in ck.prog.funcs.values() if f.file.endswith("Main.cc") and f.q not in ("main",)}
    todo = [f for f in ck.prog.funcs.values() if f.file.endswith("Main.cc") and f.id in threads]
    roots = {f.q for f in fs}
    for f in ck.prog.funcs.values():
        if not f.file.endswith("Main.cc") or f.q == "main": continue
        own = shared_refs(ck, f)
        def mention(fn, e, top=False):
            skip = set()
            if top and fn.x[e]["k"] == "call":
                for t in ck.prog.targets(fn.x[e]):
                    if t.file.endswith("Main.cc"):
                        for a, pp in zip(fn.x[e]["args"], t.params):
                            if "&" in pp.get("t", "") and fn.x[fn.strip(a)]["k"] == "ref": skip |= set(fn.subtree(a))
            for q in fn.subtree(e):
                if q in skip: continue
                x = fn.x[q]
                if x["k"] == "ref" and x.get("n") in SHARED and (x.get("dk") not in ("var", "param", "local") or x["n"] in own or x.get("glob")): return x["n"]
            return None
        hits = [e for e, x in f.elems() if mention(f, e)]
        if not hits: continue
        g = ck.graph(f, PRIM)
        def tr(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            u2 = held(u, n, cx)
            if u2 == u and n.frame is g.rootframe and n.e is not None and n.e >= 0 and n.kind in ("call", "write", "ret", "ctor") and not (n.kind == "ctor" and "lock" in n.x.get("cls", "")):
                m = mention(f, n.e, True)
                if m and not u: cx.run.report("'%s' is accessed without the lock" % m, n)
            if n.kind == "write" and n.frame is not g.rootframe and not u2:
                v = cx.lhs()
                if any(glob(x)(v) for x in SHARED) or any(v == P(f, i) for i, p in enumerate(f.params) if p["n"] in own): cx.run.report("'%s' is accessed without the lock" % vstr(v), n)
            return u2
        ck.run(rule, g, tr, frozenset(), subject=f.q)
        def bal(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            return held(u, n, cx)
        ck.run(rule, g, bal, frozenset(), final=lambda kind, u, fa, cx: "the lock is not released" if kind == "exit" and any(x[1] == "call" for x in u) else None, subject=f.q + " (release)")


def p_first(ck, rule="the first definite answer wins: result and answering solver are stored together, and a stored answer is never replaced"):
    for f in mains(ck, "runSolverThread"):
        g = ck.graph(f, PRIM)
        R, S = P(f, 0), P(f, 1)
        for i, p in enumerate(f.params):
            if "lbool" in p.get("t", ""): R = P(f, i)
            elif "CandySolverInterface" in p.get("t", ""): S = P(f, i)
        isR = lambda v: v == R or glob("result")(v); isS = lambda v: v == S or glob("solver")(v)
        slv = lambda v: v[0] == "call" and v[1] == "Candy::CandySolverInterface::solve"
        def tr(n, cx):
            r, s, lk = cx.ust
            if n.kind == "block": return cx.ust
            l2 = held(lk, n, cx)
            if l2 != lk:
                if r != s and not l2: cx.run.report("the lock is released between storing the answer and its solver", n)
                return (r, s, l2)
            if n.kind == "write" and isR(cx.lhs()):
                und = next((w for k, w in cx.facts.items() if k[0] == "lbv" and isR(k[1])), None)
                if cx.rhs()[0] != "lb" and not r and (und is None or und != frozenset([2])): cx.run.report("an earlier answer may be replaced", n)
                if cx.rhs()[0] == "lb": cx.run.report("%s is stored as the answer" % vstr(cx.rhs()), n)
                return (cx.rhs()[2] if slv(cx.rhs()) else True, s, lk)
            if n.kind == "write" and isS(cx.lhs()):
                und = next((w for k, w in cx.facts.items() if k[0] == "lbv" and isR(k[1])), None)
                if not r and und is not None and 2 not in und: cx.run.report("the answering solver may be replaced", n)
                if not r and und is None: cx.run.report("the answering solver may be replaced", n)
                return (r, cx.rhs(), lk)
            return cx.ust
        def fin(kind, u, fa, cx):
            if kind != "exit": return None
            r, s, lk = u
            if r and not s: return "the answer is stored without its solver"
            if s and not r: return "a solver is stored without its answer"
            if isinstance(r, tuple) and isinstance(s, tuple) and r != s: return "the answer of one solver is stored with another solver"
            if not r and not any(k[0] == "lbv" and isR(k[1]) and 2 not in w for k, w in fa.items()) and not any(k[0] == "lbv" and slv(k[1]) for k in fa): return "an answer is not stored although there is none yet"
        ck.run(rule, g, tr, (False, False, frozenset()), lambda k: k[0] == "lbv", final=fin, subject=f.q)
        # the check for an earlier answer and the store are one critical section
        def reads(n, e):
            F_ = n.frame.func
            for q in F_.subtree(e):
                if F_.x[q]["k"] == "ref" and F_.x[q].get("dk") != "fn" and isR(g.val(n.frame, q)): return True
            return False
        def cs(n, cx):
            chk, lk, stored = cx.ust
            if n.kind == "block": return cx.ust
            l2 = held(lk, n, cx)
            if l2 != lk: return (False, l2, stored)
            if n.kind == "write" and isR(cx.lhs()):
                if lk and not chk and not stored: cx.run.report("the lock was released between the check for an earlier answer and the store", n)
                return (chk, lk, True)
            if n.kind in ("decl", "call", "ret", "write") and n.e is not None and n.e >= 0 and lk and reads(n, n.e): return (True, lk, stored)
            return cx.ust
        def ce(n, c, cx, u):
            if c[0] != "case" and u[1] and not u[0] and reads(n, c[0]): return (True,) + u[1:]
            return u
        ck.run(rule, g, cs, (False, frozenset(), False), None, ce, subject=f.q + " (critical section)")


def p_main(ck, rule="the main thread starts each solver with the options of its turn, waits for an answer or an interruption, and reports one answer"):
    for f in mains(ck):
        g = ck.graph(f, PRIM + ("hasResult", "nInitializedSolvers"))
        opt = lambda n, cx: n.kind == "call" and short(n.fn()) == "operator=" and n.x.get("obj", -1) >= 0 and n.fn().startswith("Candy::") and "Option" in n.fn()
        isth = lambda n: n.kind == "ctor" and n.x.get("cls", "").endswith("std::thread") and len(n.x.get("args", [])) > 1
        ini = lambda v: v[0] == "call" and short(v[1]) == "nInitializedSolvers"
        def tr(n, cx):
            if n.kind == "block": return cx.ust
            if isth(n):
                if cx.ust == "starting": cx.run.report("a thread is started before the previous solver is initialised", n)
                return "starting"
            if opt(n, cx) and cx.ust == "starting": cx.run.report("options change while a solver is being initialised", n)
            return cx.ust
        def ed(n, c, cx, u):
            if u == "starting" and c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                if has(v, ini):
                    iv = next((w for w in walk(v) if isinstance(w, tuple) and w and w[0] in ("ivar", "phi", "size")), None)
                    r0 = ceval(v, lambda w: 2 if ini(w) else 2 if w == iv else None); r1 = ceval(v, lambda w: 3 if ini(w) else 2 if w == iv else None)
                    if r0 is None or r1 is None: return "started"
                    if bool(r1) == c[1] and bool(r0) != c[1]: return "started"
                    if bool(r1) == c[1] and bool(r0) == c[1] : return u
            return u
        ck.run(rule, g, tr, "none", None, ed, subject=f.q)
        # waiting
        has_ = lambda v: v[0] == "call" and short(v[1]) == "hasResult"
        intr = glob("interrupted"); res = glob("result")
        def wt(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            if isth(n): return "wait"
            if u == "wait" and n.kind == "call":
                v = outs(n, cx)
                if v is not None and any(t.startswith("s ") for t in texts(v)): cx.run.report("an answer is reported without waiting for one", n)
            return u
        def we(n, c, cx, u):
            if c[0] != "case" and u == "wait":
                v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
                while v[0] == "not": v, pol = v[1], not pol
                if (has_(v) or intr(v)) and pol: return "done"
                if v[0] == "call" and short(v[1]) == "joinable": return "done"
            if u == "wait" and c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                if v[0] == "op" and v[1] in ("==", "!=") and any(res(x) for x in v[2:]): return "done" if (v[1] == "!=") == c[1] else u
            return u
        ck.run(rule, g, wt, "no", None, we, subject=f.q + " (waiting)")
        # the answer does not change while it is reported: the lock is held, or the answer is never read again
        reads = lambda fn, e: any(fn.x[q]["k"] == "ref" and fn.x[q].get("n") in ("result", "solver") and fn.x[q].get("dk") not in ("param",) for q in fn.subtree(e))
        def rd(n, cx):
            par, lk = cx.ust
            if n.kind == "block": return cx.ust
            if isth(n): par = True
            lk2 = held(lk, n, cx)
            if par and lk2 == lk and not lk and n.frame is g.rootframe and n.e is not None and n.e >= 0 and n.kind in ("call", "ret", "write") and not is_ref(n) and reads(f, n.e):
                cx.run.report("the shared answer is read while other threads may replace it", n)
            return (par, lk2)
        def is_ref(n): return short(n.fn() or "") in ("ref", "cref") or n.kind == "call" and short(n.fn() or "") in ("push_back",) and any("thread" in str(f.x[q].get("cls", "")) for q in f.subtree(n.e))
        ck.run(rule, g, rd, (False, frozenset()), None, subject=f.q + " (reading)")
        # the process ends without destroying running threads
        def en(n, cx):
            if n.kind == "block": return cx.ust
            if isth(n): return True
            if n.kind == "call" and short(n.fn()) in ("join", "detach"): return False
            if n.kind == "ret" and n.frame is g.rootframe and cx.ust: cx.run.report("main returns while solver threads are running: the program aborts", n)
            return cx.ust
        ck.run(rule, g, en, False, None, subject=f.q + " (end)")


P12 = (o_answer, o_input, o_model)
P14 = (o_parse, o_names, o_args)
P16 = (p_lock, p_first, p_main)
