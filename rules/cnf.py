"""P13: the DIMACS reader; P32: how clauses enter a problem; P20: the model checker."""
from .lib import *
from .ev import *
CNF = "Candy::CNFProblem"; SB = "Candy::StreamBuffer"; T = ("this",)
F = lambda n: ("field", T, SB + "::" + n)
PROB = ("field", T, CNF + "::problem"); VARS = ("field", T, CNF + "::variables")


def named(*shorts):
    S = set(shorts)
    return lambda n, cx=None: n.kind == "call" and short(n.fn()) in S


def isread(v): return v[0] == "call" and short(v[1]) == "readInteger"


def eofs(facts):
    """is the end of the input known to be reached (True) / not reached (False)"""
    for k, w in facts.items():
        if k[0] == "lt" and isinstance(k[2], tuple) and fieldof(k[1]) == "pos" and k[2][0] == "op" and k[2][1] == "-" and fieldof(k[2][2]) == "size" and fieldof(k[2][3]) == "offset": return not w
        if k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "eof": return not w
    return None


# ---------------------------------------------------------------- P13
def r_parse(ck, rule="every number up to the terminating 0 becomes a literal of its clause, comments and headers are skipped, until the end of the input"):
    for f in ck.fns(CNF + "::readDimacs"):
        g = ck.graph(f, (SB + "::*", CNF + "::readClause", CNF + "::readClauses"))
        istr = lambda v: v[0] in ("obj", "var") and v[2] == "in" or has(v, lambda w: w[0] in ("obj", "var")) and False
        streams = set()
        for n in g.nodes:
            if n.kind == "call" and n.fn().startswith(SB + "::") and n.x.get("obj", -1) >= 0: streams.add(g.val(n.frame, n.x["obj"]))
        def first(facts, ch):
            for k, w in facts.items():
                if k[0] == "eq" and ("int", ord(ch)) in k[1:] and any(x in streams or x[0] == "call" and short(x[1]) == "operator*" for x in k[1:] if isinstance(x, tuple)): return w
            return None
        def numzero(facts, num):
            """is the number read last known to be 0 (True) / not 0 (False)"""
            at = num[1] if isinstance(num, tuple) else None
            of = [(k, w) for k, w in facts.items() if has(k, lambda v: isread(v) and v[-1] == at) or has(k, lambda v: v[0] == "phi" and has(v, isread))]
            for k, w in of:
                if k[0] == "zero": return w
            return None
        def nonzero(facts, num):
            """the conditions passed allow a number other than 0"""
            mine = lambda v: isread(v) and v[-1] == num[1]
            fs = {k: w for k, w in facts.items() if has(k, mine)}
            return bool(fs) and any(consistent(fs, lambda v: k if mine(v) else None) is True for k in (1, -1, 7, -7))
        give = lambda n: n.kind == "call" and n.fn() in (CNF + "::readClause",)
        bufs = set()
        for n in g.nodes:
            if give(n):
                v = g.val(n.frame, n.x["args"][0])
                bufs.add(v[1] if v[0] == "iter" else v)
        if len(bufs) != 1: ck.note(rule, "literal buffer not recognised"); continue
        buf = bufs.pop()
        # state: header numbers left, number state, buffer empty
        def tr(n, cx):
            hdr, num, fresh = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind in ("ctor",) and False: return cx.ust
            if n.kind == "call":
                s = short(n.fn())
                if n.fn().startswith(SB + "::"):
                    if s == "skipString":
                        if first(cx.facts, "p") is False or first(cx.facts, "c") is True: cx.run.report("a header is expected where there is none", n)
                        return (2, num, fresh)
                    if s == "skipLine":
                        if first(cx.facts, "c") is False or first(cx.facts, "p") is True: cx.run.report("a line that is not a comment is skipped", n)
                        return (0, num, fresh)
                    if s == "readInteger":
                        if hdr > 0: return (hdr - 1, num, fresh)
                        if isinstance(num, tuple) and numzero(cx.facts, num) is not True: cx.run.report("a number of a clause is read but not used", n)
                        if first(cx.facts, "c") is True and num != "done": cx.run.report("a comment is read as a clause", n)
                        return (hdr, ("pend", ("site", n.frame.key, n.e)), fresh)
                if s in ("clear", "resize") and n.x.get("obj", -1) >= 0 and cx.obj() == buf:
                    if num == "done": cx.run.report("literals of the clause are dropped", n)
                    return (hdr, num, True)
                if s in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and cx.obj() == buf:
                    v = cx.arg(0) if cx.nargs() == 1 else ("mk", "Candy::Lit", (cx.arg(0), cx.arg(1)))
                    if not fresh: cx.run.report("literals of an earlier clause stay in the buffer", n)
                    if numzero(cx.facts, num) is True: cx.run.report("the terminating 0 is used as a literal", n)
                    for k in (1, -1, 7, -7):
                        r = ceval(v, lambda w: k if isread(w) else None)
                        if r is not None and consistent({q: w for q, w in cx.facts.items() if has(q, isread)}, lambda w: k if isread(w) else None) is not False and r != LitC((abs(k) - 1, int(k < 0))):
                            cx.run.report("the number %d becomes %s" % (k, show(r)), n)
                    if num == "done": cx.run.report("a number enters the clause twice", n)
                    return (hdr, "done", fresh)
                if give(n):
                    a = [cx.arg(i) for i in range(cx.nargs())]
                    if len(a) == 2 and a[0][0] == "iter" and a[1][0] == "iter" and (a[0][2] != 0 or a[1][2] != "end"): cx.run.report("only a part of the clause is stored", n)
                    if num == "done": cx.run.report("the clause ends before its terminating 0", n)
                    if isinstance(num, tuple) and (numzero(cx.facts, num) is False or nonzero(cx.facts, num)): cx.run.report("the clause ends before its terminating 0", n)
                    return (hdr, None, False) if num is not None else cx.ust
            return cx.ust
        # None as number state is fine inside a tuple
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            if u[1] is not None: return "the last clause is not stored"
            if u[0] > 0: return "a header is not read to its end"
            if eofs(facts) is not True: return "reading may stop before the end of the input"
        track = lambda k: k[0] in ("eq", "zero", "lt") and (has(k, lambda w: w in streams) or has(k, isread))
        ck.run(rule, g, tr, (0, None, True), track, final=fin, subject=f.q)
        def neg_(n, cx):
            if n.kind == "call" and short(n.fn()) in ("reserve", "resize") and n.x.get("obj", -1) >= 0 and has(cx.arg(0), isread):
                mine = lambda w: isread(w) and has(cx.arg(0), lambda y: y == w)
                fs = {k: w for k, w in cx.facts.items() if has(k, mine)}
                if not fs or consistent(fs, lambda w: -1 if mine(w) else None) is True:
                    cx.run.report("a negative number of clauses is used as a size", n)
            return None
        ck.run(rule, g, neg_, None, track, subject=f.q + " (header)")
    for q in ("readDimacsFromStdin", "readDimacsFromFile"):
        for f in ck.fns(CNF + "::" + q):
            g = ck.graph(f, (CNF + "::readDimacs",))
            opened = lambda v: v[0] == "call" and short(v[1]) in ("gzopen", "gzdopen")
            def tr(n, cx):
                if n.kind == "call" and short(n.fn()) == "readDimacs":
                    if opened(cx.arg(0)) and cx.facts.get(("zero", cx.arg(0))) is not False: cx.run.report("a file that could not be opened is read", n)
                    return True
                if n.kind == "call" and short(n.fn()) == "gzopen" and cx.arg(0) != P(f, 0): cx.run.report("another file is opened", n)
                return cx.ust
            ck.run(rule, g, tr, False, lambda k: k[0] == "zero", final=lambda kind, u, fa, cx: "the input is not read" if kind == "exit" and not u else None, subject=f.q)


def chars(chs):
    """environment for the character at the read position"""
    def mk(ch):
        def env(v):
            if v[0] == "at" and fieldof(v[1]) == "buffer" and fieldof(v[2]) == "pos": return ord(ch)
            if v[0] == "call" and short(v[1]) in ("isspace", "isblank", "iscntrl", "isdigit") and len(v[3]) == 1:
                a = v[3][0]
                if a[0] == "narrow": a = a[2]
                if env(a) is not None:
                    return int({"isspace": ch in " \t\n\r\v\f", "isblank": ch in " \t", "iscntrl": ord(ch) < 32, "isdigit": ch.isdigit()}[short(v[1])])
            return None
        return env
    return [(repr(c), mk(c)) for c in chs]


def steps(n, cx, inl):
    """advance of the read position: constant, or None"""
    if n.kind == "call" and n.fn() in (SB + "::incPos", SB + "::operator++"):
        return cx.arg(0) if short(n.fn()) == "incPos" else ("int", 1)
    return None


def r_first(ck, rule="a line is classified by its first character that is not white space, and the end of the input is looked for before"):
    for f in ck.fns(CNF + "::readDimacs"):
        g = ck.graph(f, (SB + "::*", CNF + "::readClause", CNF + "::readClauses"))
        star = lambda n: n.kind == "call" and n.fn().startswith(SB + "::") and short(n.fn()) == "operator*"
        streams = {g.val(n.frame, n.x["obj"]) for n in g.nodes if n.kind == "call" and n.fn().startswith(SB + "::") and n.x.get("obj", -1) >= 0}
        look = lambda v: v[0] == "op" and v[1] in ("==", "!=") and any(is_int(a) and a[1] in (ord("p"), ord("c")) for a in v[2:]) and any(a in streams or a[0] == "call" and short(a[1]) == "operator*" for a in v[2:] if isinstance(a, tuple))
        # dirty: characters were consumed; ws: white space was skipped since; ok: and the end of the input was ruled out
        def tr(n, cx):
            u = cx.ust
            if n.kind == "call" and n.fn().startswith(SB + "::"):
                s = short(n.fn())
                if s == "skipWhitespace": return "ws"
                if s == "skipLine": return "line"
                if s in ("readInteger", "skipString", "incPos", "operator++"): return "dirty"
            return u
        def ed(n, c, cx, u):
            if c[0] == "case": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            while v[0] == "not": v = v[1]
            if look(v):
                if u == "dirty": cx.run.report("a line is classified although white space before it was not skipped: a trailing line break would be read as a clause", n)
                return u
            if u == "ws" and eofs(cx.facts) is False: return "ok"
            return u
        ck.run(rule, g, tr, "dirty", lambda k: k[0] in ("zero", "lt") and has(k, lambda w: w in streams), ed, subject=f.q + " (first character)")
    for f in ck.fns(SB + "::readInteger"):
        for e, x in f.elems():
            if x["k"] != "decl": continue
            for w in x["vars"]:
                if w.get("init", -1) >= 0 and any(f.x[q]["k"] == "call" and short(f.x[q].get("fn") or "") in ("strtol", "strtoll") for q in f.subtree(w["init"])):
                    ck.judge(rule, f.q + " (width)", w["t"].replace("const ", "") not in ("int", "int32_t", "short", "unsigned int"), f.where(), "the number is cut to %s before its range is checked" % w["t"])


GRAPHIC = "".join(chr(i) for i in range(33, 127))


def r_skip(ck, rule="white space and comment lines are skipped character by character, and nothing else"):
    prim = (SB + "::skipWhitespace", SB + "::incPos", SB + "::operator++", SB + "::check_refill_buffer")
    for name, stop, go in (("skipWhitespace", GRAPHIC, " \t\n\r"), ("skipLine", "\n", GRAPHIC + " \t")):
        for f in ck.fns(SB + "::" + name):
            g = ck.graph(f, tuple(p for p in prim if short(p) != name))
            bf = lambda facts: {k: w for k, w in facts.items() if mentions(k, "buffer", "isspace", "isblank")}
            def tr(n, cx):
                if n.kind == "block": return cx.ust
                st = steps(n, cx, None)
                if st is not None and not cx.ust:
                    if is_int(st) and st[1] != 1: cx.run.report("%d characters are skipped at once" % st[1], n)
                    if eofs(cx.facts) is not False: cx.run.report("reading goes on behind the end of the input", n)
                    for nm, env in chars(stop):
                        if consistent(bf(cx.facts), env) is not False: cx.run.report("%s is skipped by %s" % (nm, name), n); break
                if name == "skipLine" and n.kind == "call" and short(n.fn()) == "skipWhitespace" and not cx.ust:
                    check(cx.facts, lambda m: cx.run.report(m, n))
                    return True
                return cx.ust
            def check(facts, rep):
                if eofs(facts) is True: return
                for nm, env in chars(go):
                    if consistent(bf(facts), env) is not False: rep("%s is not skipped by %s" % (nm, name)); return
            def fin(kind, u, facts, cx):
                if kind != "exit" or u: return None
                out = []
                check(facts, out.append)
                return out[0] if out else None
            ck.run(rule, g, tr, False, "all", final=fin, subject=f.q)
    for f in ck.fns(SB + "::skipString"):
        g = ck.graph(f, prim)
        p = P(f, 0)
        src = lambda v: v[0] in ("ivar", "at", "un", "param", "deref", "elem") and has(v, lambda w: w == p or w[0] == "ivar")
        def match(facts): return any(k[0] == "eq" and w is True and any(fieldof(x[1]) == "buffer" for x in k[1:] if isinstance(x, tuple) and x[0] == "at") for k, w in facts.items())
        def tr(n, cx):
            st = steps(n, cx, None) if n.kind != "block" else None
            if st is not None:
                if is_int(st) and st[1] != 1: cx.run.report("%d characters are skipped at once" % st[1], n)
                if not cx.ust: cx.run.report("a character that was not compared is skipped", n)
                return False
            return cx.ust
        def ed(n, c, cx, u): return u or match(cx.facts)
        ck.run(rule, g, tr, False, "all", ed, subject=f.q)


def r_int(ck, rule="a number is converted completely and in range, or an error is raised, and the read position moves behind it"):
    for f in ck.fns(SB + "::readInteger"):
        g = ck.graph(f, (SB + "::skipWhitespace", SB + "::incPos", SB + "::check_refill_buffer"))
        isn = lambda v: v[0] == "call" and short(v[1]) in ("strtol", "strtoll")
        found = [n for n in g.nodes if n.kind == "call" and short(n.fn()) in ("strtol", "strtoll")]
        if len(found) != 1: ck.note(rule, "conversion not recognised"); continue
        seen = set()
        accept = (0, 1, -1, 1000000, -1000000, 10**9, -10**9); reject = (2**30 + 1, -(2**30) - 1, 2**31, -2**31, 2**32 + 5, -(2**32) - 5)
        nf = lambda facts: {k: w for k, w in facts.items() if has(k, isn) and not mentions(k, "__errno_location", "errno")}
        # state: white space skipped, end of input excluded, converted, position moved
        def tr(n, cx):
            ws, conv, moved, prog_ = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind == "call":
                s = short(n.fn())
                if s == "skipWhitespace": return (True, conv, moved, prog_)
                if s in ("strtol", "strtoll"):
                    if not ws: cx.run.report("white space may hide the end of the buffer from the conversion", n)
                    if eofs(cx.facts) is not False: cx.run.report("a number is converted at the end of the input", n)
                    a = cx.arg(0)
                    if not (mentions(a, "buffer") and mentions(a, "pos")): cx.run.report("the conversion does not start at the read position", n)
                    if is_int(cx.arg(2)) and cx.arg(2)[1] != 10: cx.run.report("numbers are read with base %d" % cx.arg(2)[1], n)
                    return (ws, (a, cx.arg(1)), moved, prog_)
                if s in ("incPos",):
                    v = cx.arg(0)
                    while v[0] == "narrow": v = v[2]
                    if conv and v != ("op", "-", conv[1], conv[0]) and (v[0] == "int" or v[0] == "op" and is_int(v[3])): cx.run.report("the read position moves by %s" % vstr(v), n)
                    if moved: cx.run.report("the read position moves twice", n)
                    same = lambda w: 100 if w in (conv[0], conv[1], conv[1][2] if conv[1][0] == "un" else None) else None
                    fs = {k: w for k, w in cx.facts.items() if k[0] in ("lt", "eq", "zero") and has(k, same) and not has(k, isn)} if conv else {}
                    ok = conv and fs and consistent(fs, same) is not True
                    return (ws, conv, True, prog_ or bool(ok))
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if not has(v, isn): cx.run.report("%s is returned" % vstr(v), n) if v[0] in ("int", "field") else None
                if not moved: cx.run.report("the read position stays at the number", n)
                elif not prog_: cx.run.report("a text that is not a number is accepted", n)
                for k in reject:
                    if consistent(nf(cx.facts), lambda w: k if isn(w) else None) is not False: cx.run.report("%d is accepted although it is out of range" % k, n); break
                for k in accept:
                    if consistent(nf(cx.facts), lambda w: k if isn(w) else None) is not False:
                        seen.add(k)
                        r = ceval(v, lambda w: k if isn(w) else None)
                        if r is not None and r != k: cx.run.report("%d is read as %s" % (k, r), n)
            return cx.ust
        ck.run(rule, g, tr, (False, None, False, False), "all", subject=f.q)
        for k in accept:
            if k not in seen: ck.bad(rule, f.q, f.where(), "%d is rejected" % k)


def r_peek(ck, rule="the current character is handed out up to the end of the input, and advancing refills the buffer"):
    envs = []; eofw = {}; chw = {}
    for pos, size, off in ((0, 0, 0), (0, 5, 0), (4, 5, 0), (5, 5, 0), (3, 5, 2), (2, 5, 2), (5, 5, 2)):
        def mk(pos=pos, size=size, off=off):
            return lambda v: {F("pos"): pos, F("size"): size, F("offset"): off}.get(v, 65 if v == ("at", F("buffer"), ("int", pos)) else None) if v[0] != "at" or v[2][0] == "int" else None
        nm = "position %d, %d characters, %d held back" % (pos, size, off)
        envs.append((nm, mk())); e = pos >= size - off
        eofw[nm] = (lambda x: bool(x)) if e else (lambda x: not x); chw[nm] = -1 if e else 65
    for f in ck.fns(SB + "::eof"): table(ck, rule, ck.graph(f), envs, lambda n: eofw[n], "end of input", subject=f.q)
    for f in ck.fns(SB + "::operator*"): table(ck, rule, ck.graph(f), envs, lambda n: chw[n], "current character", subject=f.q)
    for f in ck.fns(SB + "::incPos"):
        g = ck.graph(f, (SB + "::check_refill_buffer",)); p = P(f, 0)
        def tr(n, cx):
            mv, rf = cx.ust
            if n.kind == "write" and cx.lhs() == F("pos"):
                k = n.x["k"]
                ok = k == "bin" and n.x["op"] == "+=" and cx.rhs() == p or k == "bin" and n.x["op"] == "=" and cx.rhs() in (("op", "+", F("pos"), p), ("op", "+", p, F("pos")))
                if not ok: cx.run.report("the read position changes by something else than the given count", n)
                return (True, False)
            if n.kind == "call" and short(n.fn()) == "check_refill_buffer": return (mv, True)
            return cx.ust
        ck.run(rule, g, tr, (False, False), None, final=lambda kind, u, fa, cx: None if kind != "exit" else "the read position does not move" if not u[0] else "the buffer is not refilled after moving" if not u[1] and not eofsnot(fa) else None, subject=f.q)


def eofsnot(facts): return eofs(facts) is False


def r_refill(ck, rule="refilling keeps the held-back tail, appends new input behind it, terminates it, and holds back an incomplete word at the end"):
    cap = None
    for f in ck.fns(SB + "::check_refill_buffer"):
        g = ck.graph(f)
        pos, size, off, buf = F("pos"), F("size"), F("offset"), F("buffer")
        num = lambda v: v[1] if is_int(v) else None
        def addr(v):
            """offset expression of a pointer into the buffer"""
            if v == buf or v == ("iter", buf, 0): return ("int", 0)
            if v[0] == "at" and v[1] == buf: return v[2]
            if v[0] == "op" and v[1] == "+" and v[2] == buf: return v[3]
            if v[0] == "iter" and v[1] == buf and isinstance(v[2], tuple) and v[2][0] == "off": return v[2][1]
            if v[0] == "un" and v[1] == "&": return addr(v[2])
            return None
        SO = 20; at_ = [17]; ev = lambda v, o=3: ceval(v, {size: SO, off: o, pos: at_[0]})
        caps = set()
        # state of a refill: frozenset of done steps
        def tr(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            at_[0] = 0 if "pos0" in u else 17
            if n.kind == "write" and cx.lhs() == pos and cx.rhs() == ("int", 0): u = u | {"pos0"}
            if n.kind == "call" and short(n.fn()) in ("copy", "memmove", "memcpy", "move"):
                a = [cx.arg(i) for i in range(3)]
                if short(n.fn()) in ("copy", "move"): s, e, d = addr(a[0]), addr(a[1]), addr(a[2])
                else: d, s = addr(a[0]), addr(a[1]); e = ("op", "+", s, a[2]) if s is not None else None
                if None not in (s, e, d):
                    if ev(s) is not None and ev(s) != SO - 3: cx.run.report("the tail is copied from position %s" % vstr(s), n)
                    if ev(e) is not None and ev(e) != SO: cx.run.report("the tail is copied up to %s" % vstr(e), n)
                    if ev(d) is not None and ev(d) != 0: cx.run.report("the tail is copied to %s" % vstr(d), n)
                if u & {"read", "size", "off"}: cx.run.report("the tail is copied after it has been overwritten", n)
                return u | {"copy"}
            if n.kind == "call" and short(n.fn()) in ("gzread", "gzfread", "fread"):
                d = addr(cx.arg(1)); c = cx.arg(2)
                if eofs(cx.facts) is False: cx.run.report("unread input is overwritten", n)
                if "copy" not in u and not any(k == ("lt", off, 1) and w is True or k == ("zero", off) and w is True or k[0] == "lt" and k[1] == ("int", 0) and k[2] == off and w is False for k, w in cx.facts.items()): cx.run.report("the held-back tail is lost", n)
                if u & {"off"}: cx.run.report("new input overwrites the held-back tail", n)
                if d is not None and ev(d) is not None and ev(d) != 3: cx.run.report("new input is stored at %s" % vstr(d), n)
                k0, k3 = ev(c, 0), ev(c, 3)
                if k0 is not None and k3 is not None:
                    caps.add(k0)
                    if k3 + 3 > k0: cx.run.report("more input is requested than fits behind the tail", n)
                return u | {"read"}
            if n.kind == "write":
                lh = cx.lhs()
                if lh == pos:
                    if num(cx.rhs()) not in (None, 0): cx.run.report("reading continues at position %d of the refilled buffer" % num(cx.rhs()), n)
                    if eofs(cx.facts) is False: cx.run.report("unread input is dropped", n)
                    return u | {"pos"}
                if lh == size:
                    v = cx.rhs(); got = lambda w: w[0] == "call" and short(w[1]) in ("gzread", "gzfread", "fread")
                    r = ceval(v, lambda w: 100 if got(w) else 3 if w == off else None)
                    if "off" in u: cx.run.report("the size of the refilled buffer misses the held-back tail", n)
                    elif r is not None and r != 103: cx.run.report("after reading 100 characters behind 3 held-back ones the size is %d" % r, n)
                    if n.x["k"] == "bin" and n.x["op"] != "=": cx.run.report("the size of the buffer is not recomputed", n)
                    if any(k[0] == "lt" and got(k[1]) and k[2] in (0, ("int", 0)) and w is True for k, w in cx.facts.items()): cx.run.report("a read error is taken for input", n)
                    return u | {"size"}
                if lh == off:
                    if n.x["k"] == "un": 
                        if "size" not in u: cx.run.report("characters are held back before they are read", n)
                        c = ("at", buf, ("op", "-", ("op", "-", size, off), ("int", 1)))
                        return u | {"scan"}
                    if num(cx.rhs()) == 0: return u | ({"off"} if "scan" not in u else {"off2"})
                    return u
                if lh[0] == "at" and lh[1] == buf and num(cx.rhs()) == 0:
                    i = ev(lh[2])
                    if "size" not in u: cx.run.report("the buffer is terminated at its old end", n)
                    if i is not None and i != SO: cx.run.report("the buffer is terminated at %s" % vstr(lh[2]), n)
                    return u | {"zero"}
            return u
        def fin(kind, u, facts, cx):
            if kind != "exit" or not u: return None if kind != "exit" or eofs(facts) is not True or u else "the buffer is not refilled"
            for k, m in (("read", "no input is read"), ("pos", "the read position is not reset"), ("size", "the size is not updated"), ("zero", "the buffer is not terminated"), ("off", "the held-back tail stays held back")):
                if k not in u: return m
            full = any(k[0] == "lt" and k[1] == size and w is True or k[0] == "eq" and size in k[1:] and w is False and any(is_int(y) for y in k[1:]) for k, w in facts.items())
            if full: return None
            # the scan for an incomplete word has been made: it ended at white space or at the start
            if not u & {"off2", "ended"}: return "an incomplete word at the end of the buffer is not held back"
        def scan(n, c, cx, u):
            if c[0] == "case" or "size" not in u: return u
            v = cx.g.val(n.frame, c[0], dict(cx.env)); pol = c[1]
            while v[0] == "not": v, pol = v[1], not pol
            sp = next((w for w in walk(v) if isinstance(w, tuple) and w and w[0] == "call" and short(w[1]) == "isspace"), None)
            if sp is not None:
                a = sp[3][0]
                while a[0] == "narrow": a = a[2]
                if a[0] == "at" and a[1] == buf:
                    i = ev(a[2])
                    if i is not None and i != SO - 3 - 1: cx.run.report("the word at the end of the buffer is judged by the wrong character", n)
                if v == sp and pol or v[0] == "op" and v[1] == "!=" and pol or v[0] == "op" and v[1] == "==" and not pol or v[0] not in ("call", "op"): return u | {"ended"}
                return u - {"ended"}
            for k, w in cx.facts.items():
                if k[0] == "lt" and k[1] == off and k[2] == size and w is False or k[0] == "eq" and {k[1], k[2]} == {off, size} and w is True: return u | {"ended"}
            return u
        ck.run(rule, g, tr, frozenset(), "all", scan, final=fin, subject=f.q)
        cap = max(caps) if caps else None
        def lim(n, c, cx, u):
            if c[0] != "case" and cap is not None:
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                if v[0] == "op" and v[2] == size and is_int(v[3]) and v[1] in ("<", "!=", ">=", "==", "<=", ">"):
                    if v[3][1] + (v[1] in ("<=", ">")) > cap: cx.run.report("a full buffer is not recognised", n)
            return u
        ck.run(rule, g, lambda n, cx: None, None, None, lim, subject=f.q + " (full)")
    for f in ck.fns(SB + "::StreamBuffer"):
        g = ck.graph(f, (SB + "::check_refill_buffer",))
        for n in g.nodes:
            if n.kind == "new" and n.x.get("arr") and n.x.get("size", -1) >= 0:
                v = g.val(n.frame, n.x["size"])
                if is_int(v) and cap is not None: ck.judge(rule, f.q + " (capacity)", v[1] > cap, n.line(), "the buffer has no room for the terminating character")
        must(ck, rule, g, lambda n, cx: n.kind == "call" and short(n.fn()) == "check_refill_buffer", "no input is read at the beginning", subject=f.q)
        for fld in ("pos", "size", "offset"):
            must(ck, rule, g, lambda n, cx: n.kind == "write" and cx.lhs() == F(fld) and cx.rhs() == ("int", 0), "%s is not initialised" % fld, subject=f.q + " " + fld)


# ---------------------------------------------------------------- P32
def c_clause(ck, rule="a clause is stored once with all its literals, without duplicates, unless it is tautological, and its variables are counted"):
    for f in ck.fns(CNF + "::readClause"):
        if len(f.params) != 2: continue
        g = ck.graph(f); b, e = P(f, 0), P(f, 1)
        pushed = {g.val(n.frame, n.x["args"][0]) for n in g.nodes if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and g.val(n.frame, n.x["obj"]) == PROB}
        if len(pushed) != 1: ck.note(rule, "stored clause not recognised"); continue
        C = pushed.pop()
        full = lambda a: len(a) >= 2 and a[0] == ("iter", C, 0) and a[1] == ("iter", C, "end")
        last = lambda v: v[0] == "call" and short(v[1]) == "back" and v[2] == C or v[0] == "at" and v[1] == C or v[0] == "back"
        taut = lambda v: v[0] == "call" and short(v[1]) in ("unique", "adjacent_find") and len(v[3]) == 3 and has(v, lambda w: w == C)
        def tautfact(facts):
            for k, w in facts.items():
                if k[0] == "eq" and any(isinstance(x, tuple) and taut(x) for x in k[1:]): return not w
            return None
        init = C[2] if C[0] == "new" else C
        if has(init, lambda w: w == ("mk", "x", ())) : pass
        if C[0] == "new" and C[2][0] == "mk" and len(C[2][2]) >= 2:
            ck.judge(rule, f.pretty + " (literals)", C[2][2][0] == b and C[2][2][1] == e, f.where(), "the stored clause is built from %s" % vstr(C[2]))
        def tr(n, cx):
            u = cx.ust
            if n.kind == "block": return u
            if n.kind == "call":
                s = short(n.fn()); a = [cx.arg(i) for i in range(cx.nargs())]
                if s in ("sort", "stable_sort") and full(a): return u | {"sorted"}
                if s == "unique" and len(a) == 2 and "sorted" not in u and full(a): cx.run.report("duplicates are removed from an unsorted clause", n)
                if s in ("unique", "adjacent_find") and len(a) == 3:
                    if "sorted" not in u: cx.run.report("an unsorted clause is tested for complementary literals", n)
                    if a[0] == ("iter", C, 0) and a[1] == ("iter", C, "end"): return u | {"tested"}
                    cx.run.report("only a part of the clause is tested for complementary literals", n); return u | {"tested"}
                if n.x.get("obj", -1) >= 0 and cx.obj() == C and s in ("erase", "resize", "pop_back", "assign", "clear"):
                    if s == "erase" and len(a) == 2 and a[0][0] == "call" and short(a[0][1]) == "unique" and len(a[0][3]) == 3: cx.run.report("literals of the same variable are removed from the clause", n)
                    elif s == "erase" and len(a) == 1 and a[0][0] == "call" and short(a[0][1]) == "unique": cx.run.report("only one duplicate is removed", n)
                    elif s in ("pop_back", "clear"): cx.run.report("literals of the clause are dropped", n)
                    return u | {"dedup"}
                if s in ("push_back", "emplace_back") and n.x.get("obj", -1) >= 0 and cx.obj() == PROB:
                    if "pushed" in u: cx.run.report("the clause is stored twice", n)
                    if "deleted" in u: cx.run.report("a deleted clause is stored", n)
                    if tautfact(cx.facts) is True: cx.run.report("a tautological clause is stored", n)
                    return u | {"pushed"}
            if n.kind == "delete" and cx.val(n.x["a"]) == C:
                if "pushed" in u: cx.run.report("a stored clause is deleted", n)
                return u | {"deleted"}
            if n.kind == "write" and cx.lhs() == VARS:
                v = cx.rhs()
                for have, lit in ((3, 6), (9, 6), (6, 6), (7, 6)):
                    env = lambda w: have if w == VARS else LitC((lit, 1)) if last(w) or w[0] == "elem" and w[1] == C else None
                    r = ceval(v, env)
                    if r is not None and consistent({k: w for k, w in cx.facts.items() if has(k, lambda y: y == VARS)}, env) is not False:
                        if n.x["k"] == "bin" and n.x["op"] == "=" and r != max(have, lit + 1): cx.run.report("with %d variables and a clause over variable %d the count becomes %d" % (have, lit + 1, r), n)
                if has(v, last) and "sorted" not in u: cx.run.report("the last literal of an unsorted clause is taken for the largest variable", n)
                if has(v, lambda w: w[0] == "at" and w[1] == C and w[2] == ("int", 0)): cx.run.report("the smallest variable is counted", n)
                return u | {"vars"}
            return u
        def ed(n, c, cx, u):
            if c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env))
                if has(v, lambda w: w[0] in ("at", "elem") and w[1] == C) and not has(v, lambda w: w == VARS): u = u | {"tested", "maybe"}
                if has(v, lambda w: w == VARS): u = u | {"vars"}
            return u
        def fin(kind, u, facts, cx):
            if kind != "exit": return None
            empty = any(k[0] == "lt" and k[1] == ("size", C) and w is True or k == ("zero", ("size", C)) and w is True or k[0] == "eq" and {k[1], k[2]} == {("iter", C, 0), ("iter", C, "end")} and w is True for k, w in facts.items())
            if "pushed" not in u:
                if empty: return "the empty clause is not stored"
                if tautfact(facts) is not True and "maybe" not in u: return "a clause that is not tautological is dropped"
                if "vars" not in u: return "the variables of a skipped clause are not counted"
                return None
            if empty: return None
            if "tested" not in u: return "a clause is stored without a test for complementary literals"
            if "dedup" not in u: return "duplicate literals are not removed"
            if "vars" not in u: return "the variables of the clause are not counted"
        ck.run(rule, g, tr, frozenset(), "all", ed, final=fin, subject=f.pretty)
        # the test itself: neighbours with the same variable
        for n in g.nodes:
            if n.kind == "call" and short(n.fn()) in ("unique", "adjacent_find") and len(n.x.get("args", [])) == 3:
                l = g.val(n.frame, n.x["args"][2])
                lf = ck.prog.funcs.get(l[1]) if l[0] == "lambda" else None
                if lf is None: continue
                lg = ck.graph(lf); p, q = P(lf, 0), P(lf, 1)
                cases = [("literals %s and %s" % (x, y), {p: LitC(x), q: LitC(y)}) for x in ((3, 0), (3, 1)) for y in ((3, 0), (3, 1), (4, 0), (4, 1), (7, 1)) if x != y]
                table(ck, rule, lg, cases, lambda nm: (lambda r: bool(r)) if nm.count("(3,") == 2 else (lambda r: not r), "complementary literals", subject=f.pretty + " (test)")


def c_feed(ck, rule="all clauses of a given formula enter the problem"):
    for f in ck.fns(CNF + "::readClauses"):
        g = ck.graph(f, (CNF + "::readClause",)); p = P(f, 0)
        el = lambda v: v[0] in ("elem", "at") and v[1] == p
        def ev(n, cx):
            if n.kind != "call" or n.fn() != CNF + "::readClause": return False
            a = [cx.arg(i) for i in range(cx.nargs())]
            return len(a) == 1 and el(a[0]) or len(a) == 2 and a[0][0] == "iter" and el(a[0][1]) and a[0][2] == 0 and a[1] == ("iter", a[0][1], "end")
        fe = ForEach(lambda c: c == p, ev)
        ck.run(rule, g, lambda n, cx: fe.step(n, cx, cx.ust) if n.kind != "block" else cx.ust, ForEach.INIT, None, lambda n, c, cx, u: fe.edge(n, c, cx, u),
               final=lambda kind, u, fa, cx: "a clause of the formula is left out" if kind == "exit" and not u[1] else None, subject=f.pretty, fe=(fe,))
    for f in ck.fns(CNF + "::readClause"):
        if len(f.params) != 1: continue
        g = ck.graph(f, (CNF + "::readClause",)); p = P(f, 0)
        def ev(n, cx):
            if n.kind != "call" or n.fn() != CNF + "::readClause": return False
            if cx.nargs() == 2 and (cx.arg(0) != ("iter", p, 0) or cx.arg(1) != ("iter", p, "end")): 
                if cx.arg(0)[0] == "iter" and cx.arg(1)[0] == "iter": cx.run.report("only a part of the clause is stored", n)
            return True
        must(ck, rule, g, ev, "the clause is not stored", subject=f.pretty)
    for f in ck.fns(CNF + "::" + "CNFProblem"):
        if len(f.params) != 1 or f.params[0].get("t", "").rstrip().endswith("&&"): continue
        if not any(x["k"] == "call" and (x.get("fn") or "").startswith(CNF + "::read") for e, x in f.elems()):
            if "CNFProblem" in f.params[0].get("t", "CNFProblem"): continue
        g = ck.graph(f, (CNF + "::readClause", CNF + "::readClauses"))
        must(ck, rule, g, lambda n, cx: n.kind == "call" and n.fn() in (CNF + "::readClause", CNF + "::readClauses"), "the given clauses are ignored", subject=f.pretty)


def c_count(ck, rule="the number of variables never decreases, and the clause list is only extended or cleared as a whole"):
    for f, e, x, k in writes(ck.prog, CNF + "::variables"):
        if k == "init" or short(f.q) in ("CNFProblem", "operator=") : ck.ok(rule, f.q); continue
        if f.q.endswith("normalizeVariableNames"): ck.ok(rule, f.q); continue
        op = x.get("op")
        if op in ("++", "p++") or op == "+=": ck.ok(rule, f.q); continue
        if op in ("--", "p--", "-="): ck.bad(rule, f.q, f.where(e), "the number of variables decreases"); continue
        if f.q.endswith("::readClause"): ck.ok(rule, f.q); continue
        if op == "=":
            g = ck.graph(f, (SB + "::*",))
            v = None
            for n in g.nodes:
                if n.e == e and n.frame is g.rootframe and n.kind == "write": v = g.val(n.frame, x["b"])
            if v is not None and not has(v, lambda w: w == VARS) and has(v, lambda w: w[0] == "call" and short(w[1]) == "readInteger"):
                def below(n, cx):
                    if n.kind == "write" and cx.lhs() == VARS and cx.rhs() == v and not any(has(k, lambda w: w == VARS) for k in cx.facts): cx.run.report("the number of variables is set to %s, whatever it was" % vstr(v), n)
                    return None
                ck.run(rule, g, below, None, lambda k: has(k, lambda w: w == VARS), subject=f.q)
            elif v is not None and ceval(v, {VARS: 5}) is not None and ceval(v, {VARS: 5}) < 5: ck.bad(rule, f.q, f.where(e), "the number of variables is set to %s" % vstr(v))
            else: ck.ok(rule, f.q)
    for f in ck.fns(CNF + "::nVars"): retfield(ck, rule, f, VARS)
    for f in ck.fns(CNF + "::newVar"):
        g = ck.graph(f)
        must(ck, rule, g, lambda n, cx: n.kind == "write" and cx.lhs() == VARS, "no variable is created", subject=f.q)
        for n in g.nodes:
            if n.kind == "ret":
                x = n.frame.func.x[n.frame.func.strip(n.x["a"])]
                if x["k"] == "un" and x["op"] == "++": ck.bad(rule, f.q, n.line(), "the new variable's number is one too large")
                else: ck.ok(rule, f.q + " (number)")
    for f in ck.fns(CNF + "::nClauses"):
        g = ck.graph(f)
        for n in g.nodes:
            if n.kind == "ret":
                v = g.val(n.frame, n.x["a"]); ck.judge(rule, f.q, v[0] != "op" and v[0] != "int" and not (v[0] == "field"), n.line(), "the number of clauses is given as %s" % vstr(v))
    for f in ck.fns(CNF + "::clear"):
        g = ck.graph(f)
        must(ck, rule, g, lambda n, cx: n.kind == "call" and short(n.fn()) == "clear" and cx.obj() == PROB or n.kind == "write" and cx.lhs() == PROB, "the clauses stay", subject=f.q)


def retfield(ck, rule, f, want):
    g = ck.graph(f)
    for n in g.nodes:
        if n.kind == "ret":
            v = g.val(n.frame, n.x["a"])
            ck.judge(rule, f.q, v == want or v[0] not in ("field", "int", "op"), n.line(), "%s returns %s" % (f.q, vstr(v)))


def c_print(ck, rule="a problem is printed with its counts, and every clause with all its literals and a terminating 0"):
    for f in ck.fns(CNF + "::printDIMACS"):
        g = ck.graph(f, ("Candy::operator<<",))
        def ev(n, cx):
            o = out_event(n, cx)
            return o is not None and o[1][0] == "v" and o[1][1][0] in ("elem", "at") and o[1][1][1] == PROB
        fe = ForEach(lambda c: c == PROB, ev)
        def tr(n, cx):
            e, open_ = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind == "call" and short(n.fn()) == "printf":
                a = [cx.arg(i) for i in range(cx.nargs())]
                if a[0][0] == "str" and a[0][1].startswith("p cnf") and len(a) == 3:
                    if a[1] != VARS and a[1][0] in ("size", "field", "op"): cx.run.report("the header counts %s as variables" % vstr(a[1]), n)
                    if a[2] != ("size", PROB) and a[2][0] in ("field", "op", "size"): cx.run.report("the header counts %s as clauses" % vstr(a[2]), n)
            o = out_event(n, cx)
            if o is not None:
                t = o[1]
                if ev(n, cx):
                    if open_: cx.run.report("a clause is printed without terminating 0", n)
                    open_ = True
                elif t == ("s", "0") or t[0] == "s" and t[1].strip() == "0" : open_ = False
            return (fe.step(n, cx, e), open_)
        def fin(kind, u, fa, cx):
            if kind != "exit": return None
            if not u[0][1]: return "a clause is not printed"
            if u[1]: return "a clause is printed without terminating 0"
        ck.run(rule, g, tr, (ForEach.INIT, False), None, lambda n, c, cx, u: (fe.edge(n, c, cx, u[0]), u[1]), final=fin, subject=f.q, fe=(fe,))


# ---------------------------------------------------------------- P20
def sat_table(ck, rule):
    for f in ck.fns("Candy::CandySolverResult::satisfies"):
        g = ck.graph(f); p = P(f, 0); M = ("field", T, "Candy::CandySolverResult::model")
        envs = []; want = {}
        for sg in (0, 1):
            for size in (0, 2, 3, 9):
                for val in LB:
                    def mk(sg=sg, size=size, val=val):
                        return lambda v: LitC((2, sg)) if v == p else size if v == ("size", M) else val if v == ("at", M, ("int", 2)) and size > 2 else None
                    nm = "literal %s3 in a model of %d variables, variable 3 %s" % ("-" if sg else "", size, show(val))
                    envs.append((nm, mk())); t = size > 2 and val == (FALSE if sg else TRUE)
                    want[nm] = (lambda r: bool(r)) if t else (lambda r: not r)
        table(ck, rule, g, envs, lambda n: want[n], "satisfies", subject=f.q)


def m_check(ck, rule="the model checker accepts exactly the models that satisfy a literal of every clause"):
    for f in ck.fns(CNF + "::checkResult"):
        g = ck.graph(f, ("Candy::operator<<", "Candy::CandySolverResult::value", "Candy::CandySolverResult::satisfies"))
        prob = PROB; el = lambda c: c[0] in ("elem", "at") and c[1] == prob
        inlit = lambda l: l[0] in ("elem", "at") and el(l[1])
        def issat(body):
            """is a condition on a literal true exactly for true literals"""
            lit = next((w for w in walk(body) if isinstance(w, tuple) and w and inlit(w)), None)
            if lit is None: return False
            if body[0] == "call" and short(body[1]) == "satisfies": return True
            for sg in (0, 1):
                for val in LB:
                    env = lambda w: LitC((2, sg)) if w == lit else 9 if w[0] == "size" and fieldof(w[1]) == "model" else val if w[0] == "at" and fieldof(w[1]) == "model" else None
                    if bool(ceval(body, env)) != (val == (FALSE if sg else TRUE)): return False
            return True
        def truth(facts):
            """known truth of a literal of the current clause: {literal: bool}"""
            out = {}
            for k, w in facts.items():
                if k[0] == "lbv":
                    v = k[1]
                    if v[0] == "lbxor" and v[1][0] == "at" and fieldof(v[1][1]) == "model" and v[2][0] == "sign_of" and inlit(v[2][1]): out[v[2][1]] = True if w == frozenset([0]) else (False if 0 not in w else None)
                if k[0] == "zero" and k[1][0] == "call" and short(k[1][1]) == "satisfies" and inlit(k[1][3][0]): out[k[1][3][0]] = not w
                if k[0] == "zero" and k[1][0] == "algo" and k[1][1] in ("any_of", "none_of") and el(k[1][2]) and issat(k[1][3]): out[k[1][2]] = w == (k[1][1] == "none_of")
                if k[0] == "lbv" and k[1][0] == "at" and fieldof(k[1][1]) == "model" and k[1][2][0] == "var_of" and inlit(k[1][2][1]):
                    l = k[1][2][1]; sg = facts.get(("zero", ("sign_of", l)))
                    if sg is not None and len(w) == 1: out[l] = w == frozenset([0 if sg else 1])
                    elif w == frozenset([2]): out[l] = False
            return out
        fe = ForEach(lambda c: c == prob, None, None)
        inner = ForEach(el, None, None)
        # state: outer traversal, a true literal of the current clause is known, inner loop completed
        def tr(n, cx):
            e, sat = cx.ust
            if n.kind == "block": return cx.ust
            if n.kind == "ret" and n.frame is g.rootframe:
                v = cx.val(n.x["a"])
                if v == ("int", 1) and not e[1]: cx.run.report("a model is accepted without a true literal in every clause", n)
                if v[0] in ("op", "not", "and", "or", "size") and not e[1] and not mentions(v, "satisfies", "model", "value"): cx.run.report("a model is accepted if %s" % vstr(v), n)
                if v == ("int", 0) and sat == "sat": cx.run.report("a model is rejected although the clause is satisfied", n)
                if v == ("int", 0) and sat == "open": cx.run.report("a model is rejected before all literals of the clause were examined", n)
            return cx.ust
        def ed(n, c, cx, u):
            e, sat = u
            if c[0] != "case":
                v = cx.g.val(n.frame, c[0], dict(cx.env)); lc = loopcond(v, c[1])
                if lc is not None and lc[0] == prob:
                    cur = e[0]; allok = True
                    if cur is not None: allok = cur[1] and sat == "sat"
                    if lc[1]: return ((((False, allok, lc[3])), e[1]), "open")
                    return ((None, e[1] or (allok and lc[2] in ("fwd", "rev"))), "none")
                if lc is not None and el(lc[0]) and not lc[1] and sat == "open": sat = "none"
                tv = truth(cx.facts)
                if e[0] is not None and True in tv.values() and sat != "sat" and not (lc is not None): sat = "sat"
                if sat == "open" and any(el(k) and w is False for k, w in tv.items()): sat = "none"
            return (e, sat)
        ck.run(rule, g, tr, (ForEach.INIT, "none"), "all", ed, subject=f.q)
    sat_table(ck, rule)
    for f in ck.fns("Candy::CandySolverResult::value"):
        g = ck.graph(f); p = P(f, 0); M = ("field", T, "Candy::CandySolverResult::model")
        mk = lambda v, size: lambda w: 2 if w == p else size if w == ("size", M) else v if w == ("at", M, ("int", 2)) or w == ("at", M, p) else LitC((-1, 0)) if w[0] == "glob" and w[1].endswith("lit_Undef") else None
        envs = [("variable 3 in a model of %d variables, %s" % (z, show(v)), mk(v if z > 2 else UNDEF, z)) for z in (0, 2, 3, 9) for v in (LB if z > 2 else (UNDEF,))]
        table(ck, rule, g, envs, lambda n: {"true": LitC((2, 0)), "false": LitC((2, 1)), "undefined": LitC((-1, 0))}[n.split()[-1]], "the literal of the model", subject=f.q)
    for f in ck.fns("Candy::CandySolverResult::value") + ck.fns("Candy::CandySolverResult::satisfies"):
        g = ck.graph(f); M = ("field", T, "Candy::CandySolverResult::model")
        def rd(n, c, cx, u):
            if c[0] == "case": return u
            v = cx.g.val(n.frame, c[0], dict(cx.env))
            if has(v, lambda y: y[0] == "at" and y[1] == M):
                if not any(has(k, lambda y: y == ("size", M)) for k in cx.facts) and not has(v, lambda y: y == ("size", M)): cx.run.report("the model is read at a variable that it may not contain", n)
                else:
                    for S in (0, 1, 3):
                        ix = {w[2] for w in walk(v) if isinstance(w, tuple) and w and w[0] == "at" and w[1] == M}
                        env = lambda w: S if w == ("size", M) or w in ix else None
                        rel = {k: w for k, w in cx.facts.items() if has(k, lambda y: y == ("size", M)) and not has(k, lambda y: y[0] == "at" and y[1] == M)}
                        # conditions evaluated together with the access
                        ok = consistent(rel, env)
                        if rel and ok is True: cx.run.report("the model is read at the position behind its end", n)
            return u
        ck.run(rule, g, lambda n, cx: cx.ust, 0, "all", rd, subject=f.q + " (range)")
    for q, M in (("getModelLiterals", "model"), ("getMinimizedModelLiterals", "minimizedModel")):
        for f in ck.fns("Candy::CandySolverResult::" + q):
            g = ck.graph(f); MF = ("field", T, "Candy::CandySolverResult::" + M)
            def tr(n, cx):
                if n.kind == "call" and short(n.fn()) in ("push_back", "emplace_back"):
                    v = cx.arg(0) if cx.nargs() == 1 else ("mk", "Candy::Lit", (cx.arg(0), cx.arg(1)))
                    if v[0] == "mk" and len(v[2]) == 2:
                        x = v[2][0]
                        for val in LB:
                            env = lambda w: val if w[0] in ("at", "elem") and w[1] == MF else 2 if w == x else None
                            if consistent({k: w for k, w in cx.facts.items() if has(k, lambda y: y == MF) and not (k[0] == "lt")}, env) is False: continue
                            r = ceval(v, env)
                            if val == UNDEF: cx.run.report("a variable without value is listed", n); continue
                            if r is not None and r[1] != (1 if val == FALSE else 0): cx.run.report("a %s variable is listed as %s" % (show(val), "negative" if r[1] else "positive"), n)
                return None
            ck.run(rule, g, tr, None, "all", subject=f.q)
    for q, M in (("getModelLiterals", "model"), ("getMinimizedModelLiterals", "minimizedModel")):
        for f in ck.fns("Candy::CandySolverResult::" + q):
            g = ck.graph(f); MF = ("field", T, "Candy::CandySolverResult::" + M)
            bnd = set()
            def ld(n, c, cx, u):
                if c[0] != "case":
                    v = cx.g.val(n.frame, c[0], dict(cx.env))
                    if has(v, lambda y: y == ("size", MF)) and has(v, lambda y: y[0] == "ivar"): bnd.add((v, c[1], n.line()))
                return u
            Run(g, lambda n, cx: cx.ust, 0, lambda k: True, ld)
            for v, pol, where in bnd:
                iv = {w for w in walk(v) if isinstance(w, tuple) and w and w[0] == "ivar"}
                if len(iv) != 1: continue
                i = next(iter(iv))
                lo = ceval(i[2], {}) if isinstance(i[2], tuple) else i[2]
                if "p++" in str(i[3]) or "+" in str(i[3]):
                    if lo not in (0, None): ck.bad(rule, f.q, where, "the first variables of the model are not listed")
                    r = [ceval(v, lambda w: x if w == i else 5 if w == ("size", MF) else None) for x in (4, 5)]
                    if None not in r and bool(r[0]) == bool(r[1]): ck.bad(rule, f.q, where, "the listing does not end exactly behind the last variable of the model")
                    elif None not in r: ck.ok(rule, f.q + " (all variables)")
    for q in ("setModelValue", "setMinimizedModelValue"):
        M = ("field", T, "Candy::CandySolverResult::" + ("model" if q == "setModelValue" else "minimizedModel"))
        for f in ck.fns("Candy::CandySolverResult::" + q):
            g = ck.graph(f); p = P(f, 0)
            def tr(n, cx):
                if n.kind == "write" and cx.lhs()[0] == "at" and fieldof(cx.lhs()[1]) in ("model", "minimizedModel"):
                    if cx.lhs()[1] != M: cx.run.report("the value enters the other model", n)
                    if cx.lhs()[2] != ("var_of", p) and cx.lhs()[2][0] in ("op", "int"): cx.run.report("the value is stored at %s" % vstr(cx.lhs()[2]), n)
                    for sg in (0, 1):
                        env = {p: LitC((2, sg))}
                        if consistent({k: w for k, w in cx.facts.items() if has(k, lambda y: y == ("sign_of", p))}, env) is False: continue
                        r = ceval(cx.rhs(), env)
                        if r is not None and r != (FALSE if sg else TRUE): cx.run.report("the %s literal is stored as %s" % ("negative" if sg else "positive", show(r)), n)
                    if not any(k[0] == "lt" and has(k, lambda y: y == ("size", M)) for k in cx.facts) and not cx.ust: cx.run.report("the model may be too short for the variable", n)
                    return True
                if n.kind == "call" and short(n.fn()) == "resize" and n.x.get("obj", -1) >= 0 and cx.obj() == M:
                    r = ceval(cx.arg(0), {p: LitC((2, 0))})
                    if r is not None and r < 3: cx.run.report("the model gets %d entries for variable 3" % r, n)
                    if cx.nargs() > 1 and cx.arg(1)[0] == "lb" and cx.arg(1)[1] != 2: cx.run.report("variables without value are stored as %s" % vstr(cx.arg(1)), n)
                    return True
                return cx.ust
            ck.run(rule, g, tr, False, "all", final=lambda kind, u, fa, cx: "the value is not stored" if kind == "exit" and not u else None, subject=f.q)


P13 = (r_parse, r_first, r_skip, r_int, r_peek, r_refill)
P32 = (c_clause, c_feed, c_count, c_print)
P20 = (m_check,)
