#!/usr/bin/env python3
"""Self-test of the machinery (never part of a check): applies planted changes to a scratch copy of /repo's sources and runs the
rules on it.  cases: selftest/mutants.txt (must be caught by one of the named properties) and selftest/benign.txt (must stay quiet).

format of a case:   @@ name properties...   then   == file   followed by   <<<< old text ==== new text >>>>   blocks
usage: run.py [mutants|benign|DIR-of-seeded] [name-substring] [-j N]"""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(path):
    out = []; cur = None
    txt = open(path).read()
    for blk in re.split(r"(?m)^@@ ", txt)[1:]:
        head, body = blk.split("\n", 1)
        w = head.split()
        edits = []
        for fb in re.split(r"(?m)^== ", body)[1:]:
            fn, rest = fb.split("\n", 1)
            for m in re.finditer(r"(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>\n?", rest): edits.append((fn.strip(), m.group(1), m.group(2)))
        out.append((w[0], w[1:], edits, None))
    return out


def seeded():
    import json
    d = os.path.join(V, "seeded"); out = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n, "patch.diff")
        if os.path.exists(p): out.append((n, [json.load(open(os.path.join(d, n, "meta.json")))["property"]], [], p))
    return out


def run(case, kind, only=None):
    name, props, edits, patch = case
    tmp = tempfile.mkdtemp(prefix="cst-")
    try:
        shutil.copytree("/repo/src", os.path.join(tmp, "src"))
        if os.path.isdir("/repo/lib"): os.symlink("/repo/lib", os.path.join(tmp, "lib"))
        for fn, old, new in edits:
            p = os.path.join(tmp, "src", "candy", fn)
            s = open(p).read()
            o, nw = old.rstrip("\n"), new.rstrip("\n")
            if s.count(o) < 1: return name, props, "BADCASE", "text not found in %s: %s" % (fn, o[:80])
            s = s.replace(o, nw, 1)
            open(p, "w").write(s)
        if patch:
            r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp, patch], capture_output=True, text=True, cwd="/")
            if r.returncode: 
                r = subprocess.run(["patch", "-p1", "-s", "-d", tmp, "-i", patch], capture_output=True, text=True)
                if r.returncode: return name, props, "BADCASE", r.stdout + r.stderr
        env = dict(os.environ, CANDY_REPO=tmp, CANDY_FACTS=tmp, CANDY_JOBS="2", CANDY_EVID=tmp)
        ids = props if kind == "mutants" else ["ALL"]
        ids = props if kind == "mutants" and "-o" in sys.argv else ["ALL"]
        r = subprocess.run([sys.executable, os.path.join(V, "check.py")] + ids, capture_output=True, text=True, env=env)
        hits = re.findall(r"VIOLATION property=(\S+)", r.stdout); und = re.findall(r"UNDECIDED.*|undecided: .*", r.stdout)
        return name, props, (hits, und), r.stdout + r.stderr
    finally: shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    verbose = "-v" in sys.argv
    kinds = [a[0]] if a else ["mutants", "benign", "seeded"]
    sub = a[1] if len(a) > 1 else ""
    bad = 0
    for kind in kinds:
        cs = seeded() if kind == "seeded" else cases(os.path.join(V, "selftest", kind + ".txt"))
        cs = [c for c in cs if sub in c[0]]
        with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
            for name, props, res, out in ex.map(lambda c: run(c, kind), cs):
                if res == "BADCASE": print("BADCASE %-40s %s" % (name, out)); bad += 1; continue
                hits, und = res
                if kind == "benign": ok = not hits and not und
                else: ok = any(p in hits for p in props)
                st = "ok  " if ok else ("ALARM" if kind == "benign" else ("other" if hits else "MISS "))
                if not ok: bad += 1
                print("%s %-8s %-40s want=%s hits=%s %s" % (st, kind, name, ",".join(props), ",".join(hits), " ".join(und)[:300]))
                if verbose or (kind == "benign" and not ok): print("\n".join(l for l in out.splitlines() if "violated:" in l or "UNDEC" in l or "Error" in l or "path:" in l)[:3000])
                sys.stdout.flush()
    print("bad:", bad)


main()
