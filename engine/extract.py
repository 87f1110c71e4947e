"""Build the fact base: run the clang-based extractor over every translation unit of /repo's working tree."""
import concurrent.futures, fcntl, glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CANDY_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src", "candy")
FLAGS = ["-std=c++14", "-msse4.1", "-pthread", "-DNDEBUG", "-DCANDY_HAVE_RLIMIT", "-DDEBUG_CHECK_CASTS",
         "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "lib", "oscpack"), "-w", "-ferror-limit=0"]
if os.path.isdir("/usr/lib/gcc/x86_64-linux-gnu/10/include"):
    FLAGS.append("--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/10")


class AnalysisError(Exception):
    """The machinery cannot decide (anchor vanished, source does not parse...): neither pass nor violation."""


def ensure_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "xtract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    stamp = os.path.join(BUILD, "xtract.stamp")
    exe = os.path.join(BUILD, "xtract")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
            return exe, h
        if os.path.exists(exe):
            os.remove(exe)
        r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "tool"), "OUT=" + BUILD], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise AnalysisError("cannot build the extractor: " + r.stdout[-2000:] + r.stderr[-2000:])
        open(stamp, "w").write(h)
    return exe, h


def translation_units():
    out = []
    for ext in ("cc", "cpp"):
        out += glob.glob(os.path.join(SRC, "**", "*." + ext), recursive=True)
    # the OSC controllers are not part of the build (SONIFICATION is off) and need a foreign library
    return sorted(p for p in out if "/sonification/" not in p)


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".cc", ".cpp", ".c", ".inc")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:24]


def _run(args):
    exe, tu, out = args
    r = subprocess.run([exe, "-root", SRC, "-o", out, tu, "--"] + FLAGS, capture_output=True, text=True)
    if not os.path.exists(out):
        return tu, None, r.stderr
    d = json.load(open(out))
    os.remove(out)
    return tu, d, r.stderr


def load(verbose=False):
    """-> dict(functions={id: raw}, globals=[...], records=[...], tus=[...], errors={tu: text})"""
    exe, th = ensure_tool()
    key = tree_hash() + "-" + th
    fdir = os.environ.get("CANDY_FACTS", BUILD)
    cache = os.path.join(fdir, "facts-%s.pkl" % key)
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, "rb"))
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="xtract")
    try:
        jobs = [(exe, tu, os.path.join(tmp, "%d.json" % i)) for i, tu in enumerate(translation_units())]
        if not jobs:
            raise AnalysisError("no translation units below " + SRC)
        # long ones first
        jobs.sort(key=lambda j: 0 if "CandyBuilder" in j[1] or "Main" in j[1] else 1)
        res = {"functions": {}, "globals": {}, "records": {}, "tus": [], "errors": {}}
        with concurrent.futures.ProcessPoolExecutor(max_workers=int(os.environ.get("CANDY_JOBS", "8"))) as ex:
            for tu, d, err in ex.map(_run, jobs):
                res["tus"].append(tu)
                if d is None:
                    res["errors"][tu] = err
                    continue
                if d.get("errors"):
                    res["errors"][tu] = err
                for f in d["functions"]:
                    f["tu"] = tu
                    res["functions"].setdefault(f["id"], f)
                for g in d["globals"]:
                    old = res["globals"].get((g["q"], g["file"] if "|" in g["q"] else ""))
                    if old is None or (g["def"] and not old["def"]):
                        res["globals"][(g["q"], "")] = g
                for rec in d["records"]:
                    res["records"].setdefault(rec["pretty"], rec)
        for old in glob.glob(os.path.join(fdir, "facts-*.pkl")):
            try: os.remove(old)
            except OSError: pass
        t = cache + ".tmp%d" % os.getpid()
        pickle.dump(res, open(t, "wb"), protocol=4)
        os.replace(t, cache)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    r = load()
    print(len(r["functions"]), "functions", len(r["globals"]), "globals", len(r["records"]), "records")
    for tu, e in r["errors"].items():
        print(tu, e[:400])
