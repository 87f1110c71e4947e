#!/usr/bin/env python3
"""Development tool: turn the cases of selftest/seeds.txt into seeded/<name>/ after confirming each in a scratch copy
(builds, all baseline tests pass, demonstration passes without and fails with the change).

case:  @@ name property | demo kind and arguments      kinds: fz SEED N | pf SEED N opts... | own FILE (selftest/demo/FILE is the demo.sh)
       needs: ...
       breaks: ...
       == file (relative to src/candy)   <<<< old ==== new >>>>"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDW", "/tmp/sw")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    return sh("export LC_ALL=C.UTF-8 CCACHE_DISABLE=1; cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Release -DCMAKE_C_COMPILER=/usr/bin/gcc-10 -DCMAKE_CXX_COMPILER=/usr/bin/g++-10 -DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/hook.cmake && ninja -C _build", cwd=W)


def tests():
    sh("rm -rf {0}-res; mkdir -p {0}-res".format(W))
    sh("python3 /opt/vp/run_gtests.py {0}/_build {0}-res && python3 /opt/vp/results.py {0}-res/o.json lines:{0}-res/results.txt".format(W), env=dict(os.environ, LC_ALL="C.UTF-8"))
    try: return set(json.load(open("%s-res/o.json" % W))["passed"])
    except Exception: return set()


def main():
    only = sys.argv[1:]
    if not os.path.isdir(W + "/.git"):
        sh("rm -rf %s; git clone -q /repo %s" % (W, W))
    sh("git -C %s checkout -q -- . ; git -C %s pull -q" % (W, W))
    clean = False
    for blk in re.split(r"(?m)^@@ ", open((os.environ.get("SEEDS") or os.path.join(V,"selftest","seeds.txt"))).read())[1:]:
        head, body = blk.split("\n", 1)
        left, demo = head.split("|"); name, prop = left.split(); demo = demo.split()
        if only and not any(o in name for o in only): continue
        d = os.path.join(os.environ.get("SEEDOUT") or os.path.join(V, "seeded"), name)
        if not only and os.path.exists(os.path.join(d, "patch.diff")): continue
        needs = re.search(r"(?m)^needs: (.*)$", body).group(1); breaks = re.search(r"(?m)^breaks: (.*)$", body).group(1)
        sh("git checkout -q -- .", cwd=W)
        ok = True
        for fb in re.split(r"(?m)^== ", body)[1:]:
            fn, rest = fb.split("\n", 1)
            for m in re.finditer(r"(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>\n?", rest):
                p = os.path.join(W, "src/candy", fn.strip()); s = open(p).read()
                o, w = m.group(1).rstrip("\n"), m.group(2).rstrip("\n")
                if s.count(o) != 1: print(name, "TEXT %d times: %s" % (s.count(o), o[:60])); ok = False; continue
                open(p, "w").write(s.replace(o, w))
        if not ok: continue
        diff = sh("git diff", cwd=W).stdout
        b = build()
        if b.returncode: print(name, "DOES NOT BUILD", b.stdout[-1500:]); continue
        t = tests(); lost = BASE - t
        if lost: print(name, "BREAKS TESTS", sorted(lost)[:5], len(lost)); continue
        tmp = W + "-demo"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        dm = os.path.join(V, "selftest", "demo")
        if demo[0] in ("fz", "pf"):
            open(tmp + "/demo.sh", "w").write(open(dm + "/demo_%s.sh" % demo[0]).read().replace("@ARGS@", " ".join(demo[1:])))
            shutil.copy(dm + ("/fz.cc" if demo[0] == "fz" else "/pf.py"), tmp)
        elif demo[0] == "cc":
            open(tmp + "/demo.sh", "w").write(open(dm + "/demo_cc.sh").read().replace("@SRC@", demo[1]))
            shutil.copy(os.path.join(dm, demo[1]), tmp)
        else:
            shutil.copy(os.path.join(dm, demo[1]), tmp + "/demo.sh")
            for x in demo[2:]: shutil.copy(os.path.join(dm, x), tmp)
        os.chmod(tmp + "/demo.sh", 0o755)
        rb = sh("timeout 300 bash %s/demo.sh" % tmp, cwd=W)
        rg = sh("timeout 300 bash %s/demo.sh" % tmp, cwd="/repo")
        if rb.returncode == 0 or rg.returncode != 0:
            print(name, "DEMO with bug rc=%d, without rc=%d" % (rb.returncode, rg.returncode), (rb.stdout + rb.stderr)[-400:], (rg.stdout + rg.stderr)[-400:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print(name, "KEPT; with bug:", (rb.stdout + rb.stderr).strip()[-150:].replace("\n", " | "))
        sys.stdout.flush()
    sh("git checkout -q -- .", cwd=W)


main()
