#!/usr/bin/env python3
"""mk.py KIND NAME DIR: materialise one self-test case as a scratch tree (for debugging)."""
import os, shutil, sys
sys.argv, a = [sys.argv[0], "none-such"], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib.util
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "run.py")).read().replace("\nmain()\n", "\n")
ns = {"__file__": os.path.join(os.path.dirname(os.path.abspath(__file__)), "run.py"), "__name__": "x"}
exec(compile(src, "run.py", "exec"), ns)
for name, props, edits, patch in ns["cases"](os.path.join(ns["V"], "selftest", a[0] + ".txt")):
    if name != a[1]: continue
    d = a[2]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", os.path.join(d, "src"))
    if os.path.isdir("/repo/lib"): os.symlink("/repo/lib", os.path.join(d, "lib"))
    for fn, old, new in edits:
        p = os.path.join(d, "src", "candy", fn); s = open(p).read()
        assert old.rstrip("\n") in s, old
        open(p, "w").write(s.replace(old.rstrip("\n"), new.rstrip("\n"), 1))
