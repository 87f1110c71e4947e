#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property from /repo's current source. Exit 0 holds, 1 violation, 2 undecided."""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.core import Prog, AnalysisError
from engine.extract import VERIF, REPO
from rules.lib import Check
from rules import registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--thorough", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.id == "ALL":       # development aid: all properties in one process
        prog = Prog(); rc = 0
        for i in sorted(registry.RULES):
            try: r = decide(i, "thorough" if a.thorough else "quick", a.v, prog)
            except Exception: traceback.print_exc(); print("UNDECIDED property=%s internal error" % i); r = 2
            rc = max(rc, r)
        sys.exit(rc)
    sys.exit(decide(a.id, "thorough" if a.thorough else "quick", a.v, None))


def decide(pid, tier, verbose, prog):
    t0 = time.time()
    ck = Check(pid, tier)
    try:
        ck.prog = prog or Prog()
        if ck.prog.facts["errors"]:
            for tu, e in ck.prog.facts["errors"].items(): ck.note("parse", "%s: %s" % (tu, e[:300]))
            raise AnalysisError("source does not parse: " + ", ".join(ck.prog.facts["errors"]))
        registry.run(ck)
        if not ck.obl and not ck.viol: raise AnalysisError("no obligation was generated; " + "; ".join(ck.undecided))
    except AnalysisError as e:
        if not ck.viol:
            print("UNDECIDED property=%s %s" % (pid, e)); return 2
        ck.note("analysis", str(e))
    known = load_known(pid)
    new, old = [], []
    for v in ck.viol:
        k = [e for e in known if e["rule"] == v["rule"] and e["subject"] == v["subject"] and e["match"] in v["msg"]]
        (old if k else new).append(v)
    st = ck.stats
    byrule = {r: {"obligations_discharged": c[0], "violations": c[1]} for r, c in sorted(ck.rules.items())}
    cov = {"explanation": "Rules of this property applied to the source of /repo as parsed by clang: every listed obligation is a (rule, program construct) pair decided on all paths of the construct's inlined control-flow graph.",
           "obligations": len(ck.obl), "rules": byrule, "functions_in_program": len(ck.prog.funcs), "functions_analysed": len(st["functions_analysed"]),
           "abstract_states_explored": st["abstract_states"], "supergraph_nodes": st["supergraph_nodes"], "translation_units": len(ck.prog.facts["tus"]),
           "undecided": ck.undecided, "notes": ["%s: %s" % n for n in ck.notes][:50]}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": registry.LEVEL.get(pid, "other"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": registry.ASSUME + ck.assume}
    evd = os.environ.get("CANDY_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1, sort_keys=True)
    print("%s: %d obligations over %d functions, %d rules, %d abstract states, %.1fs" % (pid, len(ck.obl), len(st["functions_analysed"]), len(byrule), st["abstract_states"], time.time() - t0))
    for r, c in sorted(ck.rules.items()): print("  rule: %-90s discharged %d, violated %d" % (r, c[0], c[1]))
    if verbose:
        for o in ck.obl: print("   ", o)
    for u in ck.undecided: print("  undecided: " + u)
    for n in ck.notes: print("  note: %s: %s" % n)
    for v in old: print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["where"], v["msg"]))
    if new:
        rp = os.path.join(evd, pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("rule: %s\nsubject: %s\nat: %s\n%s\npath: %s\n\n" % (v["rule"], v["subject"], v["where"], v["msg"], " -> ".join(v["trace"])))
        for v in new: print("  violated: [%s] %s: %s\n     path: %s" % (v["rule"], v["where"], v["msg"], " -> ".join(v["trace"][-8:])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [e for e in json.load(open(p)).get("open", []) if e["property"] == pid]


if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except AnalysisError as e:
        print("UNDECIDED %s" % e); sys.exit(2)
    except Exception:
        traceback.print_exc(); print("UNDECIDED internal error"); sys.exit(2)
