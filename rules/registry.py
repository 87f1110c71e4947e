"""property id -> rules"""
import os, traceback
from engine.extract import AnalysisError
from . import alloc, analysis, base, branch, cli, cnf, drat, factory, ipasir, proof, rsar, search, simp, solver, trail, watch

RULES = {"P24": factory.P24, "P22": rsar.P22, "P19": drat.P19, "P17": simp.P17, "P29": simp.P29, "P28": base.P28, "P31": base.P31, "P18": branch.P18, "P15": alloc.P15, "P12": cli.P12, "P14": cli.P14, "P16": cli.P16, "P13": cnf.P13, "P32": cnf.P32, "P20": cnf.P20,
         "P11": ipasir.P11, "P27": ipasir.P27,
         "P09": analysis.P09, "P10": analysis.P10,
         "P01": proof.P01, "P02": proof.P02, "P03": proof.P03, "P04": solver.P04, "P05": solver.P05,
         "P08": trail.P08, "P06": watch.P06, "P07": search.P07}
LEVEL = {}
ASSUME = ["clang's AST and CFG of the default build configuration (NDEBUG, C++14) represent the shipped program",
          "standard library functions behave as specified", "no exception is thrown by memory allocation"]


def run(ck):
    """apply all rules; a rule that does not recognise the code's form leaves its obligation undecided (recorded, never an alarm)"""
    if ck.pid not in RULES: raise SystemExit("unknown property " + ck.pid)
    for r in RULES[ck.pid]:
        try: r(ck)
        except AnalysisError as e: ck.undecided.append("%s: %s" % (r.__name__, e))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, StopIteration, RecursionError) as e:
            ck.undecided.append("%s: internal error %r" % (r.__name__, e))
            if os.environ.get("CANDY_DEBUG"): traceback.print_exc()
