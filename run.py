#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py P01 [--tier quick|thorough] [--seed N] | setup | all"""
import argparse, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vf"))
sys.dont_write_bytecode = True
import build as B
import core
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    a = ap.parse_args()
    if a.what == "setup":
        # warm the content-addressed cache; a check that does not find it builds what it needs by itself
        for fl in ("plain", "asan", "tsan"):
            try:
                r = B.build(fl, checks.harnesses(fl), checks.libs(fl))
                print("built", fl, r["compiled"], "objects in", r["build_s"], "s")
            except B.BuildError as e:
                print("setup: build of flavour %s failed:\n%s" % (fl, e))
        return 0
    todo = sorted(checks.CHECKS) if a.what == "all" else [a.what]
    rc = 0
    for pid in todo:
        c = core.Check(pid, a.tier, a.seed)
        try:
            r = checks.CHECKS[pid](c)
        except B.BuildError as e:
            print("ERROR (inconclusive): the tree does not build\n%s" % e)
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        finally:
            c.cleanup()
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
