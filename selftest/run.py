"""Regression suite of the verifier itself (setup): true facts about toy functions must be proved, false ones must not, and concrete runs must agree."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
os.environ["VERIF_REPO"] = H
sys.path[:0] = [H, os.path.dirname(H)]
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings; warnings.simplefilter("ignore")
import multiprocessing as mp
import pyvc.contract as ct, pyvc.runner as rn
import facts


def one(i):
    c = ct.REG["ST"][i]
    res, _ = rn.run_symbolic(c, "quick")
    proved = res["status"] == "ok" and bool(res["obligations"]) and all(o["status"] == "proved" for o in res["obligations"])
    fails = 0
    for s in range(60):
        r = rn.run_trial(c, 1000 + s, None, "quick")
        fails += r[0] == "fail" if isinstance(r, tuple) else r["status"] == "fail"
    return c.name, proved, fails, "%s %s %s" % (res["status"], res["note"], [(o["check"], o["status"]) for o in res["obligations"] if o["status"] != "proved"][:2])


def main():
    with mp.get_context("fork").Pool(8) as p:
        out = p.map(one, range(len(ct.REG["ST"])), chunksize=1)
    bad = weak = 0
    for name, proved, fails, note in out:
        false = name.startswith("no_")
        if "-v" in sys.argv:
            print(name, proved, fails, note)
        if (proved and (false or fails)) or (false and not fails) or (not false and fails):
            bad += 1
            print("SELFTEST FAILED:", name, "proved" if proved else "not proved", fails, "concrete failures", note)
        elif not false and not proved:
            weak += 1
            print("selftest: not proved:", name, note)
    print("selftest: %d facts, %d wrong, %d true ones not proved" % (len(out), bad, weak))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
