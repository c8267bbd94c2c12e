#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only contract] [--replay file]

Decides one property: loads its contracts, generates the obligations from /repo's current source, discharges them, and
replays / bounds concretely.  Exit 0 held, 1 violation."""
import os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings; warnings.simplefilter("ignore")
import argparse, json, multiprocessing as mp, time, importlib, tempfile, warnings, shutil
warnings.filterwarnings("ignore")


def worker(pid, name, tier, seed, q, concrete_only=False):
    try:
        import resource
        lim = 8 << 30
        resource.setrlimit(resource.RLIMIT_AS, (3 * lim, 3 * lim))
    except Exception:
        pass
    try:
        import pyvc.contract as ct
        from pyvc.runner import run_contract
        c = [x for x in ct.REG[pid] if x.name == name][0]
        d = tempfile.mkdtemp(prefix="pyvc_")
        os.chdir(d)
        try:
            q.put(("ok", run_contract(c, tier, seed, concrete_only)))
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
    except BaseException as ex:
        import traceback
        q.put(("err", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])))


def run_all(pid, tier, seed, only=None, limit=None):
    import pyvc.contract as ct
    cs = [c for c in ct.REG[pid] if only is None or c.name in only]
    ctx = mp.get_context("fork")
    pend, run, out, again = list(cs), {}, {}, set()
    t0 = time.time()
    while pend or run:
        while pend and len(run) < 8:
            c = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(pid, c.name, tier, seed, q), daemon=True)
            p.start()
            run[c.name] = (p, q, time.time(), c)
        for n, (p, q, t, c) in list(run.items()):
            hard = limit or (3600 if tier == "thorough" else 330)
            got = None
            try:
                got = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        got = q.get(timeout=0.5)
                    except Exception:
                        got = ("err", "worker died (exit %s)" % p.exitcode)
                elif time.time() - t > hard:
                    p.terminate()
                    got = ("err", "worker exceeded %d s" % hard)
            if got is not None and got[0] == "err" and c.mode == "proof" and n not in again and not got[1].startswith(("ImportError", "SyntaxError")):
                again.add(n)
                p.join(2)
                if p.is_alive():
                    p.kill()
                q = ctx.Queue()
                p = ctx.Process(target=worker, args=(pid, n, tier, seed, q, True), daemon=True)
                p.start()
                run[n] = (p, q, time.time(), c)
                continue
            if got is not None:
                out[n] = got
                p.join(2)
                if p.is_alive():
                    p.kill()
                del run[n]
        time.sleep(0.02)
    return [(c, out[c.name]) for c in cs]


def load_contracts(pid):
    importlib.import_module("contracts.%s" % pid.lower())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?", default="")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if a.selftest:
        import z3, torch, pyvc.runner
        print("z3", z3.get_version_string(), "torch", torch.__version__, "cvc5", shutil.which("cvc5"))
        import subprocess
        return subprocess.call([sys.executable, os.path.join(HERE, "selftest", "run.py")])
    from loguru import logger
    logger.remove()
    logger.disable("nidn")
    import torch
    torch.set_num_threads(1)
    try:
        import nidn
        imp = None
    except Exception as ex:
        imp = ex
    logger.remove()
    load_contracts(a.pid)
    import pyvc.contract as ct
    if a.replay:
        return replay(a, ct)
    pid = a.pid
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    res = run_all(pid, a.tier, seed, a.only)
    viol, notes, obl, dis = [], [], 0, 0
    funcs, libs, backends, bounded, ev = {}, {}, {}, [], 0
    distinct, samples, solver, ntr = 0, [], 0.0, []
    per = []
    ran = 0
    if imp is not None:
        viol.append(("import", "importing nidn raises %s: %s" % (type(imp).__name__, imp), {}, True))
    for c, (st, r) in res:
        if st == "err":
            notes.append("contract %s: undecided, %s" % (c.name, r))
            bounded.append("%s (verifier did not finish)" % c.name)
            continue
        s, k = r.get("sym"), r["con"]
        row = {"contract": c.name, "doc": c.doc, "mode": c.mode}
        if s is not None:
            bad = [o for o in s["obligations"] if o["status"] == "refuted"]
            unk = [o for o in s["obligations"] if o["status"] == "unknown"]
            prv = [o for o in s["obligations"] if o["status"] == "proved"]
            obl += len(s["obligations"])
            dis += len(prv)
            for o in prv:
                for h in o["how"].split("+"):
                    backends[h] = backends.get(h, 0) + 1
            for f, n in s["functions"].items():
                funcs[f] = funcs.get(f, 0) + n
            for f, n in s["lib"].items():
                libs[f] = libs.get(f, 0) + n
            solver += s["stats"]["z3_time"] + s["stats"]["cvc5_time"]
            row.update(obligations=len(s["obligations"]), discharged=len(prv), unknown=len(unk), refuted=len(bad), paths=s["paths"], time_s=round(s["time"], 1), status=s["status"], note=s["note"])
            if s["status"] == "missing":
                notes.append("contract %s not applicable to this tree: %s" % (c.name, s["note"]))
            elif s["status"] != "ok" or unk:
                bounded.append("%s (%s)" % (c.name, s["note"] or "undecided: " + ", ".join(sorted(set(o["check"] for o in unk)))[:200]))
            for n in s["notes"]:
                ntr.append(n)
        else:
            bounded.append("%s (bounded by design: %d seeded cases)" % (c.name, k["evaluations"]))
        ev += k["evaluations"]
        distinct += k["distinct"]
        samples += [{"contract": c.name, "inputs": x} for x in k["samples"][:1]]
        row.update(concrete_cases=k["evaluations"], skipped=k["skipped"], concrete_checks=k["checks"])
        per.append(row)
        if k["evaluations"] or (s and s["obligations"]):
            ran += 1
        if k["failures"]:
            f = k["failures"][0]
            viol.append((c.name, f["check"], f, True))
        elif s is not None and s["status"] != "missing":
            bad = [o for o in s["obligations"] if o["status"] == "refuted"]
            if bad:
                viol.append((c.name, bad[0]["check"], {"obligations": bad[:10]}, False))
    if not ran and not viol:
        print("ERROR: no obligation was generated for %s" % pid)
        for n in notes:
            print("note:", n)
        return 2
    # known findings
    kf = known(pid)
    shown, real = [], []
    for v in viol:
        m = [x for x in kf if x["contract"] == v[0] and x["check"] == v[1]]
        if m:
            shown.append("KNOWN-FINDING: property=%s %s" % (pid, m[0]["what"]))
        else:
            real.append(v)
    level = "proof" if dis else "exploration"
    cov = {"obligations": obl, "discharged": dis, "back_ends": backends, "solver_time_s": round(solver, 2),
           "checker_cmd": "cd /verif && /opt/venv/bin/python check.py %s --tier %s" % (pid, a.tier),
           "trusted_base": TRUSTED, "functions_under_contract": sorted(funcs), "assumed_library_contracts": sorted(libs),
           "contracts": per, "bounded_stand_ins": bounded, "evaluations": ev, "distinct_nontrivial": distinct,
           "rule": "seeded concrete cases of the same contracts run against the real package (cross-check of the assumed library contracts and bounded stand-in); non-trivial: inputs satisfy the precondition and differ from all others",
           "samples": samples[:6], "notes": notes}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME + sorted(set(ntr)),
                   "wall_s": round(time.time() - t0, 1), "violations": len(real)}, f, indent=1, default=str)
    for n in notes:
        print("note:", n[:600])
    for b in bounded:
        print("bounded:", b[:600])
    for l in shown:
        print(l)
    print("%s: %d contracts, %d/%d obligations discharged, %d concrete cases, %.1f s" % (pid, len(res), dis, obl, ev, time.time() - t0))
    if a.v:
        for row in per:
            print(json.dumps({k: v for k, v in row.items() if k != "doc"}))
    for i, (cn, chk, d, conc) in enumerate(real):
        path = os.path.join(evdir, "replay_%s_%s.json" % (pid, cn))
        with open(path, "w") as f:
            json.dump({"property": pid, "contract": cn, "failed_obligation": chk, "concrete": conc, "detail": d, "tier": a.tier,
                       "how_to_replay": "cd /verif && /opt/venv/bin/python check.py %s --replay %s" % (pid, path)}, f, indent=1, default=str)
        print("failed: %s / %s : %s" % (cn, chk, (str(d.get("detail")) if isinstance(d, dict) else str(d))[:300]))
    if real:
        real.sort(key=lambda v: not v[3])
        cn, chk, d, conc = real[0]
        path = os.path.join(evdir, "replay_%s_%s.json" % (pid, cn))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if conc else " no-failing-input-found"))
        return 1
    return 0


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["open"] if x["property"] == pid]


def replay(a, ct):
    from pyvc.runner import run_trial
    with open(a.replay) as f:
        d = json.load(f)
    c = [x for x in ct.REG[a.pid] if x.name == d["contract"]][0]
    if not d["concrete"]:
        print("no concrete input; failed obligation: %s" % d["failed_obligation"])
        return 0
    inp = d["detail"]["inputs"]

    def un(x):
        if isinstance(x, dict):
            if set(x) == {"re", "im"}:
                return complex(x["re"], x["im"])
            return {k: un(v) for k, v in x.items()}
        return x
    r = run_trial(c, d["detail"]["seed"], un(inp), d["tier"])
    print(r[:3])
    return 1 if r[0] == "fail" else 0


TRUSTED = ["pyvc (this verifier: AST transformation, symbolic arrays, loop summarisation, normal forms)", "z3 4.x (python3-vt)", "cvc5 1.1.2 (when z3 gives up)",
           "CPython 3.12 executing the transformed source", "assumed contracts of the library functions listed in assumed_library_contracts"]
ASSUME = ["floating-point arithmetic is treated as exact real / complex arithmetic; float literals as the decimal they spell",
          "integers are mathematical", "autograd, devices and dtypes' precision do not influence values", "log messages are not part of the behaviour"]

if __name__ == "__main__":
    sys.exit(main())
