"""Runs one contract: symbolically (obligations) and concretely (replay / bounded stand-in)."""
import builtins as nb
import hashlib, json, os, random, signal, sys, time, traceback
from . import sym, zsolve, contract as ct
from .sym import Engine, CUR, Unsupported, PathEnd, Budget, Control
from .terms import *
from .loader import Loader, REPO
import z3


def model_inputs(model, inputs):
    """values of the declared inputs in a z3 model"""
    out = {}

    def ev(x):
        v = model.eval(x, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        return 0
    for name, spec in inputs.items():
        k = spec[0]
        if k in ("int", "choice"):
            out[name] = ev(z3.Int(name))
        elif k == "real":
            out[name] = ev(z3.Real(name))
        elif k == "cplx":
            out[name] = complex(ev(z3.Real(name + ".re")), ev(z3.Real(name + ".im")))
        elif k == "bool":
            out[name] = ev(z3.Bool(name))
        elif k in ("tensor", "list"):
            kind = spec[1]

            def get(idx, name=name, kind=kind):
                a = [z3.IntVal(int(i)) for i in idx]
                if kind == "c":
                    fs = [zsolve.zfunc("f_%s.%s" % (name, p), [zsolve.I] * len(a), zsolve.R) for p in ("re", "im")]
                    return complex(*[ev(f(*a)) if a else ev(z3.Real(name + "." + p)) for f, p in zip(fs, ("re", "im"))])
                srt = zsolve.I if kind == "i" else zsolve.R
                if not a:
                    return ev(z3.Const(name, srt))
                return ev(zsolve.zfunc("f_" + name, [zsolve.I] * len(a), srt)(*a))
            out[name] = get
    return out


def small_model(prover, ob):
    """a counter-model with small sizes, if there is one"""
    small = [ble(var(n, "i"), num((s[1] or 0) + 4)) for n, s in ob["inputs"].items() if s[0] == "int" and not isinstance(s[1], sym.S)]
    fs = nb.list(ob["pc"]) + [bnot(ob["goal"])] + small
    try:
        lem = prover.lemmas(fs)
        r, m = prover._check(fs + lem, False, 4.0, True)
        if r == "sat":
            return m
    except Exception:
        pass
    return ob.get("model")


def run_symbolic(c, tier):
    res = {"obligations": [], "status": "ok", "note": "", "functions": {}, "lib": {}, "paths": 0, "notes": []}
    mult = 3 if tier == "thorough" else 1
    e = Engine(timeout=c.timeout * (2 if tier == "thorough" else 1), budget=c.budget * mult, max_paths=c.maxpaths * mult, cvc5=(tier == "thorough"))
    CUR[0] = e
    zsolve.DOM.clear()
    obs = []
    t0 = time.time()
    cx_last = [None]
    try:
        L = Loader()
        e.ctxs.append(sym.Ctx([]))
        L.load("nidn")

        def go():
            from . import ncpoly
            ncpoly.reset()
            cx = ct.SymC(e, L, obs, tier)
            cx_last[0] = cx
            m = len(e.pc)
            k0 = len(obs)
            try:
                c.fn(cx)
                if not live[0] and e.prover.prove(nb.list(e.pc), FALSE, timeout=4.0)[0] != "proved":
                    live[0] = True
            except ct.Failed as f:
                cx.record(f.name, "refuted", str(f.detail)[:300], 0.0, nb.list(e.pc), FALSE)
            except ct.Missing:
                raise
            except Exception as ex:
                # an exception the contract does not allow: only reachable paths count
                st, how = e.prover.prove(nb.list(e.pc), FALSE, timeout=4.0)
                tb = traceback.extract_tb(ex.__traceback__)
                loc = [x for x in tb if "/nidn/" in x.filename]
                if tb and os.path.dirname(tb[-1].filename).endswith("/pyvc") and not (tb[-1].line or "raise").lstrip().startswith("raise") and (
                        os.path.basename(tb[-1].filename) in ("loops.py", "terms.py", "zsolve.py", "ncpoly.py")
                        or os.path.basename(tb[-1].filename) == "sym.py" and isinstance(ex, (ValueError, KeyError, IndexError, AttributeError))):
                    raise Unsupported("verifier error: %s: %s at %s:%d" % (type(ex).__name__, ex, tb[-1].filename, tb[-1].lineno))
                if contract_error(ex, [x for x in tb if "/verif/pyvc/" not in x.filename or x.filename.endswith("contract.py")]):
                    if st == "proved" or nb.any(o["status"] != "proved" for o in obs[k0:]):
                        return  # unreachable, or the consequence of an obligation that already failed on this path
                    raise ct.Missing("the contract does not fit this tree: %s: %s" % (type(ex).__name__, ex))
                if os.environ.get("PYVC_TB"):
                    traceback.print_exc()
                where = "%s:%d" % (loc[-1].filename, loc[-1].lineno) if loc else "contract %s:%d" % (tb[-1].filename, tb[-1].lineno)
                model = how if st == "refuted" else None
                cx.record("no unexpected %s (%s)" % (type(ex).__name__, str(ex)[:80]), st, where if st != "proved" else "infeasible path", 0.0, nb.list(e.pc), FALSE)
                if model is not None:
                    obs[-1]["model"] = model
        live = [False]
        e.explore(go)
        if not live[0] and not nb.any(o["status"] == "refuted" for o in obs):
            res["status"], res["note"] = "unsupported", "vacuous: no reachable path through the contract"
    except ct.Missing as m:
        res["status"], res["note"] = "missing", str(m)
    except (Unsupported, Budget, TooBig) as u:
        res["status"], res["note"] = "unsupported", "%s: %s" % (type(u).__name__, u)
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    except RecursionError:
        res["status"], res["note"] = "unsupported", "recursion limit of the verifier"
        if os.environ.get("PYVC_TB"):
            print("\n".join([x for x in traceback.format_exc().splitlines() if "File" in x][:90]), file=sys.stderr)
    except Exception as ex:  # a crash of the verifier is not a verdict
        res["status"], res["note"] = "unsupported", "verifier error: %s: %s" % (type(ex).__name__, ex)
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    # counter-models -> replay inputs
    replays = []
    for o in obs:
        if o["status"] == "refuted" or "model" in o:
            m = small_model(e.prover, o)
            if m is not None:
                replays.append((o["check"], model_inputs(m, o["inputs"])))
    for o in obs:
        res["obligations"].append({k: o[k] for k in ("check", "status", "how", "time")})
    res["functions"] = dict(e.functions)
    res["lib"] = dict(e.used_lib)
    res["notes"] = nb.list(e.notes)
    res["paths"] = e.paths
    res["time"] = time.time() - t0
    res["stats"] = dict(zsolve.STATS)
    CUR[0] = None
    return res, replays


def contract_error(ex, tb):
    """the exception comes from the contract's own code or from calling one of its stand-ins differently: not a verdict"""
    last = tb[-1].filename
    if "/contracts/" in last or last.endswith("pyvc/contract.py") or not any("/nidn/" in x.filename for x in tb):
        return True
    return isinstance(ex, TypeError) and ("<locals>" in str(ex) or "<lambda>" in str(ex)) and "argument" in str(ex)


class TrialTimeout(Exception):
    pass


def _alarm(*a):
    raise TrialTimeout()


def run_trial(c, seed, given, tier, limit=60):
    """-> ('pass', used) | ('skip', why) | ('fail', name, detail, used) | ('missing', why) | ('timeout',)"""
    import torch, numpy
    CUR[0] = None
    rng = random.Random(seed)
    torch.manual_seed(0)
    torch.set_default_dtype(torch.float64)  # as nidn sets it at import
    cx = ct.ConC(rng, given, tier)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        c.fn(cx)
        return ("pass", cx.used, cx.nchecks)
    except ct.Skip as s:
        return ("skip", str(s))
    except ct.Missing as m:
        return ("missing", str(m))
    except ct.Failed as f:
        return ("fail", f.name, f.detail, cx.used)
    except TrialTimeout:
        return ("timeout",)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        loc = [x for x in tb if "/nidn/" in x.filename]
        where = "%s:%d" % (loc[-1].filename, loc[-1].lineno) if loc else "contract %s:%d" % (tb[-1].filename, tb[-1].lineno)
        if contract_error(ex, tb):
            return ("missing", "the contract does not fit this tree: %s: %s at %s" % (type(ex).__name__, ex, where))
        return ("fail", "no unexpected %s" % type(ex).__name__, "%s at %s" % (ex, where), cx.used)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, complex):
        return {"re": x.real, "im": x.imag}
    if isinstance(x, (nb.list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def run_concrete(c, tier, seed, replays, escalate, budget):
    out = {"evaluations": 0, "distinct": 0, "skipped": 0, "failures": [], "samples": [], "missing": None, "checks": 0, "timeouts": 0}
    seen = set()

    def one(s, given, origin):
        r = run_trial(c, s, given, tier)
        if r[0] == "skip":
            out["skipped"] += 1
        elif r[0] == "missing":
            out["missing"] = r[1]
        elif r[0] == "timeout":
            out["timeouts"] += 1
        else:
            out["evaluations"] += 1
            used = r[1] if r[0] == "pass" else r[3]
            h = hashlib.sha1(repr(sorted(jsonable(used).items(), key=str)).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                out["distinct"] += 1
            if r[0] == "pass":
                out["checks"] += r[2]
                if len(out["samples"]) < 2:
                    out["samples"].append(trim(jsonable(used)))
            else:
                out["failures"].append({"check": r[1], "detail": r[2], "inputs": jsonable(used), "origin": origin, "seed": s})
        return r[0]
    t0 = time.time()
    for name, given in replays[:6]:
        one("%s/%s/model" % (seed, c.name), given, "counter-model of obligation '%s'" % name)
        if out["failures"]:
            return out
    n = c.trials * (c.thorough if tier == "thorough" else 1) * (4 if escalate else 1)
    i = 0
    while out["evaluations"] < n and i < 20 * n and time.time() - t0 < budget:
        st = one("%s/%s/%d" % (seed, c.name, i), None, "seeded case %d" % i)
        i += 1
        if out["failures"] or out["missing"]:
            break
    return out


def trim(d, n=12):
    if isinstance(d, dict):
        return {k: trim(v) for k, v in nb.list(d.items())[:n]}
    return d


class Overrun(BaseException):
    pass


def _overrun(*a):
    raise Overrun()


def run_contract(c, tier, seed, concrete_only=False):
    sys.setrecursionlimit(12000)
    r = {"contract": c.name, "doc": c.doc, "mode": c.mode}
    replays = []
    if c.mode == "proof" and concrete_only:
        r["sym"] = {"obligations": [], "status": "unsupported", "note": "the verifier did not finish", "functions": {}, "lib": {}, "paths": 0, "notes": [], "time": 0.0, "stats": dict(zsolve.STATS)}
    elif c.mode == "proof":
        old = signal.signal(signal.SIGALRM, _overrun)
        signal.alarm(int(c.budget * (3 if tier == "thorough" else 1) * 1.3) + 30)
        try:
            r["sym"], replays = run_symbolic(c, tier)
        except Overrun:
            return run_contract(c, tier, seed, True)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    esc = c.mode == "proof" and (r["sym"]["status"] == "unsupported" or any(o["status"] != "proved" for o in r["sym"]["obligations"]))
    r["con"] = run_concrete(c, tier, seed, replays, esc, (240 if tier == "thorough" else 80) * (2 if esc else 1))
    return r
