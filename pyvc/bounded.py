"""Concrete process: evaluate the contracts of one property on the real, unmodified modules.

usage: python -m pyvc.bounded run <ID> <seconds> <seed> <out.json>
       python -m pyvc.bounded replay <request.json> <out.json>
"""
import ast
import glob
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import types
import warnings

from . import dual
from .prop import Undecided

REPO = os.environ.get("VERIF_REPO", "/repo")


def mine():
    """Integer constants of the current source (boundary values)."""
    out = set()
    for p in glob.glob(REPO + "/mediagrains/**/*.py", recursive=True):
        try:
            tree = ast.parse(open(p).read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int:
                out.add(n.value)
    return sorted(out)


class TimedOut(BaseException):
    pass


CPU_LIMIT = 30


def _alarm(*a):
    raise TimedOut()


def limits():
    import resource
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def attempt(h, c):
    """None, or (name, detail) of the broken obligation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
            try:
                h.fn(c)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except TimedOut:
        return "bad", ("terminates", "no result after %d s of CPU time" % CPU_LIMIT)
    except dual.Skip:
        return "skip", None
    except Undecided as e:
        return "undecided", str(e)
    except dual.Violation as e:
        return "bad", (e.name, e.detail)
    except (MemoryError, RecursionError):
        return "skip", None
    except Exception as e:
        if isinstance(e, AttributeError) and isinstance(getattr(e, "obj", None), (types.ModuleType, type)):
            return "undecided", "%s" % (e,)
        if isinstance(e, ImportError):
            return "undecided", "%s" % (e,)
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (f.filename.replace(REPO + "/", ""), f.lineno) for f in tb][-4:]
        return "bad", ("no-unexpected-exception", "%s: %s at %s" % (type(e).__name__, e, " < ".join(reversed(where))))
    return "ok", None


class _NoContracts(types.ModuleType):
    """Stand-in for the modules that hold the prover's callee contracts (they need z3)."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return []


def load(pid):
    import logging
    for p in glob.glob(os.path.join(os.path.dirname(__file__), "..", "spec", "*_contracts.py")):
        n = "spec." + os.path.basename(p)[:-3]
        sys.modules.setdefault(n, _NoContracts(n))
    logging.disable(logging.CRITICAL)
    m = importlib.import_module("props." + pid.lower())
    if hasattr(m, "prepare_concrete"):
        m.prepare_concrete()
    return m


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)


def run(pid, seconds, seed, outp):
    t0 = time.time()
    m = load(pid)
    mined = mine()
    res = []
    hs = m.HARNESSES
    total = sum(h.weight for h in hs) or 1.0
    cur = [None, None]

    def flush():
        with open(outp, "w") as f:
            json.dump({"harnesses": res, "current": cur, "wall": time.time() - t0}, f)
    for h in hs:
        budget = seconds * h.weight / total
        t = time.time()
        rec = {"harness": h.name, "mode": h.mode, "evaluations": 0, "skipped": 0, "distinct": 0, "proved": 0,
               "violations": [], "undecided": [], "samples": [], "covers": {}, "functions": list(h.functions)}
        seen = set()
        i = 0
        while True:
            rng = random.Random("%s/%s/%s" % (seed, h.name, i))
            c = dual.Conc(rng=rng, mined=mined, maxlen=rng.choice((2, 6, h.maxlen)))
            r, d = attempt(h, c)
            i += 1
            if r == "skip":
                rec["skipped"] += 1
            elif r == "undecided":
                rec["undecided"].append(d)
                if len(rec["undecided"]) > 3:
                    break
            else:
                rec["evaluations"] += 1
                rec["proved"] += c.proved
                key = repr(sorted((k, str(v)) for k, v in c.used.items()))
                if key not in seen:
                    seen.add(key)
                    rec["distinct"] += 1
                    if len(rec["samples"]) < 2 and len(key) < 6000:
                        rec["samples"].append(jsonable(c.used))
                for k in c.covered:
                    rec["covers"][k] = rec["covers"].get(k, 0) + 1
                if r == "bad":
                    rec["violations"].append({"obligation": d[0], "detail": d[1][:2000], "inputs": jsonable(c.used)})
                    if len(rec["violations"]) >= 3:
                        break
            if h.exhaustive and i >= h.exhaustive:
                break
            if not h.exhaustive and time.time() - t > budget and i >= 3:
                break
            if not h.exhaustive and not c.used and i >= 2:
                break       # the harness has no inputs
        rec["wall"] = time.time() - t
        res.append(rec)
        flush()
    flush()


def replay(reqp, outp):
    req = json.load(open(reqp))
    m = load(req["property"])
    by = {h.name: h for h in m.HARNESSES}
    mined = mine()
    out = []
    for i, r in enumerate(req["items"]):
        h = by.get(r["harness"])
        got = None
        t = time.time()
        if h is not None:
            for k in range(r.get("tries", 1)):
                vals = dict(r["inputs"] or {})
                rng = random.Random("%s/%s/%d" % (req.get("seed", 1), h.name, k))
                if k and vals:      # stay near the solver's model
                    for n in list(vals):
                        if rng.random() < 0.4:
                            del vals[n]
                c = dual.Conc(vals, rng=rng, mined=mined, maxlen=h.maxlen)
                s, d = attempt(h, c)
                if s == "bad":
                    got = {"obligation": d[0], "detail": d[1][:3000], "inputs": jsonable(c.used), "tries": k + 1}
                    break
                if time.time() - t > r.get("seconds", 8):
                    break
        out.append({"harness": r["harness"], "result": got})
        with open(outp, "w") as f:
            json.dump(out, f)
    with open(outp, "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    sys.path.insert(0, REPO)
    limits()
    if sys.argv[1] == "run":
        run(sys.argv[2], float(sys.argv[3]), sys.argv[4], sys.argv[5])
    else:
        replay(sys.argv[2], sys.argv[3])
