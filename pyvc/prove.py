"""Prover process: discharge the obligations of one property against /repo's current source.

usage: python -m pyvc.prove <ID> <tier> <out.json> [harness-substring]
"""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback


def contract_job(a):
    i, tmo = a
    ct = CONTRACTS[i]
    t = time.time()
    try:
        ok = ct.check(timeout_ms=tmo)
        note = ""
    except BaseException as e:  # noqa
        ok, note = False, "".join(traceback.format_exception_only(type(e), e))
    obs = [o.as_dict() for ex in getattr(ct, "results", []) for o in ex.obligations]
    return {"target": ct.target, "ok": ok, "note": note, "wall": time.time() - t, "doc": ct.doc,
            "undecided": [u for ex in getattr(ct, "results", []) for u in ex.undecided][:5],
            "solver_time": sum(ex.solver_time for ex in getattr(ct, "results", [])),
            "trusted": sorted(set(x for ex in getattr(ct, "results", []) for x in ex.trusted)),
            "obligations": obs}


def harness_job(a):
    i, tier = a
    from . import core, dual
    h = HARNESSES[i]
    t = time.time()
    k = 1 if tier == "quick" else 4
    ex = core.Explorer(h.name, functions=h.functions, timeout_ms=h.timeout_ms * k, max_paths=h.max_paths * k,
                       max_time=h.max_time * k, second_backend=(tier == "thorough"))
    ex.small_model = dual.small_models
    note = ""
    try:
        if h.setup:
            h.setup(ex)
        ex.run(lambda: h.fn(dual.Sym(ex)), dual.concretize)
    except BaseException as e:  # noqa
        note = "engine: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
        ex.undecided.append(note)
    return {"harness": h.name, "functions": list(h.functions), "obligations": [o.as_dict() for o in ex.obligations],
            "undecided": ex.undecided[:20], "n_undecided": len(ex.undecided), "paths": ex.paths,
            "completed": ex.completed, "covers": ex.covers, "wanted_covers": list(h.covers),
            "solver_time": ex.solver_time, "solver_calls": ex.solver_calls, "cvc5": ex.cvc5_used,
            "trusted": sorted(ex.trusted), "contracts_used": sorted(ex.contracts_used), "wall": time.time() - t,
            "note": note}


def worker(job, q, arg):
    try:
        q.send(job(arg))
    except BaseException as e:  # noqa
        q.send({"crash": repr(e)})
    q.close()
    os._exit(0)


def pool(job, args, nproc, limit, crash):
    """Run jobs in forked processes; a job that dies or exceeds the limit is reported by crash(arg, why)."""
    todo, running, out = list(args), [], {}
    ctx = multiprocessing.get_context("fork")
    while todo or running:
        while todo and len(running) < nproc:
            a = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(job, w, a))
            p.start()
            w.close()
            running.append((a, p, r, time.time()))
        for x in list(running):
            a, p, r, t0 = x
            if r.poll(0.02):
                try:
                    v = r.recv()
                except EOFError:
                    v = {"crash": "prover process died"}
                out[a] = v if "crash" not in v else crash(a, v["crash"])
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(x)
            elif not p.is_alive():
                out[a] = crash(a, "prover process died with code %s" % p.exitcode)
                running.remove(x)
            elif time.time() - t0 > limit:
                p.kill()
                out[a] = crash(a, "time limit")
                running.remove(x)
    return [out[a] for a in args]


def main():
    global CONTRACTS, HARNESSES
    pid, tier, outp = sys.argv[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    t0 = time.time()
    from . import env, core
    env.load()
    mod = importlib.import_module("props." + pid.lower())
    CONTRACTS = getattr(mod, "CONTRACTS", [])
    HARNESSES = [h for h in mod.HARNESSES if h.mode == "proof" and (only is None or only in h.name)]
    nproc = int(os.environ.get("VERIF_JOBS", "7"))
    if hasattr(mod, "prepare"):
        mod.prepare()
    results = {"property": pid, "contracts": [], "harnesses": []}
    done = set()
    if CONTRACTS:
        # contracts in layers: a layer may use the contracts of the earlier layers
        for layer in sorted(set(getattr(c, "layer", 0) for c in CONTRACTS)):
            idx = [i for i, c in enumerate(CONTRACTS) if getattr(c, "layer", 0) == layer]
            rs = pool(contract_job, [(i, 10000) for i in idx], nproc, 200,
                      lambda a, why: {"target": CONTRACTS[a[0]].target, "ok": False, "note": why, "wall": 0,
                                      "undecided": [why], "solver_time": 0, "trusted": [], "obligations": [],
                                      "doc": ""})
            for i, r in zip(idx, rs):
                results["contracts"].append(r)
                if r["ok"]:
                    CONTRACTS[i].install()
    limit = 400 if tier == "quick" else 3000
    results["harnesses"] = pool(
        harness_job, [(i, tier) for i in range(len(HARNESSES))], nproc, limit,
        lambda a, why: {"harness": HARNESSES[a[0]].name, "functions": list(HARNESSES[a[0]].functions),
                        "obligations": [], "undecided": [why], "n_undecided": 1, "paths": 0, "completed": 0,
                        "covers": {}, "wanted_covers": [], "solver_time": 0, "solver_calls": 0, "cvc5": 0,
                        "trusted": [], "contracts_used": [], "wall": 0, "note": why})
    results["wall"] = time.time() - t0
    with open(outp, "w") as f:
        json.dump(results, f, default=repr)


if __name__ == "__main__":
    main()
