#!/opt/venv/bin/python
"""Decide one property against /repo's current working tree.

usage: run_check.py <ID> [--replay FILE]

1. the prover process transforms the current source of mediagrains and discharges every
   obligation of the property's contracts (z3, falling back to cvc5);
2. at the same time the same contracts are evaluated on the real, unmodified modules with
   generated inputs (this is the whole of the check for the functions labelled bounded);
3. a failed obligation is replayed on the real modules with the solver's counterexample.
"""
import importlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = HERE + ":" + os.environ.get("VERIF_REPO", "/repo")
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def start(args, log):
    return subprocess.Popen([PY, "-m"] + args, cwd=HERE, env=env(), stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def finish(p, limit):
    try:
        p.wait(limit)
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return False


def load(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return default


def clean(name):
    return "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in name)[:80]


def main():
    pid = sys.argv[1].upper()
    t0 = time.time()
    work = os.path.join(HERE, "work", pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    if "--replay" in sys.argv:
        return do_replay(pid, sys.argv[sys.argv.index("--replay") + 1], work)
    meta = load(os.path.join(HERE, "props", "checks.json"), {}).get(pid, {})
    prove_out, conc_out = os.path.join(work, "prove.json"), os.path.join(work, "bounded.json")
    for f in (prove_out, conc_out):
        if os.path.exists(f):
            os.unlink(f)
    thorough = TIER == "thorough"
    seconds = float(meta.get("bounded_s", 30)) * (10 if thorough else 1)
    with open(os.path.join(work, "prove.log"), "w") as pl, open(os.path.join(work, "bounded.log"), "w") as bl:
        procs = []
        pp = start(["pyvc.prove", pid, TIER, prove_out], pl) if meta.get("prove", True) else None
        bp = start(["pyvc.bounded", "run", pid, str(seconds), str(SEED), conc_out], bl)
        limit = 600 if not thorough else 7200
        if pp:
            finish(pp, limit)
        finish(bp, max(5, limit + 60 - (time.time() - t0)))
    proof = load(prove_out, {"contracts": [], "harnesses": [], "error": tail(os.path.join(work, "prove.log"))}
                 if meta.get("prove", True) else {"contracts": [], "harnesses": []})
    conc = load(conc_out, {"harnesses": [], "error": tail(os.path.join(work, "bounded.log"))})
    violations, undecided, notes = [], [], []
    if proof.get("error"):
        undecided.append({"harness": "prover", "why": proof["error"][-1500:]})
    if conc.get("error"):
        undecided.append({"harness": "concrete evaluation", "why": conc["error"][-1500:]})

    # --- concrete violations
    for h in conc["harnesses"]:
        seen = set()
        for v in h["violations"]:
            if v["obligation"] in seen:
                continue
            seen.add(v["obligation"])
            violations.append({"harness": h["harness"], "obligation": v["obligation"], "detail": v["detail"],
                               "inputs": v["inputs"], "replayed": True, "by": "run-time contract evaluation"})
        for u in h["undecided"][:1]:
            undecided.append({"harness": h["harness"], "why": "concrete: " + str(u)})

    # --- proof results
    obs, dis = 0, 0
    per_backend, by_fn, requests = {}, {}, []
    solver_time = 0.0
    trusted, contracts_used, functions = set(), set(), set()
    for cr in proof["contracts"]:
        solver_time += cr["solver_time"]
        if not cr["ok"]:
            notes.append("contract of %s not verified (%s): callers are verified against its body" % (
                cr["target"], (cr["undecided"] or [cr["note"]] or [""])[0]))
            continue
        functions.add(cr["target"])
        for o in cr["obligations"]:
            obs += 1
            dis += o["status"] == "discharged"
            per_backend[o["backend"]] = per_backend.get(o["backend"], 0) + 1
        trusted |= set(cr["trusted"])
    failed_harnesses = {}
    for h in proof["harnesses"]:
        solver_time += h["solver_time"]
        functions |= set(h["functions"])
        trusted |= set(h["trusted"])
        contracts_used |= set(h["contracts_used"])
        n = len(h["obligations"])
        if not n and not h["n_undecided"]:
            undecided.append({"harness": h["harness"], "why": "no obligation was generated"})
        obs += n
        for c in h["wanted_covers"]:
            if not h["covers"].get(c) and not h["n_undecided"]:
                undecided.append({"harness": h["harness"], "why": "vacuous: %r is unreachable" % c})
                obs += 1
        if h["n_undecided"]:
            obs += h["n_undecided"]
            undecided.append({"harness": h["harness"], "why": "; ".join(str(u)[:300] for u in h["undecided"][:3])})
        seen = {}
        for o in h["obligations"]:
            if o["status"] == "discharged":
                dis += 1
                per_backend[o["backend"]] = per_backend.get(o["backend"], 0) + 1
                continue
            if o["status"] == "unknown":
                undecided.append({"harness": h["harness"], "why": "obligation %s: %s" % (o["name"], o["detail"][:300])})
            else:
                seen.setdefault(o["name"], []).append(o)
        for name, os_ in seen.items():
            failed_harnesses.setdefault(h["harness"], []).append((name, os_, h))
            for o in os_[:3]:
                requests.append({"harness": h["harness"], "inputs": o["inputs"], "tries": 400, "seconds": 8,
                                 "obligation": name})
        if h["n_undecided"] or any(o["status"] == "unknown" for o in h["obligations"]):
            requests.append({"harness": h["harness"], "inputs": {}, "tries": 2000, "seconds": 10, "obligation": None})
    replays = []
    if requests:
        requests = requests[:40]
        reqp, outp = os.path.join(work, "replay_req.json"), os.path.join(work, "replay_out.json")
        if os.path.exists(outp):
            os.unlink(outp)
        with open(reqp, "w") as f:
            json.dump({"property": pid, "seed": SEED, "items": requests}, f)
        with open(os.path.join(work, "replay.log"), "w") as rl:
            finish(start(["pyvc.bounded", "replay", reqp, outp], rl), 150)
        replays = load(outp, [])
    confirmed = set()
    for q, r in zip(requests, replays):
        if r["result"]:
            confirmed.add((q["harness"], q["obligation"]))
            violations.append({"harness": q["harness"], "obligation": r["result"]["obligation"],
                               "failed_obligation": q["obligation"], "detail": r["result"]["detail"],
                               "inputs": r["result"]["inputs"], "replayed": True,
                               "by": "proof obligation failed; counterexample replayed on the real code"})
    bad_concrete = set(v["harness"] for v in violations)
    for hn, items in failed_harnesses.items():
        for name, os_, h in items:
            o = os_[0]
            if (hn, name) in confirmed or hn in bad_concrete:
                continue
            if h["n_undecided"] or o["kind"] == "exception":
                # the engine left the function's behaviour undetermined: the refutation may be its own
                undecided.append({"harness": hn, "why": "obligation %s failed without a failing input while the "
                                  "verifier could not follow the code completely: %s" % (name, o["detail"][:300])})
                continue
            violations.append({"harness": hn, "obligation": name, "detail": o["detail"], "inputs": o["inputs"],
                               "replayed": False, "by": "proof obligation refuted by " + o["backend"],
                               "verifier_output": [x for x in os_[:5]]})

    # --- known findings
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            known.append({"id": m.group(2), "what": m.group(3).strip()})
    shown = []
    if known:
        outp = os.path.join(work, "findings.json")
        if os.path.exists(outp):
            os.unlink(outp)
        with open(os.path.join(work, "findings.log"), "w") as fl:
            finish(start(["pyvc.findings", pid, outp], fl), 60)
        still = load(outp, {})
        for k in known:
            if still.get(k["id"], True):
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                shown.append(k["id"])

    # --- evidence
    bounded = [h for h in conc["harnesses"] if h["mode"] == "bounded"]
    evals = sum(h["evaluations"] for h in conc["harnesses"])
    cov = {
        "obligations": obs, "discharged": dis,
        "checker_cmd": "run_check.py %s  (pyvc deductive verifier over /repo source; z3 %s, cvc5 fallback)" % (pid, z3v()),
        "trusted_base": sorted(trusted) + ["pyvc: source transformation and symbolic semantics of the Python "
                                           "constructs used by the functions under contract (/verif/pyvc)",
                                           "z3 / cvc5"],
        "functions_under_contract": sorted(functions),
        "contracts_used_for_callees": sorted(contracts_used),
        "backends": per_backend, "solver_time_s": round(solver_time, 2),
        "proof_harnesses": [{"harness": h["harness"], "obligations": len(h["obligations"]),
                             "discharged": sum(o["status"] == "discharged" for o in h["obligations"]),
                             "names": sorted(set(o["name"] for o in h["obligations"]))[:80],
                             "paths": h["paths"], "undecided": h["n_undecided"], "covers": h["covers"],
                             "solver_time_s": round(h["solver_time"], 2), "wall_s": round(h["wall"], 2)}
                            for h in proof["harnesses"]],
        "evaluations": evals,
        "distinct_nontrivial": sum(h["distinct"] for h in conc["harnesses"]),
        "rule": "every input of a harness drawn at random (boundary values, constants of the current source +-1, "
                "small and full ranges); non-trivial: the precondition held and at least one obligation was evaluated; "
                "distinct by the drawn values",
        "samples": [{"harness": h["harness"], "inputs": s} for h in conc["harnesses"] for s in h["samples"][:1]][:12],
        "bounded_only": [{"harness": h["harness"], "functions": h["functions"], "evaluations": h["evaluations"],
                          "distinct": h["distinct"]} for h in bounded],
        "runtime_contract_evaluation": [{"harness": h["harness"], "mode": h["mode"], "evaluations": h["evaluations"],
                                         "skipped": h["skipped"], "obligations_evaluated": h["proved"]}
                                        for h in conc["harnesses"]],
        "undecided": undecided[:30], "notes": notes, "known_findings": shown,
        "explanation": meta.get("explanation", ""),
    }
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": meta.get("level", "proof"), "coverage": cov,
          "assumptions": sorted(trusted) + list(meta.get("assumptions", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    # --- verdict
    print("property %s: %d/%d obligations discharged, %d functions under contract, %d concrete evaluations, %.1f s" % (
        pid, dis, obs, len(functions), evals, time.time() - t0))
    for n in notes:
        print("NOTE " + n)
    for u in undecided[:12]:
        print("UNDECIDED %s: %s" % (u["harness"], str(u["why"])[:400]))
    done = set()
    for i, v in enumerate(sorted(violations, key=lambda v: not v["replayed"])):
        key = (v["harness"], v["obligation"])
        if key in done:
            continue
        done.add(key)
        path = os.path.join(HERE, "replays", "%s-%d-%s.json" % (pid, i, clean(v["harness"])))
        with open(path, "w") as f:
            json.dump(dict(v, property=pid), f, indent=1, default=repr)
        print("  %s / %s: %s" % (v["harness"], v["obligation"], str(v["detail"])[:500].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v["replayed"] else " no-failing-input-found"))
        if len(done) >= 5:
            break
    return 1 if violations else 0


def z3v():
    try:
        return [p.split("-")[1] for p in os.listdir("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
                if p.startswith("z3_solver-")][0]
    except Exception:
        return "?"


def tail(p):
    try:
        return open(p).read()[-3000:] or "no output"
    except OSError:
        return "no output"


def do_replay(pid, path, work):
    v = load(path, None)
    reqp, outp = os.path.join(work, "r_req.json"), os.path.join(work, "r_out.json")
    with open(reqp, "w") as f:
        json.dump({"property": pid, "seed": SEED, "items": [{"harness": v["harness"], "inputs": v["inputs"]}]}, f)
    with open(os.path.join(work, "r.log"), "w") as rl:
        finish(start(["pyvc.bounded", "replay", reqp, outp], rl), 120)
    print(json.dumps(load(outp, []), indent=1))
    return 0


if __name__ == "__main__":
    sys.exit(main())
