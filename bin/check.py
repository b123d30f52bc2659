"""check.py PROP [--tier quick|thorough] [--only HARNESS]

Decides one property: runs every harness of the property symbolically (one process each), then
replays witnesses and counterexamples on the real JIT-compiled code.
exit 0: held within the stated bounds; 1: VIOLATION (reproduced); 2: no answer.
"""

import argparse
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python"
WORKER = os.path.join(ROOT, "bin", "worker.py")


def env(jit):
    e = dict(os.environ)
    e.update(
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        NUMBA_DISABLE_CUDA="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        PYTHONHASHSEED="0",
    )
    e.pop("NUMBA_DISABLE_JIT", None)
    if not jit:
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def call(args, jit, timeout, cwd):
    p = subprocess.Popen([PY, WORKER] + args, env=env(jit), stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timeout"
    return p.returncode, (out.decode()[-1500:] + err.decode()[-3000:])


def run_harness(prop, h, tmp, seconds, seed):
    name = h["name"]
    out = os.path.join(tmp, f"{name}.sym.json")
    rc, log = call(["sym", prop, name, out, str(seconds), str(seed)], False, seconds + 60, tmp)
    if rc != 0 or not os.path.exists(out):
        res = {"harness": name, "status": "crashed", "error": log, "candidates": [],
               "witnesses": [], "stats": {}, "functions": [], "wall_s": 0}
    else:
        res = json.load(open(out))
    items = []
    if h["witness"]:
        for w in res["witnesses"]:
            items.append({"kind": "witness", "model": w["model"], "notes": w["notes"]})
        if not items and not res["candidates"]:
            items.append({"kind": "witness", "model": {}, "notes": []})
    for c in res["candidates"]:
        items.append({"kind": "ce", "model": c["model"], "label": c["label"]})
    res["replay"] = []
    if items:
        inp = os.path.join(tmp, f"{name}.in.json")
        out = os.path.join(tmp, f"{name}.conc.json")
        json.dump(items, open(inp, "w"))
        rc, log = call(["conc", prop, name, inp, out], True, 420, tmp)
        if rc != 0 or not os.path.exists(out):
            res["replay_error"] = log
        else:
            d = json.load(open(out))
            res["replay"] = d["results"]
            res["replay_wall_s"] = d["wall_s"]
    res["items"] = items
    return res


def load_known():
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from vsym import world

    importlib.import_module(f"props.{a.prop.lower()}")
    hs = [h for h in world.HARNESSES[a.prop] if tier == "thorough" or h["tier"] == "quick"]
    if a.only:
        hs = [h for h in world.HARNESSES[a.prop] if h["name"] == a.only]
    default = 240 if tier == "quick" else 1500
    tmp = tempfile.mkdtemp(prefix=f"vsym_{a.prop}_")
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(run_harness, a.prop, h, tmp, h["timeout"] or default, seed)
                    for h in hs]
            results = [f.result() for f in futs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in load_known() if k["property"] == a.prop]
    violations, errors, knowns = [], [], []
    validated = 0
    for h, r in zip(hs, results):
        hit = None
        for it, rep in zip(r["items"], r["replay"]):
            if rep.get("harness_error"):
                errors.append(f"{h['name']}: harness error in replay\n{rep['harness_error']}")
            elif rep["failed"] is not None:
                hit = hit or (it, rep)
            elif rep["kind"] == "ce":
                errors.append(
                    f"{h['name']}: counterexample not reproduced: {it['label']} {it['model']}")
            elif not rep["notes_ok"]:
                errors.append(
                    f"{h['name']}: encoding and compiled code disagree on {rep.get('note')}")
            else:
                validated += 1
        if "replay_error" in r:
            errors.append(f"{h['name']}: replay did not finish: {r['replay_error'][-800:]}")
        if hit is not None:
            it, rep = hit
            validated += 1
            k = [x for x in known if x["harness"] == h["name"]
                 and rep["failed"].startswith((x["label"], *x.get("also", ())))]
            if k:
                knowns.append((h, k[0], it, rep))
            else:
                violations.append((h, it, rep))
        elif r["status"] != "ok":
            errors.append(f"{h['name']}: {r['status']}: {r['error']}")
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    for h, k, it, rep in knowns:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for h, it, rep in violations:
        path = os.path.join(ROOT, "evidence", "replay", f"{a.prop}_{h['name']}.json")
        json.dump({"property": a.prop, "harness": h["name"], "label": it.get("label"),
                   "failed": rep["failed"], "model": it["model"], "trace": rep.get("trace"),
                   "how": f"{PY} {ROOT}/bin/replay.py {path}"}, open(path, "w"), indent=1)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  harness {h['name']}: {rep['failed']}")
    for e in errors:
        print("NO-ANSWER", e, file=sys.stderr)
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)  # noqa
    fns = sorted({f for r in results for f in r["functions"]})
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": max(1, S("paths")),
            "transitions": S("decisions") + S("branch_queries"),
            "traces_validated_against_impl": validated,
            "samples": [
                {
                    "harness": h["name"],
                    "what": h["doc"].split("\n")[0],
                    "bounds": h["bounds"],
                    "stubs": h["stubs"],
                    "status": r["status"],
                    "model_replayed": (r["items"][0]["model"] if r["items"] else None),
                    **r["stats"],
                }
                for h, r in zip(hs, results)
            ],
            "functions_encoded": fns,
            "paths_completed": S("completed"),
            "queries_discharged": S("queries"),
            "queries_closed_by_term_identity": S("identity_queries"),
            "identities_confirmed_by_solver_unexpanded": S("cross_confirmed"),
            "identities_solver_timeout_on_unexpanded_form": S("cross_unknown"),
            "branch_feasibility_queries": S("branch_queries"),
            "solver": "z3 " + "5.3.2 (QF_NRA), exact reals",
            "solver_time_s": round(S("solver_time_s"), 3),
            "bounds": {h["name"]: h["bounds"] for h in hs},
            "known_findings": [k["what"] for _, k, _, _ in knowns],
            "violations": [rep["failed"] for _, _, rep in violations],
            "no_answer": errors,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w"), indent=1)
    if a.v:
        for h, r in zip(hs, results):
            print(h["name"], r["status"], r["stats"], r["wall_s"], r.get("replay_wall_s"),
                  [(x["kind"], x["failed"]) for x in r["replay"]])
    if violations:
        return 1
    if errors:
        return 2
    print(f"OK property={a.prop} tier={tier} harnesses={len(hs)} paths={S('paths')} "
          f"queries={S('queries')} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
