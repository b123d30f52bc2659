"""Worker: run one harness symbolically, or replay models concretely on the JIT-compiled code.

usage: worker.py sym  PROP HARNESS OUT.json SECONDS SEED
       worker.py conc PROP HARNESS IN.json OUT.json
"""

import importlib
import json
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
warnings.filterwarnings("ignore")


def find(prop, name):
    from vsym import world

    importlib.import_module(f"props.{prop.lower()}")
    for h in world.HARNESSES[prop]:
        if h["name"] == name:
            return h
    raise SystemExit(f"no harness {name}")


def repo_frames(e, repo):
    tb = traceback.extract_tb(e.__traceback__)
    return [f for f in tb if f.filename.startswith(repo)]


def sym(prop, name, out, seconds, seed):
    t0 = time.time()
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    from vsym import engine as E, world

    holder = world.install_symbolic()
    h = find(prop, name)
    fns = {}
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "vsym")

    def on_start(code, _off):
        if code.co_filename.startswith(world.REPO + "/conmech"):
            rel = os.path.relpath(code.co_filename, world.REPO)
            fns[f"{rel}:{code.co_qualname}"] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)

    eng = E.Engine(seed=seed, deadline=t0 + seconds, max_paths=h["max_paths"])
    w = world.SymWorld(eng)
    holder["world"] = w
    res = {"harness": name, "status": "ok", "witness": None, "error": None}
    witnesses = []

    def run():
        w.start_path()
        with world.quiet():
            h["fn"](w)

    reached = {"n": 0}

    def end():
        reached["n"] += 1
        if len(witnesses) < 2:
            s = eng.path_model()
            if s is not None:
                notes = []
                for nm, val in eng.notes:
                    notes.append([nm, eval_note(E, eng, val, s)])
                witnesses.append({"model": eng.export(s), "notes": notes})

    def exc(e):
        fr = repo_frames(e, world.REPO)
        where = f"{os.path.relpath(fr[-1].filename, world.REPO)}:{fr[-1].name}" if fr else "harness"
        label = f"exception {type(e).__name__} in {where}: {str(e)[:160]}"
        if not fr:
            label += " :: " + "".join(traceback.format_exception(e))[-1500:]
        s = eng.path_model()
        if s is None:
            eng.unknown.append(label)
        else:
            eng.candidate(label, s, "".join(traceback.format_exception(e))[-3000:])

    try:
        eng.explore(run, end, exc)
    except E.Stop:
        pass
    except E.Unsupported as e:
        res["status"] = "unsupported"
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
    except E.Inconclusive as e:
        res["status"] = "inconclusive"
        res["error"] = str(e) + "\n" + "".join(traceback.format_exception(e))[-1500:]
    except (MemoryError, eng.z3.Z3Exception) as e:
        res["status"] = "inconclusive"
        res["error"] = repr(e)
    if eng.unknown and res["status"] == "ok":
        res["status"] = "unknown"
        res["error"] = "solver unknown: " + "; ".join(map(str, eng.unknown[:5]))
    if res["status"] == "ok" and not eng.candidates and reached["n"] == 0:
        res["status"] = "vacuous"
        res["error"] = "no feasible path reached the end of the harness"
    res.update(
        candidates=eng.candidates,
        witnesses=witnesses,
        stats=dict(
            paths=eng.paths,
            completed=reached["n"],
            infeasible=eng.aborted,
            decisions=eng.decisions,
            queries=eng.queries,
            identity_queries=eng.identity_queries,
            branch_queries=eng.branch_queries,
            cross_confirmed=eng.cross_confirmed,
            cross_unknown=eng.cross_unknown,
            solver_time_s=round(eng.solver_time, 3),
        ),
        functions=sorted(fns),
        wall_s=round(time.time() - t0, 2),
    )
    json.dump(res, open(out, "w"))


def eval_note(E, eng, val, s):
    import numpy as np
    from vsym import poly as P

    def one(x):
        x = E.lift(x)
        if x is None:
            return None
        n = float(P.evaluate(x.n, lambda v: float(s[v])))
        for i, e in x.d:
            n /= float(P.evaluate(eng.factors[i], lambda v: float(s[v]))) ** e
        return n

    a = np.asarray(val, dtype=object)
    return [one(x) for x in a.reshape(-1)]


def conc(prop, name, inp, out):
    t0 = time.time()
    import numpy as np
    from vsym import world

    holder = world.install_concrete()
    h = find(prop, name)
    data = json.load(open(inp))
    results = []
    for item in data:
        w = world.ConcreteWorld(item["model"])
        holder["world"] = w
        r = {"kind": item["kind"], "label": item.get("label"), "failed": None, "notes_ok": True}
        try:
            w.start_path()
            with world.quiet():
                h["fn"](w)
        except world.ReproStop:
            r["failed"] = w.failures[-1]
        except Exception as e:  # noqa
            fr = repo_frames(e, world.REPO)
            where = (
                f"{os.path.relpath(fr[-1].filename, world.REPO)}:{fr[-1].name}" if fr else None
            )
            lab = str(item.get("label"))
            if where is None and lab.startswith("exception ") and " in harness:" not in lab:
                where = "compiled code"  # frames of compiled code are not in the traceback
            if where is None:
                r["harness_error"] = "".join(traceback.format_exception(e))[-2500:]
            else:
                r["failed"] = f"exception {type(e).__name__} in {where}: {str(e)[:200]}"
                r["trace"] = "".join(traceback.format_exception(e))[-2500:]
        r["obligations"] = w.proved
        if item["kind"] == "witness" and r["failed"] is None:
            for (nm, val), (nm2, ref) in zip(w.notes, item.get("notes", [])):
                a = np.asarray(val, dtype=float).reshape(-1)
                b = np.array([np.nan if x is None else x for x in ref], dtype=float)
                sc = max([1.0] + [float(np.max(np.abs(z))) for z in (a, b) if z.size])
                if nm != nm2 or a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-6 * sc):
                    r["notes_ok"] = False
                    r["note"] = nm
        results.append(r)
    json.dump({"results": results, "wall_s": round(time.time() - t0, 2)}, open(out, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "sym":
        sym(sys.argv[2], sys.argv[3], sys.argv[4], float(sys.argv[5]), int(sys.argv[6]))
    else:
        conc(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5])
    sys.stdout.flush()
    os._exit(0)
