"""Writes properties.jsonl and MANIFEST.json from meta/catalogue.py."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from meta.catalogue import NA, P  # noqa: E402

PYB = "/opt/venv/bin/python"
REPO = "/repo"
LEVEL = (
    "Bounded symbolic execution of the real Python source (numba JIT off, numpy replaced by an exact "
    "rational-function shim); every obligation is discharged by z3 (QF_NRA over exact reals) for all "
    "values of the symbolic inputs and all feasible paths within the bounds stated in the evidence. "
    "Counterexamples and witnesses are replayed on the compiled code. Trusted: the shim, z3, "
    "idealised real arithmetic (no rounding), meshes no larger than stated."
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid in sorted(P):
            p = P[pid]
            claimed = os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py"))
            if not claimed and pid not in NA:
                continue
            assert len(p["title"]) <= 80, (pid, len(p["title"]))
            for fn in p["files"]:
                assert os.path.exists(os.path.join(REPO, fn)), fn
            for m in p["mechanism"]:
                fn, _, sym = m["where"].partition(":")
                path = os.path.join(REPO, fn)
                assert os.path.exists(path), m
                if sym:
                    assert sym.split(".")[-1] in open(path).read(), m
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    for pid in sorted(P):
        if pid in NA or not os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"{PYB} bin/check.py {pid} --tier quick",
            "thorough_cmd": f"{PYB} bin/check.py {pid} --tier thorough",
            "technique": "symbolic execution of the real Python source + z3, replay on compiled code",
            "level": "model_checking",
            "level_note": (P[pid]["note"] + " " if P[pid]["note"] else "") + LEVEL,
        })
    json.dump({
        "version": 1,
        "setup_cmd": f"{PYB} bin/setup.py",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "No hooks: the checks load /repo's working tree as it is. See DESIGN.md.",
    }, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    listing()
    print(len(checks), "checks")


def listing():
    """HARNESSES.md: every harness with its bounds and stubs."""
    import importlib

    from vsym import world

    out = ["# Harnesses", "", "Written by bin/genmeta.py from props/*.py; do not edit.", ""]
    for pid in sorted(P):
        if not os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
            continue
        importlib.import_module(f"props.{pid.lower()}")
        out += [f"## {pid} {P[pid]['title']}", "",
                "| harness | decides | bounds | stubs | tier |", "|---|---|---|---|---|"]
        for h in world.HARNESSES[pid]:
            cells = [h["name"], h["doc"].split("\n")[0], h["bounds"], h["stubs"] or "none", h["tier"]]
            out.append("| " + " | ".join(c.replace("|", "/") for c in cells) + " |")
        out.append("")
    with open(os.path.join(ROOT, "HARNESSES.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
