"""replay.py FILE: re-run a recorded counterexample on the real JIT-compiled code."""

import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory() as t:
    i, o = os.path.join(t, "i.json"), os.path.join(t, "o.json")
    json.dump([{"kind": "ce", "model": d["model"], "label": d["label"]}], open(i, "w"))
    sys.path.insert(0, os.path.join(ROOT, "bin"))
    import check

    subprocess.run([check.PY, check.WORKER, "conc", d["property"], d["harness"], i, o],
                   env=check.env(True), check=True, cwd=t)
    r = json.load(open(o))["results"][0]
print(json.dumps(r, indent=1))
sys.exit(1 if r["failed"] else 0)
