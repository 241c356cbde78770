"""Write MANIFEST.json from the check modules (run from /verif)."""
import ast, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
PY = "/opt/venv/bin/python -B run.py"
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(here, "mc", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    vals = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    note = vals.get("RULE", "")
    ass = vals.get("ASSUMPTIONS") or []
    note = "Exhaustive within the stated bounds, on the real code. " + note + (
        ". Assumes: " + "; ".join(ass) if ass else ""
    )
    checks.append({
        "property": pid,
        "quick_cmd": f"{PY} {pid} --tier quick",
        "thorough_cmd": f"{PY} {pid} --tier thorough",
        "technique": vals["TECHNIQUE"],
        "level": vals["LEVEL"],
        "level_note": note,
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo/src'); import numpy, xarray, dask; from mc import engine; engine.quiet_pymech()\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks run the working tree of /repo/src in place; nothing is built or cached. VERIF_JOBS limits the number of worker processes.",
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
