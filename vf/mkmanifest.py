"""regenerates MANIFEST.json from the check modules"""
import json, os, re, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C23": "A wall-clock/termination bound over all integrands: the search's running time is not a function a path-wise symbolic execution can bound (unbounded search, time.time), so no solver query states it.",
 "C24": "Rounding error of libm calls (math.sin, math.log, float pow) has no SMT theory here; floating point is abstracted to real arithmetic in C20 and the ulp claim is out of reach.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    f = os.path.join(V, "vf", "checks", p.lower() + ".py")
    if p in NA or not os.path.exists(f):
        continue
    src = open(f).read()
    note = re.search(r'^NOTE = \(?(.*?)\)?$\n\n', src, re.S | re.M)
    note = eval("(" + note.group(1) + ")") if note else ""
    b = re.search(r'^BOUNDS = (\(.*?\))$\n', src, re.S | re.M)
    b = eval(b.group(1)) if b else ""
    cmd = "PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vf.run %s --tier %s"
    checks.append(dict(property=p, quick_cmd=cmd % (p, "quick"), thorough_cmd=cmd % (p, "thorough"), evidence_file="evidence/%s.json" % p,
        technique="path-wise symbolic execution of the real Python code (symbolic numbers), z3 decides branches and value equalities, counterexamples replayed",
        level="model_checking", level_note=("Bounded: holds for all numeric values on every explored path of the listed expression shapes. " + note + " Bounds: " + b + ". Floating point is read as real arithmetic; z3 and the exact-algebra oracle (vf/den.py, self-tested against a numeric evaluator) are trusted for 'holds', violations are replayed on the unmodified code.").replace("  ", " ")))
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in [c["property"] for c in checks]]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m vf.selftest 150", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
