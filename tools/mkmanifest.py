#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses' @job lines."""
import glob, json, re, sys
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
jobs, bounds = {}, {}
for f in sorted(glob.glob(V + "/harness/*.cpp")):
    fb, fp = [], set()
    for l in open(f):
        m = re.match(r"// @job (\S+) ", l)
        if m: fp.add(m[1])
        m = re.match(r"// @bound (.*)", l)
        if m: fb.append(m[1].strip())
    for p in fp:
        jobs.setdefault(p, []).append(f)
        # bounds naming properties apply to those only
        for b in fb:
            m = re.match(r"((?:C\d\d(?:-C\d\d)?[/, ]*)+):", b)
            ok = True
            if m:
                ids = set()
                for x in re.findall(r"C(\d\d)(?:-C(\d\d))?", m[1]):
                    ids |= set(range(int(x[0]), int(x[1] or x[0]) + 1))
                ok = int(p[1:]) in ids or any(re.search(rf"[;.] {p}\b", b) for _ in [0])
            if ok: bounds.setdefault(p, []).append(b)
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if i not in jobs: na.append({"property": i, "reason": "no check built yet"}); continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "technique": "bounded symbolic execution of the compiled LLVM IR, every branch/memory access/assertion decided by Z3; counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": "Exhaustive within the bounds, says nothing beyond them. Bounds: " + " | ".join(bounds.get(i, [])) + ". Trusts: clang's IR, the executor in /verif/engine (witness paths are replayed natively on every run), Z3, the CRAFT++ stand-in headers in /verif/shim and the library models in harness/runtime.cpp."})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Each check rebuilds the executor if needed and compiles /repo's current sources to LLVM IR; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
