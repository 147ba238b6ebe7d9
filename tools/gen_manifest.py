"""Writes MANIFEST.json from lib/props.py; properties without a check are listed as not applicable with the reason below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "lib"))
import props, registry
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "symbolic execution of the library's LLVM bitcode (compiled from /repo on every run) with z3 deciding every branch, assertion and memory access; counterexamples replayed on an ASan/UBSan build"
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [], "notes": "See DESIGN.md. known_findings.json lists repaired defects (status fixed) and unrepaired findings."}
for i in ids:
    if i in registry.PROPS:
        p = registry.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": p.level, "level_note": "Bounded: " + p.bounds})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: harness not written")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n"); print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
