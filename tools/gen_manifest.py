#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import units
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "tools/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. Every check compiles the current tree of /repo, encodes the resulting LLVM IR with symex/ (symbolic execution, Z3) and replays counterexamples on native code before reporting them."}
for p in props:
    i = p["id"]
    if i in units.PROPS:
        P = units.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "tools/check.sh %s quick" % i, "thorough_cmd": "tools/check.sh %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": P.get("technique", "symbolic execution of the generated LLVM IR against a reference (Z3)" if P["level"] == "translation_validation" else "symbolic execution of the real code's LLVM IR (Z3)"), "level": P["level"],
            "level_note": "Holds for every value within the bounds: %s Outside: anything beyond those bounds. Trusted: the executor's IR semantics (cross-checked natively on every run), clang/gcc, Z3." % P["bounds"]})
    else: m["not_applicable"].append({"property": i, "reason": units.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
