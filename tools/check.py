#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property against the current tree of /repo."""
import os, sys, json, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
from vx import VERIF, BUILD, Broken, Rejected

def prepare(u, tier, wd):
    # a rejection counts only if it happens again
    try: u.prepare(tier, wd)
    except Rejected: u.prepare(tier, wd)

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); only = set(sys.argv[3:])
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    import units
    P = units.PROPS[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": {}, "assumptions": P["assumptions"] + units.COMMON_ASSUMPTIONS, "wall_s": 0, "violations": 0}
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k["property"] == prop and k.get("status") == "known"]
    tot = dict(paths=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, asserts_by_solver=0, forks=0)
    rows, funcs, samples, viols, knownhit, problems, undecided, validated, entries_n = [], set(), [], [], [], [], [], 0, 0
    try:
        vx.build_symex()
        us = [u for u in P["units"] if (tier == "thorough" or not u.only_thorough) and (not only or u.name in only)]
        if any(u.kind == "alusus" for u in us): vx.build_native()
        if not us: raise Broken("no units")
        for u in us:
            wd = "%s/run/%s/%s" % (BUILD, prop, u.name)
            prepare(u, tier, wd); res = u.execute()
            covers = set(); urow = []
            for e in res["entries"]:
                entries_n += 1
                for k in tot: tot[k] += e[k]
                covers |= set(e["covers"])
                if e["engine_errors"]: problems.append("%s/%s: engine error %s" % (u.name, e["entry"], e["incomplete_msgs"]))
                elif e["incomplete"]:
                    # what was explored held; what was not decided is reported and left out of the claim, unless it is much of the entry
                    m = "%s/%s: inconclusive: %s" % (u.name, e["entry"], "; ".join(e["incomplete_msgs"]))
                    (problems if e["incomplete"] > 2 + e["paths"] // 10 else undecided).append(m)
                if e["paths"] == 0 or (e["asserts"] == 0 and e["entry"] not in u.noassert and not any(v["entry"] == e["entry"] for v in u.viols)): problems.append("%s/%s: vacuous (paths %d, asserts %d)" % (u.name, e["entry"], e["paths"], e["asserts"]))
                urow.append([e["entry"], e["paths"], e["asserts"], e["queries"], round(e["wall_s"], 2)])
            want = set(re.findall(r'\b(?:cover|vx_cover)\("([^"]*)"\)', u.text)) if u.covers else set()
            if want - covers and not u.viols: problems.append("%s: witnesses never reached: %s" % (u.name, sorted(want - covers)))
            rows.append({"unit": u.name, "entries": len(res["entries"]), "paths": sum(e["paths"] for e in res["entries"]), "asserts": sum(e["asserts"] for e in res["entries"]), "queries": sum(e["queries"] for e in res["entries"]), "solver_s": round(sum(e["solver_s"] for e in res["entries"]), 2), "wall_s": round(max(e["wall_s"] for e in res["entries"]), 2), "witnesses": len(covers)})
            funcs |= set(res["functions"])
            for k, v in enumerate(u.viols):
                kf = [x for x in known if x["entry"] == v["entry"] and x["kind"] == v["kind"] and x["message"] == v["message"]]
                if kf: knownhit.append((kf[0], v)); continue
                ok, desc, cmd = u.confirm(v, k)
                d = "%s/replay/%s" % (BUILD, prop); os.makedirs(d, exist_ok=True)
                rp = "%s/%s.%d.json" % (d, u.name, k); v2 = dict(v); v2.update(replay=desc, command=cmd, reproduced=ok); json.dump(v2, open(rp, "w"), indent=1)
                if ok: viols.append((v, desc, rp))
                else: problems.append("%s/%s: counterexample did not reproduce natively: %s %s %s" % (u.name, v["entry"], v["kind"], v["message"], rp))
                if len(viols) >= 6: break
            # validate the encoding: replay one explored path per entry on native code
            if not u.viols:
                ents, ins = [], []
                for e in res["entries"]:
                    for s in e["samples"][::-1]:
                        try: i = json.loads(s)
                        except Exception: continue
                        ents.append(e["entry"]); ins += i
                        if len(samples) < 12: samples.append({"unit": u.name, "entry": e["entry"], "inputs": [list(x) for x in i][:12]})
                        break
                if ents:
                    rc, out, cmd = u.run_native(ents, ins, "validate", 120)
                    if rc != 0: problems.append("%s: native replay of explored paths disagrees with the symbolic run: %s" % (u.name, out[-300:]))
                    else: validated += len(ents)
            if viols: break
    except Rejected as r:
        d = "%s/replay/%s" % (BUILD, prop); os.makedirs(d, exist_ok=True); rp = "%s/%s.rejected.json" % (d, r.name)
        v = dict(entry=r.name, kind="rejected", message="the compiler rejects or fails on a valid program (status %s)" % r.rc, trace=r.path, inputs=[], output=r.out, command="alusus " + r.path)
        json.dump(v, open(rp, "w"), indent=1); viols.append((v, r.out[:600], rp))
    except Broken as b:
        problems.append(str(b))
    for k, v in knownhit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v, desc, rp in viols: print("%s [%s] %s: %s\n  at %s\n  inputs %s" % (v["entry"], v["kind"], v["message"], desc, v["trace"][:300], json.dumps(v["inputs"])[:600]))
    for p in undecided: print("UNDECIDED:", p[:600])
    for p in problems: print("PROBLEM:", p[:1500])
    own = sorted(f for f in funcs if not f.startswith(("std::", "__gnu_cxx", "void std::", "bool std::")) and "H.t_" not in f)
    c = {"units": rows, "paths": tot["paths"], "branch_forks": tot["forks"], "instructions_executed_symbolically": tot["instructions"], "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2),
         "assertions_checked": tot["asserts"], "assertions_by_solver": tot["asserts_by_solver"], "functions_encoded": len(funcs), "functions_sample": own[:120], "bounds": P["bounds"], "harness_entries": entries_n, "known_findings": len(knownhit), "undecided": [x[:300] for x in undecided][:20], "samples": samples or [{"none": "no path completed"}]}
    if P["level"] == "translation_validation": c["programs"] = entries_n; c["disagreements_checked"] = tot["asserts"]
    elif P["level"] == "model_checking": c["states"] = tot["paths"]; c["transitions"] = tot["instructions"]; c["traces_validated_against_impl"] = validated
    else: c["explanation"] = P.get("explanation", "bounded symbolic execution of the real code")
    c["paths_replayed_natively"] = validated
    if c.get("traces_validated_against_impl") is not None: c.pop("paths_replayed_natively")
    if P["level"] == "model_checking": c.pop("paths"); c.pop("instructions_executed_symbolically")
    if P["level"] == "translation_validation": c.pop("assertions_checked"); c.pop("harness_entries")
    ev["coverage"] = c; ev["wall_s"] = round(time.time() - t0, 2); ev["violations"] = len(viols)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    while len(json.dumps(ev)) > 60000 and c["functions_sample"]: c["functions_sample"] = c["functions_sample"][: len(c["functions_sample"]) // 2]
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    print("%s %s: %d entries, %d paths, %d asserts, %d queries (%.1fs solver), %d replayed, %.1fs" % (prop, tier, entries_n, tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], validated, ev["wall_s"]))
    if viols:
        for v, desc, rp in viols[:1]: print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 2 if problems else 0
sys.exit(main())
