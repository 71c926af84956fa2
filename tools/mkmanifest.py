# writes MANIFEST.json from the plan: a property with a workload in sim/plan.js is claimed
import json, os, subprocess, jsonschema
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
plan = json.loads(subprocess.check_output(["node", "-e", "console.log(JSON.stringify(require('%s/sim/plan.js').PLAN))" % root]))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = json.load(open(os.path.join(here, "not_applicable.json")))
WL = {"gen_token": "token workload", "gen_upload": "upload workload", "gen_archive": "archive workload", "gen_index": "index workload", "gen_cli": "command line workload"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan and i not in NA:
        w = ", ".join("%s (%d quick / %d thorough runs)" % (WL[x["gen"]], x["quick"], x["thorough"]) for x in plan[i])
        checks.append(dict(property=i, quick_cmd="node sim/check.js %s --tier quick" % i, thorough_cmd="node sim/check.js %s --tier thorough" % i,
            technique="deterministic simulation with fault injection: seeded search over simulated runs of the real canister wasm, judged against a reference model",
            level="exploration", level_note="Seeded search, no exhaustiveness claim: " + w + "; real compiled canisters, simulated replica, every schedule and fault drawn from the seed, failing runs minimised and replayed in a fresh process.",
            evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no workload yet")))
m = dict(version=1, setup_cmd="node sim/build.js", hooks=dict(guard="none", enable="not needed: the seam is the IC System API (ic0 imports) of the compiled wasm, so the checks build the unmodified canisters", source_commits=[]), checks=checks, not_applicable=na)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
