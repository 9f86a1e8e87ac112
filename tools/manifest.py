"""writes /verif/MANIFEST.json from the table of claimed checks"""
import json, sys, subprocess
sys.path.insert(0, "/verif/harness")
import props
T = json.load(open("/verif/tools/claims.json"))
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.CHECKS and i in T:
        checks.append({"property": i, "quick_cmd": "python3 harness/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 harness/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i]["technique"],
                       "level": props.LEVEL[i], "level_note": T[i]["note"]})
    else:
        na.append({"property": i, "reason": "check still under construction"})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "verification hook" in l]
m = {"version": 1,
     "setup_cmd": "python3 harness/setup.py",
     "hooks": {"guard": "PE2_VERIF", "enable": "harness/pe2.py compiles /repo/src with -DPE2_VERIF (execution budget: statement steps, nesting depth, array cells)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/ checked with TLC; harness/ only generates inputs, runs the real interpreter and records; TLC decides every run."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
