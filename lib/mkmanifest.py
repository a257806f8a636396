"""writes MANIFEST.json from properties.jsonl and the checks there are"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/lib/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/lib/checks/{i.lower()}.py"):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=n.get("technique", "TLA+ specification checked with TLC, bound by replaying its behaviours into the real code"),
                           level=n.get("level", "model_checking"), level_note=n.get("note", "exhaustive within the bounds of the specification; the code is bound by the behaviours replayed")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 lib/setup.py", hooks=dict(guard="verif", enable="no hooks: the driver in /verif/driver is compiled into the module with 'go build -overlay' and uses exported interfaces only", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
