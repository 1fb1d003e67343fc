"""Write MANIFEST.json from dst/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "dst"))
from props import PROPS

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(
            property=i, quick_cmd="/opt/venv/bin/python dst/check.py %s" % i,
            thorough_cmd="/opt/venv/bin/python dst/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + s["technique"],
            level=s.get("level", "exploration"), level_note=s["note"]))
    else:
        r = p.get("not_applicable") or (
            "A function of its arguments alone: no schedule, clock, fault, interleaving, history or stored state "
            "enters it, so there is nothing for a simulator to decide; generating inputs would be property-based "
            "testing, a different technique. (That its value is history-, thread- and interruption-independent is "
            "C10-C12.)" if i >= "C20" else "check not built yet")
        na.append(dict(property=i, reason=r))
m = dict(version=1, setup_cmd="/opt/venv/bin/python dst/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: system calls are intercepted by LD_PRELOAD, threads and interruptions "
               "by sys.settrace, optional peers through sys.modules and sys.meta_path. Replay a violation with "
               "`/opt/venv/bin/python dst/check.py <id> --replay <file>`.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
