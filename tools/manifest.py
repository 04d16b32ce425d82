#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table of claims below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "abstract interpretation of the library's MIR (text-rope domain) over lemma functions"
NOTE = ("Every obligation of the property's lemmas holds in every abstract state of the library's MIR that reaches it; the lemmas' symbolic texts, "
        "numbers and dates stand for all values of their class and length. Trusted: rustc's MIR, the models of std/chrono/uuid in engine/, the lemma statements. ")
CLAIMS = json.load(open(V + "/tools/claims.json"))
NA = json.load(open(V + "/tools/na.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 engine/check.py %s quick" % i, "thorough_cmd": "python3 engine/check.py %s thorough" % i,
                       "technique": c.get("technique", TECH), "level": "other", "level_note": NOTE + c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the lemmas use the public interface only. Each check builds what it needs itself."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
