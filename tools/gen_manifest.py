#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V + "/harness")
from registry import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="MACIS_VERIF", enable="no hooks were needed: every monitor observes at the public API, from harnesses compiled against /repo's sources", source_commits=[]),
         checks=[], not_applicable=[])
NOTE = "Runtime exploration of the cases generated from VERIF_SEED: holds on the executions observed, compared with an independent oracle, under ASan+UBSan with assertions on unless the technique says otherwise; no claim about inputs not generated."
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
            technique=P.get("technique", "differential runtime monitor against a brute-force oracle, ASan+UBSan instrumented"),
            level="exploration", level_note=P.get("level_note", NOTE)))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check has been built for it yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
