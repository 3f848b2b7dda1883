#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run in /verif after editing the list below."""
import json, os

def P(id, title, statement, over, text, why, files, mechanism, note, state=None, observe=None,
      technique=None, claim=True):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {
        "p": {"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
        "note": note, "technique": technique, "claim": claim,
    }

ALL = []
def add(*a, **k):
    ALL.append(P(*a, **k))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_list.py")).read())

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in ALL:
        p = x["p"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": [{
        "property": x["p"]["id"],
        "quick_cmd": "./check " + x["p"]["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check " + x["p"]["id"],
        "technique": x["technique"],
        "level": "exploration",
        "level_note": x["note"],
    } for x in ALL if x["claim"]],
    "not_applicable": [],
    "notes": "No hooks: every check drives the crates through their public interfaces and real loopback sockets. ./check replay FILE re-runs a replay file. Known findings are in known-findings.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
