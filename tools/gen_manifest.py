#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
claimed = json.load(open(root + "/tools/claimed.json"))
m = {
  "version": 1,
  "setup_cmd": "bash ./build.sh",
  "checks": [
    {"property": i, "quick_cmd": f"bash ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash ./check.sh {i}",
     "technique": claimed[i]["technique"], "level": "exploration", "level_note": claimed[i]["note"]}
    for i in ids if i in claimed],
  "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in claimed],
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
