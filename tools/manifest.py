#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/notes.json"))
NA = {"N01": "pure function of its input: no schedule, clock, I/O, fault or history to simulate",
      "N02": "pure function of its input: no schedule, clock, I/O, fault or history to simulate",
      "N03": "pure function of its input: no schedule, clock, I/O, fault or history to simulate",
      "N04": "compile-time facts: nothing executes, so there is nothing to simulate"}
checks, na = [], []
for p in ALL:
    if p in NA: na.append({"property": p, "reason": NA[p]}); continue
    if not os.path.exists("%s/harness/%s.cpp" % (V, p)) or p not in NOTES:
        na.append({"property": p, "reason": "not built yet"}); continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + NOTES[p][0],
        "level": "exploration", "level_note": NOTES[p][1]})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "", "enable": "none needed: every seam used already exists (caller-supplied devices, FILE, allocators, the FreeRTOS headers)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
