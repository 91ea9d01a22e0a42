#!/usr/bin/env python3
"""selfcheck.py [ID...]: is one seed really one execution?  Runs each harness with different numbers of workers and
in different processes (address-space layout differs) and compares the digests over all event logs."""
import sys, os, subprocess, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 27)]
bad = 0
for id in ids:
    d = os.path.join(check.VERIF, "build", id); os.makedirs(d, exist_ok=True)
    exe = check.build(id, d); got = []
    for w in (1, 3, 8):
        out = os.path.join(d, "self.json")
        subprocess.run([exe, "run", "--seed", "11", "--runs", "3000", "--workers", str(w), "--out", out, "--replay-dir", d], capture_output=True, env=dict(os.environ, PAD="x" * (w * 37)))
        s = json.load(open(out)); got.append((s["digest"], s["runs"], s["steps"], s["decisions"]))
    same = len(set(got)) == 1
    print(id, "same" if same else "DIFFERENT", got[0][0] if same else got); bad += not same
sys.exit(bad != 0)
