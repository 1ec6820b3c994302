#!/usr/bin/env python3
"""Applies planted bugs one at a time to /repo, runs a check (by default the quick check of the bug's
property) and undoes the change. Usage: runseed.py [-a] [id...]; -a: every check, to see who else notices."""
import sys, os, json, subprocess, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
args = [a for a in args if a != "-a"]
ids = args or sorted(os.listdir(here + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (here, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in (["C%02d" % k for k in range(1, 29)] if every else [prop]):
            t = time.time()
            r = subprocess.run(["bash", here + "/run.sh", p, "quick"], cwd=here, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-22s %s rc=%d %3.0fs %s" % (i, p, r.returncode, time.time() - t, v[0][:100] if v else (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else ""), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
