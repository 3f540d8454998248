#!/usr/bin/env python3
"""Apply each planted bug to /repo, run the quick check of its property, undo it."""
import json, os, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = f"/verif/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "does not apply"); continue
    t = time.time()
    try:
        r = subprocess.run(["python3", "/verif/run.py", p, "quick"], cwd="/verif", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, p, "rc", r.returncode, f"{time.time()-t:.0f}s", v[:1] or r.stdout[-300:], flush=True)
    for l in r.stdout.splitlines():
        if not l.startswith("VIOLATION") and ("violat" in l.lower()):
            print("    ", l[:300]); break
