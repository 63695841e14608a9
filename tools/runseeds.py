#!/usr/bin/env python3
"""usage: runseeds.py [ID...]: applies each planted bug to /repo in turn, runs its property's check (or those in PROPS=), undoes it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(f"{ROOT}/seeded"))
props = os.environ.get("PROPS", "")
for i in ids:
    p = f"{ROOT}/seeded/{i}"
    own = json.load(open(f"{p}/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "apply", f"{p}/patch.diff"]).returncode == 0, i
    try:
        for c in (props.split() or [own]):
            t = time.time()
            r = subprocess.run(["python3", f"{ROOT}/tools/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            good = r.returncode == 1 and any(f"property={c} " in l + " " for l in v)
            print(f"{i:24} {c} {'caught' if good else ('quiet' if r.returncode == 0 else 'RC %d' % r.returncode)} {time.time()-t:.0f}s {v[0][:150] if v else r.stdout[-300:] if r.returncode else ''}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
