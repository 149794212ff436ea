#!/usr/bin/env python3
"""catch.py [id...]: applies each planted change to /repo, runs the quick check
of its property, undoes the change, and prints whether it was caught."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
checks = {c["property_id"] if "property_id" in c else c["property"]: c
          for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for b in ids:
    d = V + "/seeded/" + b
    prop = json.load(open(d + "/meta.json"))["property"]
    c = checks[prop]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        r = subprocess.run(c["quick_cmd"], shell=True, cwd=V, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    out = r.stdout.decode("utf-8", "replace")
    hit = r.returncode == 1 and "VIOLATION property=%s " % prop in out
    print(b, prop, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode,
          "%.0fs" % (time.time() - t), flush=True)
    if not hit:
        print(out[-600:], flush=True)
