#!/usr/bin/env python3
"""blame.py: which of the lines the planted changes remove were in the
original repository (a change has to touch one of those)"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "fc1bacc"
for b in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/patch.diff" % b
    f = n = None
    orig = mine = 0
    for line in open(p, encoding="utf-8"):
        if line.startswith("--- a/"):
            f = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            c = subprocess.check_output(["git", "-C", "/repo", "blame", "-l",
                    "-L", "%d,%d" % (n, n), "HEAD", "--", f]).decode()
            if c.lstrip("^").startswith(base):
                orig += 1
            else:
                mine += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    print(b, orig, mine, "" if orig and not mine else "<<<")
