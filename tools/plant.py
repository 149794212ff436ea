#!/usr/bin/env python3
"""plant.py <id> <property> <needs> <breaks>: keeps the change made in the
scratch copy /tmp/plant as /verif/seeded/<id>, after confirming that it builds,
passes the tests, and that its demonstration fails with it and passes without.
The demonstration's main.rs (or demo.py) must be in the folder already."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/plant"
DEMO_SH = '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'
DEMO_PY = '''"""Runs main.rs against the crate in the current directory"""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as w:
    os.mkdir(os.path.join(w, "src"))
    shutil.copy(os.path.join(here, "main.rs"), os.path.join(w, "src"))
    shutil.copy(os.path.join(repo, "Cargo.lock"), w)
    with open(os.path.join(w, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
knuffel = { path = "%s", features = ["minicbor"] }
miette = "5.1.1"
minicbor = "*"
""" % repo)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(w, "target"))
    r = subprocess.run(["cargo", "run", "--offline", "-q"], cwd=w, env=env)
sys.exit(1 if r.returncode else 0)
'''


def main():
    bid, prop, needs, breaks = sys.argv[1:5]
    d = os.path.join(V, "seeded", bid)
    diff = subprocess.check_output(["git", "-C", P, "diff"]).decode()
    assert diff.strip(), "no change"
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO_SH)
    if not os.path.exists(os.path.join(d, "demo.py")):
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(DEMO_PY)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  f, indent=1)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check",
                           os.path.join(d, "patch.diff")])
    env = dict(os.environ, CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR="/tmp/plant-target")
    for cmd in (["cargo", "test", "--workspace", "--all-features", "--offline",
                 "-q"],
                ["cargo", "build", "--workspace", "--no-default-features",
                 "--offline", "-q"]):
        r = subprocess.run(cmd, cwd=P, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            print(r.stdout.decode()[-3000:])
            sys.exit("FAILS: " + " ".join(cmd))
    bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=P,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(bid, "demo with:", bad.returncode, bad.stdout.decode()[-300:].strip(),
          "| without:", good.returncode, good.stdout.decode()[-600:].strip())
    ok = bad.returncode != 0 and good.returncode == 0
    print("KEPT" if ok else "NOT CONFIRMED")
    subprocess.check_call(["git", "-C", P, "checkout", "-q", "--", "."])


main()
