#!/usr/bin/env python3
"""Nothing to build ahead of time (every check builds from /repo's working tree); makes sure the tools are there and the specifications parse."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ok = True
for t in (["g++", "--version"], ["java", "-version"]):
    ok &= subprocess.run(t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
for f in sorted(os.listdir(vlib.SPEC)):
    if f.endswith(".tla"):
        r = vlib.sh(["java", "-cp", vlib.CP, "tla2sany.SANY", f], cwd=vlib.SPEC)
        if r.returncode != 0 or "Errors" in r.stdout:
            print(f, r.stdout[-800:])
            ok = False
os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
