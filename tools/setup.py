"""Checks that the toolchain is there and that the specification parses."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import tlc

for f in sorted(os.listdir(tlc.SPEC)):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", f], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or "*** Errors" in p.stdout:
            print(p.stdout)
            sys.exit(1)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("specification parses")
