"""Runs the quick checks against the planted bugs, each in a scratch copy of the repository.

detect.py [-a] [ID ...]     -a: every property's check, not only that of the bug; prints one line per bug
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main():
    args = sys.argv[1:]
    every = "-a" in args
    ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        s = tempfile.mkdtemp(prefix="detect")
        try:
            shutil.copytree("/repo", os.path.join(s, "repo"), symlinks=True)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=os.path.join(s, "repo"), check=True)
            out = []
            for p in props if every else [prop]:
                v = tempfile.mkdtemp(prefix="verif", dir=s)
                for x in ("check.py", "harness", "spec", "known-findings.txt"):
                    (shutil.copytree if os.path.isdir(os.path.join(HERE, x)) else shutil.copy)(os.path.join(HERE, x), os.path.join(v, x))
                r = subprocess.run([PY, "-B", "check.py", p, "--tier", os.environ.get("TIER", "quick")], cwd=v, text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, env=dict(os.environ, ACLTK_REPO=os.path.join(s, "repo")))
                if r.returncode == 1:
                    c = re.findall(r"^  (\S+ \S+) expected", r.stdout, re.M)
                    out.append(f"{p}({','.join(sorted(set(x.split()[1] for x in c)))})")
                elif r.returncode:
                    out.append(f"{p}:exit {r.returncode}")
            print(i, prop, "CAUGHT" if any(x.startswith(prop + "(") for x in out) else "missed", " ".join(out), flush=True)
        finally:
            shutil.rmtree(s, ignore_errors=True)


main()
