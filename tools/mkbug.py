"""Makes a planted bug: seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from a description, and confirms it.

mkbug.py FILE [ID ...]     FILE is Python, defining BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
A bug is kept if it applies, the stable tests pass with it, and the demo passes without and fails with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PRELUDE = '''import contextlib, io, logging, sys
logging.disable(logging.CRITICAL)
from acltk.aclObjects import *
from acltk.cafObjects import cafBlock


def load(text, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return ACLConfig.fromString(text, **kw)


def rejected(text):
    try:
        load(text)
    except Exception:
        return True
    return False


def sel(cfg, caf):
    """the numbers of the rules a filter selects"""
    with contextlib.redirect_stdout(io.StringIO()):
        r = cfg.filter(cafBlock.fromString(caf))
    return sorted(i for i, x in enumerate(cfg.rules.rules, 1) if x in r)


def nats(cfg, caf):
    """the NAT rules a filter selects"""
    with contextlib.redirect_stdout(io.StringIO()):
        r = cfg.filter(cafBlock.fromString(caf))
    return sorted((s, i) for s in cfg.nat for i, x in enumerate(cfg.nat[s], 1) if x in r)


def check(got, want):
    if got != want:
        print("got", got, "want", want)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# run in the repository's folder; exit 0: behaves as it should
PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    """the stable tests which do not pass in a copy"""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ, PYTHONPATH=repo + "/lib", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HOME="/root")
    t = repo + "/tests"
    shutil.rmtree(t + "/acl/single", ignore_errors=True)
    os.makedirs(t + "/acl/single")
    base = [PY, "-m", "pytest", f"--rootdir={repo}", "-q", "-p", "no:cacheprovider"]
    run(base + ["test_acl.py::iosTestBlock::test_ios"], t, env=env)
    x = repo + "-junit.xml"
    run(base + ["--disable-warnings", "--tb=no", "-o", "junit_family=xunit2", f"--junitxml={x}", "."], t, env=env)
    run([PY, "/opt/vp/results.py", x + ".json", "junit:" + x], t, env=env)
    ok = set(json.load(open(x + ".json"))["passed"])
    os.unlink(x)
    os.unlink(x + ".json")
    return stable - ok


def make(b, force=False):
    d = os.path.join(HERE, "seeded", b["id"])
    repo = f"/tmp/mkbug-{os.getpid()}-{b['id']}"
    run(["cp", "-a", "/repo", repo], "/")
    try:
        for f, old, new in b["edits"]:
            p = f"{repo}/lib/acltk/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} places"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        # only lines of the original repository may change
        orig = set()
        for f, _, _ in b["edits"]:
            base = run(["git", "show", f"35b80b6:lib/acltk/{f}"], repo).stdout.split("\n")
            orig |= {x.strip() for x in base}
        odd = [l for l in diff.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip() not in orig]
        if odd:
            return f"changes lines of ours: {odd}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(PRELUDE + b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        p = run(["bash", d + "/demo.sh"], "/repo")
        if p.returncode:
            return "demo fails without the change: " + p.stdout[-600:]
        p = run(["bash", d + "/demo.sh"], repo)
        if not p.returncode:
            return "demo passes with the change"
        t = tests(repo)
        if t:
            return f"tests fail: {sorted(t)[:4]}"
        return None
    finally:
        shutil.rmtree(repo)


def main():
    from concurrent.futures import ThreadPoolExecutor

    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for b, e in zip(bugs, ex.map(make, bugs)):
            print(b["id"], b["prop"], "kept" if e is None else "DROPPED " + e, flush=True)
            if e is not None:
                shutil.rmtree(os.path.join(HERE, "seeded", b["id"]), ignore_errors=True)


if __name__ == "__main__":
    main()
