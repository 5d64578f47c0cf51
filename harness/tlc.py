"""Runs TLC."""
import os
import re
import shutil
import subprocess
import tempfile

from util import SPEC

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers=1, heap="2g", timeout=800, args=(), simulate=None):
    """(return code, output) of a TLC run in a scratch copy of the specification's metadata"""
    meta = tempfile.mkdtemp(prefix="tlc")
    try:
        cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta,
               "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-deadlock", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg, *args, module]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    """(states generated, distinct states) of a TLC run"""
    m = re.findall(r"(\d+) states generated(?:[^,]*), (\d+) distinct states found", out.replace(",", ""))
    m = m or re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
