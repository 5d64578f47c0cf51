"""Mutation of the code under test, to find what the sessions do not notice.

mutate.py list [FILE...]              the mutants of lib/acltk/FILE
mutate.py run OUT [-n PER] [-j JOBS] [FILE...]   runs sessions of every property on each of them; OUT: one JSON line per mutant

With FAST=1 in the environment any different observation counts, without asking TLC.
A mutant is one changed expression or statement. Survivors are to be looked at: they are equivalent,
outside of the domain, or show a gap.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACLTK_REPO", "/repo")
SEM = ["aclObjects.py", "aclSemantics.py", "fwsmSemantics.py", "fwsmObjects.py", "iosSemantics.py", "iosObjects.py", "pfsenseSemantics.py", "pfsenseObjects.py",
       "cafSemantics.py", "cafObjects.py"]
PARSERS = ["fwsm.py", "ios.py", "caf.py"]

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.LShift: ast.RShift}
PAIRS = [("src", "dst"), ("start", "stop"), ("start", "end"), ("real", "mapped"), ("source", "destination"), ("address", "wildcard"), ("first", "last"),
         ("src_port", "dst_port"), ("icmp_type", "icmp_code"), ("broadcast_address", "network_address"), ("NetworkAny4", "NetworkAny6")]
SWAP = {**{a: b for a, b in PAIRS}, **{b: a for a, b in PAIRS}}


def skip(node):
    return isinstance(node, ast.Assert) or (isinstance(node, ast.FunctionDef) and node.name in ("__repr__", "__str__", "getservbyname"))


def sites(tree, parser):
    """(description, function which mutates the node) of all mutants, by walking in order"""
    out = []

    def walk(node, path):
        if skip(node):
            return
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        if isinstance(v, ast.stmt):
                            stmt(node, field, i, v)
                        expr(node, field, i, v)
                        walk(v, path)
            elif isinstance(value, ast.AST):
                expr(node, field, None, value)
                walk(value, path)

    def put(node, field, i, new, what):
        out.append((node, field, i, new, what))

    def stmt(node, field, i, v):
        if isinstance(v, (ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise)) or (
            isinstance(v, ast.Expr) and isinstance(v.value, ast.Call)
        ):
            if isinstance(v, ast.Assign) and len(v.targets) == 1 and isinstance(v.targets[0], ast.Name) and not isinstance(node, (ast.If, ast.For)):
                return
            put(node, field, i, ast.Pass(), "drop")
        if isinstance(v, ast.Return) and v.value is not None and not isinstance(v.value, ast.Constant):
            put(node, field, i, ast.Return(ast.Constant(None)), "return None")
        if isinstance(v, ast.If):
            for c in (True, False):
                n = copy.copy(v)
                n.test = ast.Constant(c)
                put(node, field, i, n, f"if {c}")
        if isinstance(v, ast.For):
            n = copy.copy(v)
            n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [v.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
            put(node, field, i, n, "for without the first")
            n = copy.copy(v)
            n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [v.iter], []), ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)), None), ast.Load())
            put(node, field, i, n, "for without the last")

    def expr(node, field, i, v):
        if isinstance(v, ast.Compare) and type(v.ops[0]) in CMP:
            n = copy.copy(v)
            n.ops = [CMP[type(v.ops[0])]()] + v.ops[1:]
            put(node, field, i, n, "compare")
        elif isinstance(v, ast.BoolOp):
            n = copy.copy(v)
            n.op = ast.Or() if isinstance(v.op, ast.And) else ast.And()
            put(node, field, i, n, "and/or")
            for k in range(len(v.values)):
                n = copy.copy(v)
                n.values = v.values[:k] + v.values[k + 1:]
                put(node, field, i, n if len(n.values) > 1 else n.values[0], f"operand {k} dropped")
        elif isinstance(v, ast.BinOp) and type(v.op) in BIN:
            n = copy.copy(v)
            n.op = BIN[type(v.op)]()
            put(node, field, i, n, "operator")
        elif isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            put(node, field, i, v.operand, "not")
        elif isinstance(v, ast.Constant):
            if isinstance(node, (ast.Expr, ast.JoinedStr)):
                return
            if isinstance(v.value, bool):
                put(node, field, i, ast.Constant(not v.value), "constant")
            elif isinstance(v.value, int):
                put(node, field, i, ast.Constant(v.value + 1), "constant")
            elif isinstance(v.value, str) and len(v.value) < 60:
                put(node, field, i, ast.Constant(v.value + "x"), "constant")
                if v.value in SWAP:
                    put(node, field, i, ast.Constant(SWAP[v.value]), "swap")
        elif isinstance(v, ast.Attribute) and v.attr in SWAP:
            n = copy.copy(v)
            n.attr = SWAP[v.attr]
            put(node, field, i, n, "swap")
        elif isinstance(v, ast.Name) and v.id in SWAP and isinstance(v.ctx, ast.Load):
            put(node, field, i, ast.Name(SWAP[v.id], v.ctx), "swap")
        elif isinstance(v, ast.IfExp):
            put(node, field, i, v.body, "conditional")
            put(node, field, i, v.orelse, "conditional")
        elif isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.func, ast.Name) and v.func.id in ("sorted", "list", "set", "reversed", "int", "str"):
            put(node, field, i, v.args[0], "call dropped")

    walk(tree, [])
    return out


def mutants(name, parser):
    with open(os.path.join(REPO, "lib/acltk", name)) as f:
        src = f.read()
    tree = ast.parse(src)
    out = []
    for node, field, i, new, what in sites(tree, parser):
        old = getattr(node, field) if i is None else getattr(node, field)[i]
        line = getattr(old, "lineno", getattr(node, "lineno", 0))
        before = ast.unparse(old).split("\n")[0][:90]
        ast.copy_location(new, old)
        ast.fix_missing_locations(new)
        if i is None:
            setattr(node, field, new)
        else:
            getattr(node, field)[i] = new
        try:
            text = ast.unparse(tree)
            out.append({"file": name, "line": line, "what": what, "old": before, "new": ast.unparse(new).split("\n")[0][:90], "text": text})
        except Exception:
            pass
        if i is None:
            setattr(node, field, old)
        else:
            getattr(node, field)[i] = old
    return out


RUN = r"""
import sys, os, json, tempfile, zlib
sys.path.insert(0, os.path.join(sys.argv[1], "harness"))
import util, runner, sessions
runner.SESSION_TIMEOUT = 20
per, base = int(sys.argv[2]), sys.argv[3]
d = tempfile.mkdtemp(prefix="mut")
ref = {}
if os.path.exists(base):
    with open(base) as f:
        ref = json.load(f)
diff, seen = [], 0

def canon(x):
    # without the order of what is a set
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    return sorted((json.dumps(canon(v)) for v in x)) if isinstance(x, list) else x

def end(x):
    print(x)
    sys.exit(0)

def judge():
    try:
        fails, st = runner.verdicts_(diff, d)
    except runner.tlc.TLCError as e:
        end("KILLED ? tlc " + str(e)[-200:].replace("\\n", " "))
    for k, acts, ev in diff:
        fs = runner.relevant(k[0], acts, fails.get(k, []))
        if fs:
            end(f"KILLED {k[0]} {k[1]} {fs[0]['e']} {fs[0]['c']}")

for i in range(per):
    for p in sorted(sessions.PROFILES):
        acts = sessions.session(p, "mut", i)
        try:
            ev, e = runner.record(acts, d)
        except Exception as x:
            end(f"KILLED {p} {i} recorder {type(x).__name__} {x}".replace("\\n", " "))
        if ev is None:
            end(f"KILLED {p} {i} timeout")
        h = zlib.crc32(json.dumps([canon(e) if e["e"] == "resolve" else e for e in ev], sort_keys=True).encode())
        if len(sys.argv) > 4:
            ref[f"{p}.{i}"] = h
        elif ref[f"{p}.{i}"] != h:
            if os.environ.get("FAST"):
                end(f"KILLED {p} {i} differs")
            diff.append(((p, i), acts, ev))
            seen += 1
            if len(diff) >= 6:
                judge()
                diff = []
    if diff and i in (0, 2, per - 1):
        judge()
        diff = []
if len(sys.argv) > 4:
    with open(base, "w") as f:
        json.dump(ref, f)
print("SURVIVED", seen)
"""


def sessions_of(repo, per, base, *more):
    env = dict(os.environ, ACLTK_REPO=repo, TMPDIR=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1")
    try:
        p = subprocess.run([sys.executable, "-B", "-c", RUN, HERE, str(per), base, *more], env=env, capture_output=True, text=True, timeout=1800)
    except subprocess.TimeoutExpired:
        return "KILLED timeout"
    v = [l for l in p.stdout.split("\n") if l.startswith(("KILLED", "SURVIVED"))]
    return v[-1] if v else "KILLED import " + p.stderr[-150:].replace("\n", " ")


def judge(m, per, base):
    d = tempfile.mkdtemp(prefix="mutant")
    try:
        shutil.copytree(os.path.join(REPO, "lib"), os.path.join(d, "lib"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "lib/acltk", m["file"]), "w") as f:
            f.write(m["text"])
        v = sessions_of(d, per, base)
        return {**m, "text": None if v.startswith("KILLED") else m["text"], "verdict": v}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["list", "run"])
    ap.add_argument("rest", nargs="*")
    ap.add_argument("-n", type=int, default=16)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--sample", type=float, default=1.0)
    a = ap.parse_args()
    out = a.rest.pop(0) if a.cmd == "run" else None
    ms = [m for f in (a.rest or SEM) for m in mutants(f, f in PARSERS)]
    r = random.Random(1)
    ms = [m for m in ms if r.random() < a.sample]
    if a.cmd == "list":
        for m in ms:
            print(m["file"], m["line"], m["what"], "|", m["old"], "->", m["new"])
        print(len(ms))
        return
    r.shuffle(ms)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)[k] for k in ("file", "line", "what", "old", "new")) for l in open(out)}
    ms = [m for m in ms if tuple(m[k] for k in ("file", "line", "what", "old", "new")) not in done]
    base = out + ".base"
    d = tempfile.mkdtemp(prefix="mutant")
    shutil.copytree(os.path.join(REPO, "lib"), os.path.join(d, "lib"), ignore=shutil.ignore_patterns("__pycache__"))
    print("unchanged:", sessions_of(d, a.n, base, "write"), sessions_of(d, a.n, base))
    shutil.rmtree(d)
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex, open(out, "a") as f:
        for x in concurrent.futures.as_completed([ex.submit(judge, m, a.n, base) for m in ms]):
            f.write(json.dumps(x.result()) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
