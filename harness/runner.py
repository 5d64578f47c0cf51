"""Runs the sessions of a property against the real code and has TLC validate them.

Worker:  runner.py PROP SEED FIRST LAST TIER OUT   -> OUT (one JSON line)
"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import util
import recorder
import sessions
import tlc

SESSION_TIMEOUT = 120
BATCH = 60


def record(acts, scratch):
    rec = recorder.Recorder(scratch)
    try:
        return recorder.with_timeout(SESSION_TIMEOUT, rec.run, acts), None
    except recorder.Timeout:
        return None, "timeout"


def flat(acts):
    out = []
    for a in acts:
        out += a["acts"] if a["a"] == "par" else [a]
    return out


def validate(events, scratch):
    t, o = os.path.join(scratch, "trace.ndjson"), os.path.join(scratch, "out.ndjson")
    with open(t, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    if os.path.exists(o):
        os.unlink(o)
    rc, out = tlc.run("Trace.tla", "Trace.cfg", {"TRACE": t, "OUT": o})
    if rc or not os.path.exists(o):
        raise tlc.TLCError(f"TLC ended with {rc}: {out[-3000:]}")
    res = json.loads(open(o).readline())
    gen, dist = tlc.counts(out)
    res["stats"]["states"], res["stats"]["transitions"] = dist, gen
    return res


def verdicts(prop, batch, scratch):
    """batch: [(i, acts, events)] -> ({i: [action index, clause, ...]}, stats)

    A session TLC can not evaluate although it evaluates others is one whose observations
    are not of the specification's types: that is a verdict, too.
    """
    try:
        return verdicts_(batch, scratch)
    except tlc.TLCError as e:
        if len(batch) == 1:
            raise
        err = e
    fails, stats, bad = {}, collections.Counter(), []
    for b in batch:
        try:
            f, s = verdicts_([b], scratch)
            fails.update(f)
            stats.update(s)
        except tlc.TLCError as e:
            bad.append((b[0], str(e)))
    if len(bad) == len(batch):
        raise err
    for i, e in bad:
        fails[i] = [{"k": 0, "e": "session", "c": "session.type", "i": 0, "x": "an observation", "o": e[-400:]}]
    return fails, stats


def verdicts_(batch, scratch):
    ev, where = [], []
    for i, acts, events in batch:
        for k, e in enumerate(events):
            ev.append(e)
            where.append((i, k))
    res = validate(ev, scratch)
    fails = collections.defaultdict(list)
    for f in res["fails"]:
        i, k = where[f["l"] - 1]
        fails[i].append({"k": k - 1, "e": ev[f["l"] - 1]["e"], "c": f["c"], "i": f["i"], "x": f["x"], "o": f["o"]})
    return fails, res["stats"]


# -- which clauses of a session speak about the property
def refers(x):
    """the tokens contain a reference"""
    if isinstance(x, list):
        return any(refers(i) for i in x)
    return isinstance(x, str) and (x == "{" or x.startswith("@") or x == "time-range")


def relevant(prop, acts, fs):
    clauses = sessions.PROFILES[prop][1]
    acts = flat(acts)
    broken = set()  # slots whose import is not comparable
    for f in fs:
        if f["e"] == "load" and (f["c"] in ("load.accept", "load.reject") or f["c"].endswith(".count")):
            broken.add(acts[f["k"]]["s"])
    for a in acts:
        if a["a"] == "copy" and a["s"] in broken:
            broken.add(a["t"])
    base = {f["c"] for f in fs if f["e"] == "load"}
    out = []
    for f in fs:
        c = f["c"]
        a = acts[f["k"]]
        if f["e"] == "session":
            out.append(f)
            continue
        if clauses is not None:
            if not any(c == x or (x.endswith(".") and c.startswith(x)) for x in clauses):
                continue
        if c.startswith(("filter.", "look.", "gop.", "expand.", "resolve.", "hand.", "copy.")) and a.get("s") in broken and prop != "C18":
            continue
        if c.startswith("same.") and c[5:] in base:
            continue
        if prop == "C08" and not c.startswith("load.") and not (refers(f["x"]) or refers(f["o"])):
            continue
        if prop in ("C10", "C11", "C12", "C22") and c.startswith(("look.", "copy.")) and c[5:] in base:
            continue
        out.append(f)
    return out


def historic(acts, fs):
    """the failing clauses which do not fail without the history of other actions (in a new process)"""
    acts = flat(acts)
    out = []
    for k in sorted({f["k"] for f in fs})[:6]:
        mine = [f for f in fs if f["k"] == k]
        if any(f["e"] == "session" for f in mine):
            out += mine
            continue
        a = acts[k]
        alone = [x for x in acts[:k] if x.get("s") == a.get("s") and (x["a"] in ("load", "expand") or (x["a"] == "gop" and x["ins"]))]
        last = max([i for i, x in enumerate(alone) if x["a"] == "load"], default=0)
        alone = [] if a["a"] == "load" else alone[last:]
        alone = [{y: z for y, z in x.items() if y != "reuse"} for x in alone + [a]]
        d = tempfile.mkdtemp(prefix="alone")
        try:
            with open(os.path.join(d, "acts"), "w") as f:
                json.dump(alone, f)
            subprocess.run([sys.executable, "-B", __file__, "--alone", os.path.join(d, "acts"), os.path.join(d, "out")], check=True,
                           stdout=subprocess.DEVNULL, timeout=SESSION_TIMEOUT + 200)
            with open(os.path.join(d, "out")) as f:
                same = set(json.load(f))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if same & {"session.time", "session.type"}:
            continue
        out += [f for f in mine if f["c"] not in same]
    return out


def alone(path, out):
    with open(path) as f:
        acts = json.load(f)
    d = os.path.dirname(path)
    ev, e = record(acts, d)
    cs = ["session.time"]
    if ev is not None:
        try:
            fails, _ = verdicts_([(0, acts, ev)], d)
            cs = [f["c"] for f in fails.get(0, []) if f["k"] == len(acts) - 1]
        except tlc.TLCError:
            cs = ["session.type"]
    with open(out, "w") as f:
        json.dump(cs, f)


def brief(a):
    """an action for the evidence file"""
    x = {k: v for k, v in a.items() if k not in ("cmds", "f", "text")}
    if "text" in a:
        x["text"] = a["text"][:300]
    return x


def work(prop, seed, first, last, big):
    scratch = tempfile.mkdtemp(prefix="acltk")
    found, stats, kinds, samples = [], collections.Counter(), collections.Counter(), []
    n = 0
    t0 = time.time()

    def judge(batch):
        fails, st = verdicts(prop, batch, scratch)
        stats.update(st)
        for j, acts, ev in batch:
            fs = relevant(prop, acts, fails.get(j, []))
            if fs and prop == "C18":
                fs = historic(acts, fs)
            if fs:
                found.append({"i": j, "fails": fs})

    try:
        batch = []
        for i in range(first, last):
            acts = sessions.session(prop, seed, i, big)
            ev, e = record(acts, scratch)
            n += 1
            if ev is None:
                found.append({"i": i, "fails": [{"k": 0, "e": "session", "c": "session.time", "i": 0, "x": f"{SESSION_TIMEOUT} s", "o": e}]})
                break
            for x in ev:
                kinds[x["e"]] += 1
            batch.append((i, acts, ev))
            if not samples:
                samples = [{"session": i, "actions": [brief(x) for x in flat(acts)[:4]]}]
            if len(batch) >= BATCH:
                judge(batch)
                batch = []
                if found:
                    break
        if batch:
            judge(batch)
        return {"sessions": n, "found": found, "stats": stats, "kinds": kinds, "samples": samples, "wall": time.time() - t0}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--alone":
        return alone(*sys.argv[2:])
    prop, seed, first, last, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[6]
    r = work(prop, seed, first, last, sys.argv[5] == "thorough")
    with open(out + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(out + ".tmp", out)


if __name__ == "__main__":
    main()
