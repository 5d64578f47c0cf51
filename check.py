"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's working tree: records sessions of the real code, validates them
against the TLA+ specification with TLC, and runs the bounded models of the specification that
belong to the property, whose behaviours are replayed into the real code.

exit 0: held on everything explored   exit 1: VIOLATION line   exit 2: no answer
"""
import argparse
import collections
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))

PY = sys.executable
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
# sessions per tier
QUICK = collections.defaultdict(lambda: 480, C04=320, C05=320, C12=400, C18=240, C10=400)
THOROUGH = collections.defaultdict(lambda: 6400, C04=4800, C05=4800, C12=4800, C18=3200)
LIMIT = {"quick": 780, "thorough": 14000}

ASSUMPTIONS = [
    "the abstract commands of the generators and the text they render agree (the generator is the reference for the concrete syntax)",
    "the projection of the Python objects to tokens (harness/project.py) is faithful",
    "TLC evaluates the specification correctly",
    "beyond the bounded models, configurations, filters and histories are sampled, not enumerated",
]


def worker(job):
    """(name, command) -> (name, result or error text); the command writes its result to a file"""
    name, cmd, limit, env = job
    with tempfile.TemporaryDirectory(prefix="check") as d:
        out = os.path.join(d, "out.json")
        e = dict(os.environ, TMPDIR=d, **env)
        t0 = time.time()
        p = subprocess.Popen([PY, "-B", *cmd, out], cwd=os.path.join(HERE, "harness"), env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            log, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return name, f"no result within {limit} s"
        if p.returncode or not os.path.exists(out):
            return name, f"exit {p.returncode}: {log[-2000:]}"
        with open(out) as f:
            r = json.load(f)
        r["wall"] = round(time.time() - t0, 1)
        return name, r


def session_jobs(prop, seed, tier, first=0):
    n = {"quick": QUICK, "thorough": THOROUGH}[tier][prop]
    per = -(-n // WORKERS)
    jobs = []
    if tier == "thorough":
        per = 200  # smaller pieces, started as workers get free
    k = first
    while k < first + n:
        jobs.append((f"sessions {k}", ["runner.py", prop, str(seed), str(k), str(min(k + per, first + n)), tier],
                     LIMIT[tier], {"PYTHONHASHSEED": str(1 + k % 1000)}))
        k += per
    return jobs


def known_findings(prop):
    """known: property=<id> match=<regular expression over clause, expected and observed>"""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
                if m and m[1] == prop:
                    out.append((re.compile(m[2]), m[3].strip()))
    except FileNotFoundError:
        pass
    return out


def describe(f):
    return f"{f['e']} {f['c']} expected {json.dumps(f['x'])[:400]} observed {json.dumps(f['o'])[:400]}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import replay

    if a.replay:
        return replay.main(a.prop, a.replay)
    t0 = time.time()
    import models

    jobs = models.jobs(a.prop, a.seed, a.tier, LIMIT[a.tier]) + session_jobs(a.prop, a.seed, a.tier)
    results, errors = [], []
    stop = False
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        todo = [ex.submit(worker, j) for j in jobs]
        for f in concurrent.futures.as_completed(todo):
            try:
                name, r = f.result()
            except concurrent.futures.CancelledError:
                continue
            if isinstance(r, str):
                errors.append(f"{name}: {r}")
            else:
                results.append((name, r))
                if r["found"] and not stop:
                    stop = True  # enough is known: do not start what has not started yet
                    for x in todo:
                        x.cancel()
    known = known_findings(a.prop)
    lines, found = [], []
    for name, r in results:
        for x in r["found"]:
            fs = []
            for f in x["fails"]:
                hit = [t for rx, t in known if rx.search(describe(f))]
                if hit:
                    lines.append(f"KNOWN-FINDING: property={a.prop} {hit[0]}")
                else:
                    fs.append(f)
            if fs:
                found.append((name, x, fs))
    for l in sorted(set(lines)):
        print(l)
    paths = []
    for name, x, fs in sorted(found, key=lambda y: (y[0], y[1]["i"]))[:5]:
        try:
            paths.append((replay.write(a.prop, a.seed, a.tier, name, x, fs), fs))
        except Exception as e:  # the verdict stands without its replay file
            print(f"replay file: {e}")
            paths.append(("none", fs))
    evidence(a, t0, results, found, errors)
    for p, fs in paths:
        for f in fs[:3]:
            print("  " + describe(f))
        print(f"VIOLATION property={a.prop} replay={p}")
    if found:
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    n = sum(r.get("sessions", 0) for _, r in results)
    print(f"{a.prop}: {n} sessions and {sum(1 for _, r in results if 'model' in r)} models, no violation, {time.time() - t0:.0f} s")
    return 0


def evidence(a, t0, results, found, errors):
    stats, kinds, samples, models_ = collections.Counter(), collections.Counter(), [], []
    sessions = 0
    for name, r in sorted(results, key=lambda x: x[0]):
        stats.update(r.get("stats", {}))
        kinds.update(r.get("kinds", {}))
        sessions += r.get("sessions", 0)
        if len(samples) < 2:
            samples += r.get("samples", [])[:1]
        if "model" in r:
            models_.append({k: r[k] for k in r if k in ("model", "bounds", "states", "transitions", "behaviours", "replayed", "exhaustive", "wall")})
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "model_checking",
        "coverage": {
            "states": stats["states"] + sum(m.get("states", 0) for m in models_),
            "transitions": stats["transitions"] + sum(m.get("transitions", 0) for m in models_),
            "traces_validated_against_impl": sessions,
            "samples": samples or [{"none": "no session was completed"}],
            "events": dict(kinds),
            "selected_items": stats["hits"],
            "rejected_loads": stats["rejects"],
            "events_without_configuration": stats["blocked"],
            "models": models_,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(found),
    }
    if errors:
        ev["coverage"]["errors"] = errors[:5]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", a.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
