"""Explores a bounded model with TLC and replays its behaviours into the real code.

mc.py MODEL PROP SEED TIER PART PARTS OUT     -> OUT (JSON)
"""
import collections
import json
import os
import shutil
import sys
import tempfile
import time

import util
import runner
import tlc
import alphabets

BATCH = 400


def explore(model, m, tier, part, parts, scratch):
    """TLC on the model's module: (behaviours, states, transitions)"""
    def dump(name, items):
        p = os.path.join(scratch, name)
        with open(p, "w") as f:
            for x in items:
                f.write(json.dumps(x) + "\n")
        return p

    emit = os.path.join(scratch, "emit")
    env = {"EMIT": emit, "PART": str(part), "PARTS": str(parts), "BOUND": str(m["bound"][tier == "thorough"])}
    env.update({k: dump(k, v) for k, v in {**m.get("files", {}), **(m.get("more", {}) if tier == "thorough" else {})}.items()})
    env.update(m.get("env", {}))
    open(emit, "w").close()
    rc, out = tlc.run(m["module"] + ".tla", m.get("cfg", m["module"] + ".cfg"), env, timeout=m.get("timeout", 700 if tier == "quick" else 6000))
    if rc:
        raise tlc.TLCError(f"model {model}: TLC ended with {rc}: {out[-3000:]}")
    gen, dist = tlc.counts(out)
    beh = []
    with open(emit) as f:
        for line in f:
            beh.append(json.loads(line.strip().strip('"').replace("<<", "[").replace(">>", "]")))
    return beh, dist, gen


def main():
    model, prop, seed, tier, part, parts, out = sys.argv[1:8]
    part, parts = int(part), int(parts)
    m = alphabets.MODELS[model]()
    scratch = tempfile.mkdtemp(prefix="acltk")
    t0 = time.time()
    found, n, events = [], 0, 0
    try:
        beh, states, trans = explore(model, m, tier, part, parts, scratch)
        t1 = time.time()
        batch, size = [], 0

        def judge():
            fails, st = runner.verdicts(prop, batch, scratch)
            for j, acts, ev in batch:
                fs = runner.relevant(prop, acts, fails.get(j, []))
                if fs:
                    found.append({"i": f"{part}-{j}", "fails": fs, "acts": acts})
            return st

        stats = collections.Counter()
        for k, acts in enumerate(m["sessions"](beh, tier) if m.get("tiered") else m["sessions"](beh)):
            ev, e = runner.record(acts, scratch)
            n += 1
            if ev is None:
                found.append({"i": f"{part}-{k}", "acts": acts, "fails": [{"k": 0, "e": "session", "c": "session.time", "i": 0, "x": "an end", "o": e}]})
                break
            events += len(ev)
            batch.append((k, acts, ev))
            size += len(ev)
            if size >= BATCH * 5 or len(batch) >= BATCH:
                stats.update(judge())
                batch, size = [], 0
                if found:
                    break
        if batch:
            stats.update(judge())
        r = {"model": model, "bounds": m["bounds"] + f", length {m['bound'][tier == 'thorough']}" if m.get("bounds") else "", "states": states,
             "transitions": trans, "behaviours": len(beh), "replayed": n, "exhaustive": not found, "found": found, "stats": stats,
             "kinds": {"model events": events}, "model_s": round(t1 - t0, 1), "part": f"{part + 1}/{parts}"}
        with open(out + ".tmp", "w") as f:
            json.dump(r, f)
        os.rename(out + ".tmp", out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
