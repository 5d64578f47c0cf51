"""Replay files: a session whose observations the specification does not allow."""
import json
import os
import shutil
import tempfile

import util


def write(prop, seed, tier, name, x, fails):
    """writes the session of a finding; returns the path"""
    if "acts" in x:
        acts = x["acts"]
    else:
        import sessions

        acts = sessions.session(prop, seed, x["i"], tier == "thorough")
    d = os.path.join(util.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{seed}-{name.split()[0]}-{x['i']}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "seed": seed, "hashseed": os.environ.get("PYTHONHASHSEED", ""), "source": name, "session": x["i"],
                   "fails": fails, "actions": acts}, f, indent=1)
    return p


def main(prop, path):
    import runner

    with open(path) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix="acltk")
    try:
        ev, e = runner.record(d["actions"], scratch)
        if ev is None:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        fails, _ = runner.verdicts(prop, [(0, d["actions"], ev)], scratch)
        fs = runner.relevant(prop, d["actions"], fails.get(0, []))
        for x in fs[:10]:
            print(f"action {x['k']} {x['e']} {x['c']} {x['i']}\n  expected {json.dumps(x['x'])}\n  observed {json.dumps(x['o'])}")
        if fs:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
