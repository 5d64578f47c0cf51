"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = (
    "Every session (generated abstract commands, rendered to text, run through the public API of /repo's working tree) is judged event by "
    "event by TLC against the explicit TLA+ specification: the specification computes the expected projection and names each clause that "
    "differs. The bounded models are explored exhaustively and their behaviours replayed into the code; beyond their bounds the check samples. "
    "Trusted: the renderer from abstract commands to text, the projection of the Python objects, TLC. "
)
EXTRA = {}
m = {
    "version": 1,
    "setup_cmd": f"{PY} tools/setup.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
            "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "TLA+ specification (TLC): trace validation of recorded sessions, exhaustive bounded models replayed into the code",
            "level": "model_checking",
            "level_note": NOTE + EXTRA.get(p["id"], ""),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: the public API exposes the abstract state. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
