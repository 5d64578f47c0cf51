"""Rewrites the generated tables of DESIGN.md: the models, and the planted bugs with what caught them (seeded/caught.txt)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))


def models():
    import alphabets

    out = ["| property | model | module | depth quick/thorough | what is enumerated |", "|---|---|---|---|---|"]
    for p, ms in sorted(alphabets.USES.items()):
        for m in ms:
            x = alphabets.MODELS[m]()
            out.append(f"| {p} | {m} | {x['module']} | {x['bound'][0]}/{x['bound'][1]} | {x.get('bounds', '')} |".replace("|?[]", "?[]"))
    return out


def bugs():
    caught = {}
    with open(os.path.join(HERE, "tools/caught.txt")) as f:
        for line in f:
            w = line.split(" ", 3)
            if len(w) >= 3:
                caught[w[0]] = (w[2].strip(), w[3].strip() if len(w) > 3 else "")
    out = ["| bug | property | needs | caught | clauses |", "|---|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        c = caught.get(i, ("not run", ""))
        cl = re.sub(r"^C\d+\(|\)$", "", c[1])
        out.append(f"| {i} | {m['property']} | {m['needs']} | {c[0].lower()} | {cl} |")
    return out


def main():
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    for k, f in (("models", models), ("bugs", bugs)):
        a, b = f"<!-- {k} -->\n", f"<!-- /{k} -->"
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n".join(f()) + "\n" + s[j:]
    open(p, "w").write(s)


main()
