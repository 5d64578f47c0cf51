"""Generator of filters: tokens (as in Caf.tla) and their text."""
from vals import *


class Caf:
    def __init__(self, r, pool, ids, opt=None):
        self.r, self.pool, self.ids = r, pool, ids
        self.opt = dict(lit=0.12, any=0.15, id=0.4, badaddr=0.0, badtok=0.0, depth=3, comments=0.3, glob=0.5, v4=0.65)
        self.opt.update(opt or {})

    def p(self, x):
        return self.r.random() < x

    def crit(self):
        r = self.r
        k = r.random()
        if k < self.opt["lit"]:
            return {"k": r.choice(["ANY", "ANY4", "ANY6"])}
        if k < self.opt["lit"] + self.opt["any"]:
            return {"k": r.choice(["any", "any4", "any6"])}
        if self.p(self.opt["badaddr"]):
            if self.p(0.5):
                v, b, n = self.pool.net()
                n = width(v) + r.choice([1, 2, 50])
                return {"k": "net", "a": A(v, b), "p": n, "t": f"{iptext(r, v, b)}/{n}"}
            o = limbs(4, self.pool.host(4)[1])
            o[r.randrange(4)] = r.choice([256, 300])
            return {"k": "host", "a": {"v": 4, "l": o}, "t": ".".join(map(str, o))}
        if self.p(0.5):
            v, a = self.pool.host(self.pool.v(self.opt["v4"]))
            return {"k": "host", "a": A(v, a), "t": iptext(r, v, a)}
        v, b, n = self.pool.net(self.pool.v(self.opt["v4"]))
        return {"k": "net", "a": A(v, b), "p": n, "t": f"{iptext(r, v, b)}{r.choice(['', '', ' '])}/{r.choice(['', '', ' '])}{n}"}

    OPS = ("union", "intersect", "except", "id", "ip", "src", "dst", "any", "ANY")

    def idpat(self):
        r = self.r
        base = r.choice(self.ids) if self.ids and self.p(0.9) else r.choice(["zz", "a", "outside_in"])
        if not all(c.isalnum() or c in "_-." for c in base):
            base = "".join(c if c.isalnum() or c in "_-." else "?" for c in base)
        if not self.p(self.opt["glob"]):
            k = r.randrange(8)
            s = [base, base, base, base + "x", base[:-1] or "x", base.swapcase(), base[:1] + "*", "/" + base][k]
        else:
            def q(c):
                k = r.randrange(8)
                if k == 0:
                    return "?"
                if k == 1:
                    return "*"
                if k == 2 and c.isalpha():
                    return f"[{c}x]"
                if k == 3:
                    return "[!" + r.choice("zq0") + "]"
                if k == 4 and c.islower():
                    return "[a-z]"
                return c

            k = r.randrange(10)
            if k == 0:
                s = "*"
            elif k == 1:
                s = base + "*"
            elif k == 2:
                s = "*" + base
            elif k == 3:
                s = base
            elif k == 4:
                s = base.swapcase()
            elif k == 5:
                s = base[:-1] + "?"
            elif k == 6:
                s = base[: r.randrange(len(base) + 1)] + r.choice(["[", "[!", "[]a]", "[!]a]", "]", "**", "?*"])
            else:
                s = "".join(q(c) for c in base)
            s = "/" + (s or "*") + "/"
        if not s or s in self.OPS:
            s = "zz"
        return s

    def set(self, depth, toks):
        r = self.r
        items = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            items.append({"k": "ip", "d": r.choice(["src", "dst"]), "n": [self.crit() for _ in range(r.choice([1, 1, 1, 2, 3]))]})
        if depth > 0 and self.p(0.3):
            for _ in range(r.choice([1, 1, 2])):
                items.append(None)
        r.shuffle(items)
        if self.p(self.opt["id"]):
            s = self.idpat()
            toks.append({"k": "id", "s": codes(s), "t": s})
        for i in items:
            if i is None:
                toks.append({"k": "("})
                self.expr(depth - 1, toks)
                toks.append({"k": ")"})
            else:
                toks.append(i)

    def expr(self, depth, toks):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4]) if depth else r.choice([1, 1, 2, 3])
        for k in range(n):
            if k:
                toks.append({"k": "op", "o": r.choice(["union", "intersect", "except"])})
            if depth > 0 and self.p(0.25):
                toks.append({"k": "("})
                self.expr(depth - 1, toks)
                toks.append({"k": ")"})
            else:
                self.set(depth, toks)

    def tokens(self):
        toks = []
        while True:
            toks = []
            self.expr(self.r.randrange(self.opt["depth"] + 1), toks)
            if len(toks) <= 24:
                break
        if self.p(self.opt["badtok"]):
            self.mutate(toks)
        return toks

    def mutate(self, toks):
        r = self.r
        i = r.randrange(len(toks) + 1)
        k = r.randrange(7)
        if k == 0:
            toks.insert(i, {"k": r.choice("()")})
        elif k == 1 and toks:
            del toks[i % len(toks)]
        elif k == 2:
            toks.insert(i, {"k": "junk", "t": r.choice([";", "UNION", "and", "or", "ip src", "not", "ip dst foo", ",", "Intersect", "*/", "src", "[", "{ }"])})
        elif k == 3:
            s = self.idpat()
            toks.insert(i, {"k": "id", "s": codes(s), "t": s})
        elif k == 4:
            toks.insert(i, {"k": "op", "o": r.choice(["union", "intersect", "except"])})
        elif k == 5 and len(toks) > 1:
            a, b = r.randrange(len(toks)), r.randrange(len(toks))
            toks[a], toks[b] = toks[b], toks[a]
        else:
            del toks[len(toks) // 2:]

    # -- text
    def comment(self):
        r = self.r
        return "/*" + r.choice([" c ", "", "*", " union ( id x ", "\n line\n * two\n ", " a * b ** c ", " // x ", "**", " / ", " ip src any\n", " ) ", "**/* "[:2]]) + "*/"

    def sep(self):
        r = self.r
        return r.choice([" ", " ", "\n", "\t", "  ", "\n\n", "\r\n", " \n "])

    def render(self, toks, crit_sep=None):
        """comments go where they are allowed: before and behind every item, not inside of id or ip lines"""
        r = self.r
        out = []
        com = self.opt["comments"]
        for t in toks:
            if com and t["k"] != "junk" and self.p(com):
                out.append(self.comment())
            k = t["k"]
            if k == "id":
                out.append("id" + self.sep() + t["t"])
            elif k == "ip":
                out.append("ip" + self.sep() + t["d"] + self.sep() + self.sep().join(n.get("t", n["k"]) for n in t["n"]))
            elif k == "op":
                out.append(t["o"])
            elif k == "junk":
                out.append(t["t"])
            else:
                out.append(k)
        if com and self.p(com):
            out.append(self.comment())
        text = ""
        prev = None
        for x in out:
            if text:
                # parentheses and comments need no space
                tight = x[0] in "()" or prev[-1] in "()" or (prev.startswith("/*") and prev.endswith("*/"))
                text += "" if tight and self.p(0.3) else self.sep()
            text += x
            prev = x
        return self.sep() * self.p(0.2) + text + self.sep() * self.p(0.3)

    @staticmethod
    def strip(toks):
        return [{"k": t["k"], **{f: t[f] for f in ("s", "d", "o") if f in t},
                 **({"n": [{f: n[f] for f in ("k", "a", "p") if f in n} for n in t["n"]]} if "n" in t else {})} for t in toks]
