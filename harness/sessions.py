"""Sessions: sequences of actions on the real code, one profile per property.

A profile is a function of a random source which returns the actions of one
session; CLAUSES names the clauses of Trace.tla which decide the property.
"""
import random
import re

import noise
from gen_caf import Caf
from gen_cisco import Asa, Ios
from gen_pf import Pf
from vals import *

GEN = {"asa": Asa, "ios": Ios, "pfsense": Pf}


class Cfg:
    """a generated configuration"""

    def __init__(self, r, dia, opt=None, want=None):
        opt = dict(opt or {})
        for _ in range(40):
            self.g = GEN[dia](r, opt)
            self.cmds = self.g.build()[0]
            if want is None or want(self):
                break
        self.r, self.dia = r, dia
        self.pool = self.g.pool
        ids = [c["id"] for c in self.cmds if c["c"] == "acl"]
        if dia == "pfsense":
            ids = ["floating"] + [c["alias"] for c in self.cmds if c["c"] == "pfif"] + [c["desc"] for c in self.cmds if c["c"] == "pfif"]
        self.ids = sorted({i for i in ids if i})
        self.nofetch = dia == "pfsense" and not self.g.opt["fetch"]
        self.tables = self.g.files if dia == "pfsense" else {}

    def text(self, crlf=False, final=True):
        return self.g.render(crlf=crlf, final=final)

    def load(self, s=0, **kw):
        t = kw.pop("text", None) or self.text()
        return {"a": "load", "s": s, "dia": self.dia, "cmds": self.cmds, "text": t, "nofetch": self.nofetch, **({"tables": self.tables} if self.tables else {}), **kw}

    def groups(self, kinds=("ngrp", "sgrp", "pgrp", "igrp", "rgrp")):
        l = [(c["k"], c["n"]) for c in self.cmds if c["c"] in ("grp", "pfalias") and c["k"] in kinds]
        return sorted(set(l))

    def counts(self):
        """an upper bound of the rules and the NAT rules per section"""
        n = sum(1 for c in self.cmds if c["c"] == "pfrule")
        n += sum(1 for c in self.cmds if c["c"] == "acl" for l in c["lines"] if l["t"] == "rule")
        nats = {1: 0, 2: 0, 3: 0}
        for c in self.cmds:
            if c["c"] == "nat":
                nats[3 if c["pos"] else 1] += 1
            if c["c"] == "nobj" and c["nat"]["t"] == "nat":
                nats[2] += 1
        return n, nats


def flt(cfg, s=0, opt=None, caf=None, toks=None, **kw):
    c = caf or Caf(cfg.r, cfg.pool, cfg.ids, opt)
    toks = toks if toks is not None else c.tokens()
    return {"a": "filter", "s": s, "text": c.render(toks), "f": c.strip(toks), **kw}


def dialect(r, asa=5, ios=3, pf=2):
    return r.choices(["asa", "ios", "pfsense"], [asa, ios, pf])[0]


def one_set(c, lines=(1, 2, 3), idp=0.0):
    """the tokens of one set of ip lines"""
    r = c.r
    toks = []
    if r.random() < idp:
        s = c.idpat()
        toks.append({"k": "id", "s": codes(s), "t": s})
    for _ in range(r.choice(lines)):
        toks.append({"k": "ip", "d": r.choice(["src", "dst"]), "n": [c.crit() for _ in range(r.choice([1, 1, 1, 2]))]})
    return toks


def c01(r, big):
    cfg = Cfg(r, dialect(r), dict(wts=dict(nat=0, sobj=0.2, sgrp=0.3, pgrp=0.3, igrp=0, rgrp=0.1, time=0, if_=0, agrp=0, misc=0,
                                           nobj=3, ngrp=3, acl=8, named=5, num=4, route=0), n=(5, 14), bases=1))
    acts = [cfg.load()]
    for _ in range(16 if big else 10):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0, any=0.15, comments=0.02))
        acts.append(flt(cfg, caf=c, toks=one_set(c, (1, 1, 1, 2))))
    return acts


def c02(r, big):
    cfg = Cfg(r, dialect(r, 5, 2, 4), dict(wts=dict(nat=0, sobj=0.1, sgrp=0.1, pgrp=0.1, igrp=0, rgrp=0.1, time=0, if_=0, agrp=0,
                                                    misc=0, nobj=3, ngrp=4, acl=8, named=4, num=4, v6=3, route=0), anybias=0.6))
    acts = [cfg.load()]
    g = [x for x in cfg.groups() if x[0] == "ngrp"]
    steps = g and r.random() < 0.4  # some of the groups are expanded meanwhile
    for _ in range(10):
        if steps and r.random() < 0.4:
            k, n = r.choice(g)
            acts.append({"a": "gop", "s": 0, "op": "expand", "ins": r.random() < 0.8, "k": k, "n": n})
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.75, any=0.1, comments=0.02))
        acts.append(flt(cfg, caf=c, toks=one_set(c, (1, 1, 2, 2, 3))))
    return acts


def c03(r, big):
    cfg = Cfg(r, dialect(r, 5, 3, 1), dict(wts=dict(nat=0, sobj=0, sgrp=0, pgrp=0, igrp=0, rgrp=0, time=0, if_=0, agrp=0, misc=0,
                                                    nobj=0.1, ngrp=0.1, acl=8, route=0), n=(4, 10), acls=6))
    acts = [cfg.load()]
    for _ in range(16):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0, any=0.3, glob=0.6, comments=0.02))
        s = c.idpat()
        toks = [{"k": "id", "s": codes(s), "t": s}] if r.random() < 0.95 else []
        if r.random() < 0.1:
            toks += one_set(c, (1,))
        acts.append(flt(cfg, caf=c, toks=toks))
    return acts


def chain(c, depth, toks):
    """a long chain of operators over small sets"""
    r = c.r
    for k in range(r.choice([2, 3, 3, 4, 5, 6] if depth else [1, 2, 3])):
        if k:
            toks.append({"k": "op", "o": r.choice(["union", "intersect", "except"])})
        if depth and r.random() < 0.3:
            toks.append({"k": "("})
            chain(c, depth - 1, toks)
            toks.append({"k": ")"})
        else:
            toks += one_set(c, (0, 1, 1, 2), 0.4)


def c04(r, big):
    cfg = Cfg(r, dialect(r), dict(wts=dict(misc=0, time=0, igrp=0, rgrp=0, if_=0, agrp=0, route=0, acl=9, named=5, nat=1), n=(6, 12)))
    acts = [cfg.load()]
    for _ in range(14):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.1, any=0.25, comments=0.03, glob=0.4))
        toks = []
        while not toks or len(toks) > 40:
            toks = []
            chain(c, r.choice([0, 1, 2, 3]), toks)
        if r.random() < 0.15:
            c.mutate(toks)
        acts.append(flt(cfg, caf=c, toks=toks))
    return acts


def c05(r, big):
    cfg = Cfg(r, dialect(r), dict(wts=dict(misc=0, time=0, igrp=0, rgrp=0, if_=0, agrp=0, route=0, acl=9, named=5, nat=0.5), n=(6, 12)))
    acts = [cfg.load()]
    for _ in range(5):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.1, any=0.3, comments=0.5))
        toks = []
        c.set(2, toks)
        if r.random() < 0.3:
            toks.append({"k": "op", "o": r.choice(["union", "intersect", "except"])})
            c.set(1, toks)
        acts.append(flt(cfg, caf=c, toks=toks))
        # the same in another layout
        acts.append(flt(cfg, caf=c, toks=toks))
        # the same lines in another order
        i = 1 if toks and toks[0]["k"] == "id" else 0
        j = i
        while j < len(toks) and toks[j]["k"] == "ip":
            j += 1
        if j - i > 1:
            t = toks[i:j]
            r.shuffle(t)
            acts.append(flt(cfg, caf=c, toks=toks[:i] + t + toks[j:]))
    return acts


def c06(r, big):
    cfg = Cfg(r, "asa", dict(wts=dict(acl=14, nat=0.4, if_=0.3, agrp=0.2, time=1), n=(8, 22)))
    return [cfg.load(cls=r.choice(["auto", "asa"]), text=cfg.text(crlf=r.random() < 0.1, final=r.random() < 0.8))]


def c07(r, big):
    cfg = Cfg(r, "ios", dict(wts=dict(named=5, std=2, num=4, numstd=2, v6=3, if_=0.2, route=0.2), n=(8, 18)))
    acts = [cfg.load(cls=r.choice(["auto", "ios"]), text=cfg.text(crlf=r.random() < 0.1, final=r.random() < 0.8))]
    # what the wildcards cover is observed by filters, too
    for _ in range(6):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0, any=0.05, comments=0, v4=0.9))
        acts.append(flt(cfg, caf=c, toks=one_set(c, (1, 1, 2))))
    return acts


def c08(r, big):
    u = r.choice([0, 0, 0.08, 0.15])
    cfg = Cfg(r, r.choice(["asa", "asa", "asa", "ios"]),
              dict(undef=u, similar=0.15, redef=0.35, n=(10, 24), ws=0.1, noise=0.1,
                   wts=dict(name=2.5, nobj=4, ngrp=4, sobj=2, sgrp=2, pgrp=2, igrp=1, rgrp=1, time=1.2, if_=1, acl=8, nat=2, misc=0)))
    acts = [cfg.load()]
    return acts


def c09(r, big):
    k = r.random()
    if k < 0.25:
        opt, want = dict(bad=0.0), None
    else:
        # exactly one value out of bounds
        opt, want = dict(bad=r.choice([0.01, 0.02, 0.05]), n=(2, 7)), (lambda c: c.g.badhits == 1)
    opt["wts"] = dict(misc=0, nobj=3, sobj=2, ngrp=3, pgrp=2, sgrp=2, rgrp=1.5, igrp=1.5, if_=0, agrp=0, acl=6, nat=0.3, time=0)
    opt["noise"] = 0.05
    cfg = Cfg(r, r.choice(["asa", "asa", "ios"]), opt, want)
    return [cfg.load(cls=r.choice(["auto", cfg.dia, cfg.dia]))]


GROUPW = dict(misc=0, time=0.1, if_=0, agrp=0, nat=0.7, nobj=3, ngrp=6, sobj=1.5, sgrp=3, pgrp=3, igrp=2, rgrp=2.5, acl=6, route=0)


def plain_filters(r, cfg, n, lit=0):
    out = []
    for _ in range(n):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=lit, any=0.2, comments=0.02))
        toks = one_set(c, (1, 1, 2), 0.2)
        if r.random() < 0.3:
            toks += [{"k": "op", "o": r.choice(["union", "intersect", "except"])}] + one_set(c, (1, 1, 2), 0.2)
        out.append((c, toks))
    return out


def c10(r, big):
    cfg = Cfg(r, dialect(r, 6, 3, 1), dict(wts=GROUPW, n=(8, 18), maxsize=30, nest=0.5))
    acts = [cfg.load()]
    fs = plain_filters(r, cfg, 4)

    def filters():
        for c, t in fs:
            acts.append(flt(cfg, caf=c, toks=t))

    filters()
    g = cfg.groups()
    for _ in range(r.choice([1, 2, 4])):
        if g:
            k, n = r.choice(g)
            acts.append({"a": "gop", "s": 0, "op": "expand", "ins": r.random() < 0.4, "k": k, "n": n})
            if r.random() < 0.4:
                acts.append({"a": "groups", "s": 0})
    acts.append({"a": "groups", "s": 0})
    filters()
    for _ in range(r.choice([1, 2])):
        acts.append({"a": "expand", "s": 0})
        acts.append({"a": "look", "s": 0})
    filters()
    if g:
        k, n = r.choice(g)
        for ins in (False, True):
            acts.append({"a": "gop", "s": 0, "op": "expand", "ins": ins, "k": k, "n": n})
        acts.append({"a": "groups", "s": 0})
    return acts


def c11(r, big):
    cfg = Cfg(r, dialect(r, 6, 3, 2), dict(wts=dict(GROUPW, acl=3, igrp=0.2), n=(8, 18), maxsize=24, members=(1, 2, 4, 6, 8), nest=0.25))
    acts = [cfg.load()]
    fs = plain_filters(r, cfg, 2)
    g = cfg.groups(("ngrp", "sgrp", "pgrp", "rgrp"))
    for c, t in fs:
        acts.append(flt(cfg, caf=c, toks=t))
    if r.random() < 0.3:
        acts.append({"a": "expand", "s": 0})
    for _ in range(r.choice([3, 5, 8])):
        if g:
            k, n = r.choice(g)
            for _ in range(r.choice([1, 1, 2])):
                acts.append({"a": "gop", "s": 0, "op": "sort", "ins": r.random() < 0.5, "k": k, "n": n})
    acts.append({"a": "groups", "s": 0})
    for c, t in fs:
        acts.append(flt(cfg, caf=c, toks=t))
    return acts


def c12(r, big):
    cfg = Cfg(r, dialect(r, 6, 2, 2), dict(wts=dict(GROUPW, acl=3, igrp=0, sgrp=0, pgrp=0, rgrp=0, sobj=0, nobj=4, ngrp=9, nat=0),
                                           n=(6, 14), maxsize=24, members=(1, 2, 4, 6, 8), nest=0.25, v4=r.choice([0.9, 0.65, 0.1])))
    acts = [cfg.load()]
    g = cfg.groups(("ngrp",))
    fs = plain_filters(r, cfg, 2)
    for _ in range(r.choice([3, 5, 8])):
        if g:
            k, n = r.choice(g)
            if r.random() < 0.35:
                acts.append({"a": "gop", "s": 0, "op": "expand", "ins": True, "k": k, "n": n})
            for _ in range(r.choice([1, 1, 2])):
                acts.append({"a": "gop", "s": 0, "op": "collapse", "ins": r.random() < 0.5, "k": k, "n": n})
            if r.random() < 0.5:
                acts.append({"a": "groups", "s": 0})
    acts.append({"a": "groups", "s": 0})
    for c, t in fs:
        acts.append(flt(cfg, caf=c, toks=t))
    return acts


def selection(r, cfg):
    n, nats = cfg.counts()
    k = r.random()
    R = [] if k < 0.15 else sorted(r.sample(range(1, n + 1), min(n, r.choice([1, 1, 2, 3])))) if n else []
    N = []
    if cfg.dia == "asa" and k < 0.6:
        for s in (1, 2, 3):
            for j in range(1, nats[s] + 1):
                if r.random() < 0.3:
                    N.append([s, j])
    return {"a": "resolve", "s": 0, "r": R, "n": N}


def c13(r, big):
    cfg = Cfg(r, dialect(r, 6, 2, 1), dict(wts=dict(if_=1, agrp=1.5, time=1, nat=2.5, name=1.5, misc=0, acl=8, named=4), n=(10, 20), nest=0.4))
    acts = [cfg.load()]
    for _ in range(8):
        acts.append(selection(r, cfg))
        if r.random() < 0.08:
            acts.append({"a": "expand", "s": 0})
    return acts


NATW = dict(nat=7, nobj=6, ngrp=1.5, sobj=3, if_=1.5, name=0.3, sgrp=0, pgrp=0.1, igrp=0, rgrp=0, time=0, agrp=0, misc=0, acl=0.5)


def c14(r, big):
    cfg = Cfg(r, "asa", dict(wts=NATW, n=(12, 26), objnat=0.6, redef=0.3, noise=0.1, v4=0.75))
    return [cfg.load(cls=r.choice(["auto", "asa"]))]


def c15(r, big):
    cfg = Cfg(r, "asa", dict(wts=NATW, n=(10, 20), objnat=0.5, redef=0.25, noise=0.05))
    acts = [cfg.load()]
    for _ in range(12):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.08, any=0.12, comments=0.02, id=0.15))
        toks = one_set(c, (0, 1, 1, 2, 2, 3), 0.1)
        if r.random() < 0.25:
            toks += [{"k": "op", "o": r.choice(["union", "intersect", "except"])}] + one_set(c, (1, 1, 2), 0.1)
        acts.append(flt(cfg, caf=c, toks=toks))
    if r.random() < 0.2:
        acts.append({"a": "expand", "s": 0})
        for a in list(acts[1:5]):
            if not any(n["k"].startswith("ANY") for t in a["f"] if t["k"] == "ip" for n in t["n"]):
                acts.append(dict(a))
    return acts


def c16(r, big):
    cfg = Cfg(r, r.choice(["asa", "ios"]), dict(wts=dict(if_=7, agrp=5, route=5, acl=1.5, nat=0, named=1, num=0.5, numstd=0.5, v6=0.5, std=0.5),
                                                n=(10, 22), noise=0.15))
    return [cfg.load(text=cfg.text(crlf=r.random() < 0.15, final=r.random() < 0.8))]


def c17(r, big):
    k = r.random()
    opt = dict(n=(2, 12), seps=0.6)
    if k < 0.12:
        opt["undef"] = 0.06
    elif k < 0.25:
        opt["bad"] = 0.06
    cfg = Cfg(r, "pfsense", opt)
    acts = [cfg.load(cls=r.choice(["auto", "pfsense"]))]
    for _ in range(3):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.1, any=0.1, comments=0))
        acts.append(flt(cfg, caf=c, toks=one_set(c, (1, 1, 2), 0.4)))
    return acts


def c18(r, big):
    """several configurations in any interleaving, some of them rejected, with shared filters and threads"""
    dias = [dialect(r, 5, 3, 2) for _ in range(3)]
    if r.random() < 0.5:
        dias[1] = dias[0]
    cfgs = []
    for d in dias:
        o = dict(n=(4, 9), similar=0.05, wts=dict(misc=0, acl=5))
        if r.random() < 0.2:
            o["bad"] = 0.05
        if r.random() < 0.2:
            o["undef"] = 0.1
        cfgs.append(Cfg(r, d, o))
    texts = [c.text() for c in cfgs]
    which = {}  # slot -> configuration
    acts = []
    fpool = []
    for c in cfgs:
        for _ in range(2):
            k = Caf(r, c.pool, c.ids, dict(lit=0.1, any=0.2, comments=0.05, badtok=0.08))
            t = k.tokens()
            fpool.append((k.render(t), k.strip(t)))

    def load(s, par=False):
        i = r.randrange(3)
        which[s] = i
        return cfgs[i].load(s, text=texts[i], **({} if par else {"cls": r.choice(["auto", cfgs[i].dia])}))

    def filt(s):
        text, f = r.choice(fpool)
        return {"a": "filter", "s": s, "text": text, "f": f, "reuse": r.random() < 0.7}

    for s in range(2):
        acts.append(load(s))
    for _ in range(r.choice([10, 14, 18])):
        s = r.randrange(3)
        k = r.random()
        if s not in which or k < 0.15:
            acts.append(load(s))
        elif k < 0.5:
            acts.append(filt(s))
        elif k < 0.6:
            sel = selection(r, cfgs[which[s]])
            sel["s"] = s
            acts += [sel] * r.choice([1, 2])
        elif k < 0.75:
            acts.append({"a": "look", "s": s})
        elif k < 0.82:
            g = cfgs[which[s]].groups()
            if g:
                kind, n = r.choice(g)
                op = r.choice(["expand", "sort", "collapse"] if kind == "ngrp" else ["expand", "sort"] if kind != "igrp" else ["expand"])
                acts.append({"a": "gop", "s": s, "op": op, "ins": r.random() < 0.3, "k": kind, "n": n})
        elif k < 0.86:
            acts.append({"a": "expand", "s": s})
        else:
            par = [filt(x) for x in list(which) for _ in range(2)]
            if 2 not in which or r.random() < 0.5:
                for x in (3, 4, 5)[: r.choice([1, 2, 3])]:
                    i = r.randrange(3)
                    par.append(cfgs[i].load(x, text=texts[i]))
            acts.append({"a": "par", "acts": par})
    for s in sorted(which):
        acts.append({"a": "look", "s": s})
    return acts


JUNK = ["hello world\n", "<xml/>\n", "<pfsense>\n", "access-list a extended permit\n", "access-list a extended permit ip any\n",
        "access-list a extended permit ip any any bogus\n", "access-list 100 permit ip any\n", "interface\n", "object network\n host 1.2.3\n",
        "<opnsense><filter><rule></filter></opnsense>", "<?xml version='1.0'?><config/>", "\x00\x01", "access-list a extended allow ip any any\n",
        "object-group network x\n network-object bogus\n", "ip access-list extended a\n permit ip any any any\n"]


def c19(r, big):
    k = r.random()
    if k < 0.12:
        return [junk(r)]
    cfg = Cfg(r, dialect(r, 4, 4, 3), dict(n=(3, 9), marker=True))
    text = cfg.text()
    acts = [cfg.load(text=text, cls=r.choice(["auto", "auto", cfg.dia]))]
    for _ in range(3):
        via = r.choice(["string", "file", "path"])
        v = dict(via=via, bom=via != "string" and r.random() < 0.5, cls=r.choice(["auto", cfg.dia]), options=r.choice(["", "common", "trace"]))
        t = cfg.text(crlf=r.random() < 0.5, final=r.random() < 0.5)
        acts.append({**cfg.load(text=t), "a": "same", **v})
    c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.1, any=0.2, comments=0.2))
    toks = c.tokens()
    text = c.render(toks)
    for via in ("string", "file", "path"):
        for bom in (False, True)[: 1 if via == "string" else 2]:
            t = text if r.random() < 0.5 else text.replace("\r\n", "\n").replace("\n", "\r\n")
            if r.random() < 0.5:
                t = t.rstrip() + r.choice(["", "\n", "\r\n"])
            acts.append({"a": "filter", "s": 0, "text": t, "f": c.strip(toks), "via": via, "bom": bom})
    if r.random() < 0.3:
        acts.append(junk(r, cfg))
    return acts


def junk(r, cfg=None):
    if cfg is not None and cfg.dia != "pfsense":
        # a line which belongs to no dialect somewhere in a valid configuration
        lines = [l for b in cfg.g.blocks for l in b]
        bad = r.choice([l for l in JUNK if l.startswith(("access-list", "object-group network", "ip access-list"))])
        if cfg.dia == "asa" and bad.startswith("ip "):
            bad = JUNK[5]
        if cfg.dia == "ios" and "extended" in bad and not bad.startswith("ip "):
            bad = "access-list 100 permit ip any\n"
        starts = [i for i, l in enumerate(lines) if l and l[0] != " "] or [0]
        i = r.choice(starts)
        t = "\n".join(lines[:i]) + ("\n" if i else "") + bad + "\n".join(lines[i:]) + "\n"
    elif cfg is not None:
        t = cfg.text()
        t = t[: r.randrange(len(t) * 3 // 4)]
    else:
        t = r.choice(JUNK)
    return {"a": "load", "s": 9, "dia": "asa", "cmds": [{"c": "junk"}], "text": t, "via": r.choice(["string", "file"])}


def c20(r, big):
    k = r.choice(["asa", "asa", "ios"])
    cfg = Cfg(r, k, dict(wts=dict(name=2, nobj=5, ngrp=4, sobj=3, sgrp=4, pgrp=4, igrp=2, rgrp=2, time=2.5, if_=0.1, agrp=0, nat=0.5, acl=1,
                                  named=1, num=0.5, v6=0.3), n=(10, 24), objnat=0.15, noise=0.2))
    return [cfg.load(cls=r.choice(["auto", k]), text=cfg.text(crlf=r.random() < 0.1, final=r.random() < 0.8))]


def hand_term(r, cfg, pool):
    """a term made by hand, of an address or an object or a group of the configuration"""
    k = r.random()
    if k < 0.12:
        return {"t": r.choice(["any", "any4", "any6"])}
    if k < 0.15:
        return {"t": "if", "n": "inside"}
    if k < 0.35:
        v, a = pool.host()
        return {"t": "host", "a": A(v, a)}
    if k < 0.55:
        v, b, n = pool.net()
        return {"t": "net", "a": A(v, b), "p": n, "m": NOADDR}
    if k < 0.65:
        v, a = pool.host(4)
        w = r.choice([0, 255, 1 << r.randrange(32), r.getrandbits(32) & r.getrandbits(32), r.getrandbits(32), 0xFFFFFFFF ^ r.getrandbits(32) & r.getrandbits(32)])
        return {"t": "wild", "a": A(4, a), "w": A(4, w)}
    l = [("obj", c["n"]) for c in cfg.cmds if c["c"] == "nobj"] + [("grp", n) for _, n in cfg.groups(("ngrp",))]
    if not l:
        return {"t": "any"}
    t, n = r.choice(l)
    return {"t": t, "n": n}


def c21(r, big):
    cfg = Cfg(r, dialect(r), dict(wts=dict(nat=1.5, sobj=0.2, sgrp=0.2, pgrp=0.2, igrp=0, rgrp=0.1, time=0, if_=0.5, agrp=0, misc=0,
                                           nobj=3, ngrp=4, acl=8, named=6, num=5, route=0), n=(7, 16), bases=1, objnat=0.3))
    n, _ = cfg.counts()
    acts = [cfg.load()]

    def q():
        if n and r.random() < 0.45:
            return {"k": "rule", "i": r.randint(1, n)}
        s = ""
        if r.random() < 0.3:
            s = Caf(r, cfg.pool, cfg.ids, dict(glob=0.4)).idpat()
        any_ = {"t": "any"}
        k = r.random()
        return {"k": "set", "id": codes(s), "src": hand_term(r, cfg, cfg.pool) if k < 0.7 else any_, "dst": hand_term(r, cfg, cfg.pool) if k > 0.3 else any_}

    for _ in range(14 if big else 10):
        m = r.choice([1, 1, 1, 2, 3])
        via = r.choice(["rules", "caf"])
        acts.append({"a": "hand", "s": 0, "via": via, "q": [q() for _ in range(m)],
                     "ops": [r.choice(["union", "intersect", "except"]) if via == "caf" else "union" for _ in range(m - 1)]})
    if r.random() < 0.3:
        acts.append({"a": "expand", "s": 0})
        acts += [dict(x) for x in acts[1:5]]
    return acts


def c22(r, big):
    """copies and stored configurations go on as the original ones, on their own"""
    dia = dialect(r, 5, 3, 2)
    cfg = Cfg(r, dia, dict(n=(6, 14)))
    acts = [cfg.load()]
    have = [0]
    fs = []
    for _ in range(3):
        c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.1, any=0.2, comments=0.02))
        t = c.tokens()
        fs.append((c.render(t), c.strip(t)))
    g = cfg.groups()
    for _ in range(r.choice([6, 9, 12])):
        s = r.choice(have)
        k = r.random()
        if k < 0.3 or len(have) == 1 and k < 0.6:
            t = r.randrange(3)
            acts.append({"a": "copy", "s": s, "t": t, "how": r.choice(["deepcopy", "pickle"])})
            have = sorted({*have, t})
        elif k < 0.5:
            x, f = r.choice(fs)
            acts.append({"a": "filter", "s": s, "text": x, "f": f, "stored": r.choice(["", "pickle", "deepcopy"])})
        elif k < 0.6:
            acts.append({**selection(r, cfg), "s": s})
        elif k < 0.8 and g:
            kind, n = r.choice(g)
            op = r.choice(["expand", "sort", "collapse"] if kind == "ngrp" else ["expand", "sort"] if kind != "igrp" else ["expand"])
            acts.append({"a": "gop", "s": s, "op": op, "ins": r.random() < 0.7, "k": kind, "n": n})
        elif k < 0.87:
            acts.append({"a": "expand", "s": s})
        else:
            acts.append({"a": "look", "s": s})
    for s in have:
        acts.append({"a": "look", "s": s})
        x, f = r.choice(fs)
        acts.append({"a": "filter", "s": s, "text": x, "f": f})
    return acts


def c23(r, big):
    """URL tables: fetched or not"""
    acts = []
    for s in range(2):
        fetch = r.random() < 0.7
        cfg = Cfg(r, "pfsense", dict(n=(1, 4), seps=0, tables=0.7, fetch=fetch))
        acts.append(cfg.load(s, cls=r.choice(["auto", "pfsense"]), options=r.choice(["", "pf", "common", "trace"]), via=r.choice(["string", "file", "path"])))
        for _ in range(2):
            c = Caf(r, cfg.pool, cfg.ids, dict(lit=0.15, any=0.1, comments=0))
            acts.append(flt(cfg, s, caf=c, toks=one_set(c, (1, 1, 2))))
        if r.random() < 0.3:
            acts += [{"a": "expand", "s": s}, {"a": "look", "s": s}]
        # the same text, fetched another time or not
        if r.random() < 0.5:
            other = [{**c, "u": "off", "m": []} if c["c"] == "pfalias" and c["u"] else c for c in cfg.cmds]
            acts.append({**cfg.load(s + 2), "cmds": other, "nofetch": True})
    return acts


PRINT = "".join(chr(k) for k in range(32, 127)) + "\t\xe4\u20ac"


def c24(r, big):
    """commands which are ignored, between those which are not"""
    dia = dialect(r, 1, 1, 0)
    cfg = Cfg(r, dia, dict(noise=0, n=(4, 12), nat=0.3, wts=dict(misc=0)))
    parts = [x for x in zip(cfg.cmds, cfg.g.blocks) if x[0]["c"] != "noise"]
    forms = list(noise.commands(dia))
    plain = "".join(l + "\n" for _, ls in parts for l in ls)
    acts = [{**cfg.load(text=plain), "cmds": [c for c, _ in parts], "cls": dia}]
    for _ in range(4 if big else 3):
        lines, cmds = [], []
        for k, (c, ls) in enumerate(parts):
            cmds.append(c)
            lines += ls
            # remarks belong to the line behind them
            if c["c"] == "acl" and not c["blk"] and c["lines"][-1]["t"] == "remark" or r.random() < 0.6:
                continue
            for _ in range(r.choice([1, 1, 2, 4])):
                cmds.append({"c": "noise"})
                lines += odd(r, *r.choice(forms))
        if r.random() < 0.3:
            lines = odd(r, *r.choice(forms)) + lines
            cmds = [{"c": "noise"}] + cmds
        text = "".join(l + "\n" for l in lines)
        acts.append({**cfg.load(text=text), "a": "same", "cmds": cmds, "cls": dia, "via": r.choice(["string", "file", "path"])})
    return acts


def odd(r, key, lines):
    """other arguments, more lines of the body, spaces at the end"""
    x = list(lines)
    if key == "banner" or r.random() < 0.4:
        return x
    bare = x[0] == key
    # blank lines end it
    blanks = [l for l in x[1:] if l == ""]
    x = x[:1] + [l for l in x[1:] if l != ""]
    if key and not bare and r.random() < 0.5:
        x[0] = x[0] + "".join(r.choice(PRINT) for _ in range(r.choice([1, 5, 30])))
    for j in range(1, len(x)):
        if r.random() < 0.3:
            x[j] = " " * r.choice([1, 2, 3]) + "".join(r.choice(PRINT) for _ in range(r.choice([1, 5, 30])))
    if len(x) > 1 and r.random() < 0.3:
        x += [" " + l.strip() for l in x] * r.choice([1, 3])
    return x + blanks


def c25(r, big):
    """what the configuration says of its device, among texts which look alike; two configurations at a time"""
    acts = []
    for s in range(2):
        cfg = Cfg(r, dialect(r, 4, 4, 3), dict(ver=0.35, noise=1.5, n=(5, 12), nat=0.2, wts=dict(misc=9, if_=1.5, ngrp=1, nobj=1)))
        acts.append(cfg.load(s, cls=r.choice(["auto", cfg.dia, cfg.dia]), via=r.choice(["string", "file", "path"])))
        if cfg.dia != "pfsense":
            lines = [l for b in cfg.g.blocks for l in b]
            forms = list(noise.commands(cfg.dia))
            cut = [k for k, l in enumerate(lines) if k == 0 or not l.startswith(" ") and "remark" not in lines[k - 1]]
            for k in sorted(r.sample(cut, min(len(cut), 3)), reverse=True):
                lines[k:k] = odd(r, *r.choice(forms))
            acts.append({**cfg.load(s + 2, text="\n".join(lines) + "\n", cls=cfg.dia), "a": "same"})
        if r.random() < 0.5:
            acts.append({"a": "expand", "s": s})
        acts.append({"a": "look", "s": r.randrange(s + 1)})
    return acts


RULE = ["rules.count", "rule.id", "rule.mode", "rule.proto", "rule.src", "rule.sport", "rule.dst", "rule.dport", "rule.icmp", "rule.opts", "rule.rem"]
GRP = ["grp.network", "grp.service", "grp.port", "grp.icmp", "grp.protocol"]
OBJ = ["obj.network", "obj.service", "obj.time"]
NAT = ["nat.count", "nat.if", "nat.type", "nat.real", "nat.mapped", "nat.fb", "nat.rsvc", "nat.msvc", "nat.desc", "nat.opts"]
IF = ["ifs.count", "if.alias", "if.nameif", "if.desc", "if.addrs", "if.mode", "if.vlans", "if.ags", "if.routes", "agrp", "routes.count", "route"]
LOOK = ["look." + x for x in ["cfg.host", "cfg.name", "cfg.ver", "rule.head", "names"] + RULE + GRP + OBJ + NAT + IF]
ACCEPT = ["load.accept"]
SEL = ["filter.rules", "filter.run"]

PROFILES = {
    "C01": (c01, SEL),
    "C02": (c02, SEL),
    "C03": (c03, SEL + ["caf.accept"]),
    "C04": (c04, SEL + ["filter.nats", "caf.accept", "caf.reject"]),
    "C05": (c05, SEL + ["filter.nats", "caf.accept"]),
    "C06": (c06, ACCEPT + RULE),
    "C07": (c07, ACCEPT + RULE + SEL),
    "C08": (c08, ["load.accept", "load.reject", "rule.proto", "rule.src", "rule.sport", "rule.dst", "rule.dport", "rule.icmp", "rule.opts"]
            + ["nat.if", "nat.real", "nat.mapped", "nat.fb", "nat.rsvc", "nat.msvc"] + GRP + OBJ),
    "C09": (c09, ["load.accept", "load.reject", "rule.proto", "rule.src", "rule.sport", "rule.dst", "rule.dport", "rule.icmp"] + GRP + OBJ[:2]),
    "C10": (c10, ["expand.run", "gop.expand", "gop.expand.refused", "filter.rules", "filter.nats", "filter.run"] + LOOK),
    "C11": (c11, ["gop.sort.perm", "gop.sort.order", "gop.sort.refused", "filter.rules", "filter.nats", "filter.run"] + LOOK),
    "C12": (c12, ["gop.collapse", "gop.collapse.refused", "gop.collapse.accepted", "filter.rules", "filter.run"] + LOOK),
    "C13": (c13, ["resolve.run", "resolve.missing", "resolve.extra", "resolve.kinds"]),
    "C14": (c14, ACCEPT + NAT),
    "C15": (c15, ["filter.nats", "filter.run"]),
    "C16": (c16, ACCEPT + IF),
    "C17": (c17, ["load.accept", "load.reject", "rule.head"] + RULE + GRP + ["ifs.count", "if.alias", "if.nameif", "if.desc", "if.addrs"] + SEL),
    "C18": (c18, None),
    "C19": (c19, ["load.dialect", "load.reject", "load.accept", "cfg.host", "filter.rules", "filter.nats", "filter.run", "caf.accept", "caf.reject", "same."]),
    "C20": (c20, ACCEPT + OBJ + GRP + ["names"]),
    "C21": (c21, ["hand."]),
    "C23": (c23, ["load.accept", "load.asked", "grp.network", "rules.count", "rule.src", "rule.dst", "filter.rules", "filter.run", "look.grp.network"]),
    "C24": (c24, ["load.accept", "same."]),
    "C25": (c25, ["load.accept", "cfg.host", "cfg.name", "cfg.ver", "same.cfg.host", "same.cfg.name", "same.cfg.ver", "look.cfg.host", "look.cfg.name", "look.cfg.ver"]),
    "C22": (c22, ["copy.", "look.", "filter.", "resolve.", "gop.", "expand."]),
}


def session(prop, seed, i, big=False):
    r = random.Random(f"{prop}.{seed}.{i}")
    return PROFILES[prop][0](r, big)
