"""Generators of ASA and IOS configurations: abstract commands and their text."""
from vals import *

DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "January February March April May June July August September October November December".split()

# families of names which are prefixes, extensions and case variants of each other
NAMES = [
    "web", "web1", "web10", "web-srv", "web.srv", "web_srv", "WEB", "Web", "we", "w",
    "srv", "srv-1", "srv-11", "srv-1-1", "srv.1", "SRV-1", "s", "sr", "db", "db-", "db-a", "db-ab",
    "net10", "net1", "net", "net-10.0.0.0", "n1", "n10", "n100", "dmz", "dmz-net", "dmz_net2",
    "tcp-svc", "tcp", "eq", "x", "x1", "x.1", "x-1", "x_1", "xy", "xyz", "host1", "range1", "object1", "log1",
]
DASHED = ["A+B", "1", "10", "100", "10a", "-", "-a", "a", "a+", "a+b", "0"]


GROUPS = ("ngrp", "sgrp", "pgrp", "igrp", "rgrp")


class Cisco:
    """common parts; commands are (abstract, [lines])"""

    def __init__(self, r, opt=None):
        self.r = r
        self.opt = dict(bad=0.0, undef=0.0, redef=0.15, n=(6, 14), ws=0.3, noise=0.3, wts={}, similar=0.4, share=0.1,
                        v4=0.65, acls=3, members=(0, 1, 1, 2, 3, 4, 6), nest=0.3, anybias=0.0, bases=2)
        self.opt.update(opt or {})
        self.pool = Pool(r, self.opt["bases"])
        self.names = {}  # name -> (v, address)
        self.def_ = {k: [] for k in ("name", "nobj", "ngrp", "sobj", "sgrp", "pgrp", "igrp", "rgrp", "time")}
        self.sobjs = {}
        self.ifs = []  # [alias, nameif]
        self.bound = set()
        self.used = set()
        self.cmds = []
        self.blocks = []
        pool = NAMES[:]
        r.shuffle(pool)
        k = int(len(pool) * self.opt["similar"]) + 6
        self.cands = sorted(pool[:k])
        self.badhits = 0
        self.size = {}  # kind and name -> tokens of the definition

    # -- text helpers
    def ws(self):
        return self.r.choice(["  ", "\t", " \t ", "   "]) if self.r.random() < self.opt["ws"] * 0.3 else " "

    def tws(self):
        return self.r.choice([" ", "\t", "  "]) if self.r.random() < self.opt["ws"] * 0.3 else ""

    def line(self, *toks):
        toks = [t for t in toks if t != ""]
        out = toks[0]
        for t in toks[1:]:
            out += self.ws() + t
        return out

    def p(self, x):
        return self.r.random() < x

    def bad(self):
        if self.p(self.opt["bad"]):
            self.badhits += 1
            return True
        return False

    def undef(self):
        return self.p(self.opt["undef"])

    # -- names
    def fresh(self, kind, ident=False):
        r = self.r
        if self.def_[kind] and self.p(self.opt["redef"]) and kind not in ("sobj", "name", "time"):
            return r.choice(self.def_[kind])
        if self.p(self.opt["share"]):
            n = self.shared(kind)
            if n:
                return n
        for _ in range(100):
            n = r.choice(self.cands)
            if not ident and self.p(0.15):
                n = r.choice(DASHED)
            if self.p(0.25):
                n = n + r.choice(["1", "-b", ".c", "_d", "x", "A", "0"])
            if n not in self.used and n.lower() not in ("any", "host", "interface", "any4", "any6", "object", "eq", "tcp", "-"):
                self.used.add(n)
                return n
        n = f"o{len(self.used)}"
        self.used.add(n)
        return n

    def shared(self, kind):
        """a name which something of another kind has; groups of two kinds cannot be told apart everywhere"""
        if self.dia != "asa":
            return None
        ns = sorted({x for o in self.def_ for x in self.def_[o] if o != kind and not (o in GROUPS and kind in GROUPS)} - set(self.def_.get(kind, ())))
        if kind in ("name", "if"):
            ns = [n for n in ns if n[0].isalpha() and "+" not in n]
        # NAT refers to both without their kind
        ns = [n for n in ns if n not in self.def_.get({"nobj": "ngrp", "ngrp": "nobj"}.get(kind), ())]
        ns = [n for n in ns if kind not in GROUPS or not any(n in self.def_[g] for g in GROUPS)]
        return self.r.choice(ns) if ns else None

    def note(self, kind, n):
        if n not in self.def_[kind]:
            self.def_[kind].append(n)

    def near(self, n):
        """a name which is not defined, but close to one"""
        for _ in range(20):
            k = self.r.randrange(5)
            x = [n + "x", n + "1", n + "-1", n[:-1], n.swapcase()][k]
            if x and x not in self.used and x.lower() not in ("any", "host", "any4", "any6", "interface", "object"):
                return x
        return "undefined-name"

    def ref(self, kind):
        """a name of this kind, defined (or rarely not)"""
        ns = self.def_[kind]
        if ns and not self.undef():
            return self.r.choice(ns)
        if ns and self.opt["undef"]:
            k = self.r.randrange(3)
            if k == 0:
                others = [x for o in self.def_ if o != kind for x in self.def_[o] if x not in ns]
                # the groups of other kinds are only taken where the text is not ambiguous
                if others and kind not in ("sgrp", "pgrp", "rgrp", "ngrp"):
                    return self.r.choice(others)
            return self.near(self.r.choice(ns))
        return None

    def text(self):
        return self.r.choice(["some text", "x", "permit ip any any", "web server  (old)", "hostname evil", "domain-name evil.example", "ip domain name evil", "version 0.1", "ASA Version 0.1(1)", "1.2.3.4 / 24", "access-list a remark b",
                              "#!$ %&", "äöü €", "description of it", "object-group network x", "to be removed: 2012-01-01"])

    # -- values
    def port(self):
        r = self.r
        if self.bad():
            k = r.randrange(3)
            if k == 0:
                s = r.choice(["http-alt", "foo", "wwww", "htt", "sshd"])
                return {"s": s, "i": -2}
            return num(r.choice(["65536", "65537", "70000", "99999", "100000", "655350", "4294967297"]))
        k = r.random()
        if k < 0.25:
            return {"s": r.choice(PORTNAMES), "i": -1}
        if k < 0.5:
            return num(r.choice(["0", "1", "9", "10", "99", "100", "999", "1000", "9999", "10000", "65534", "65535", "080", "443", "22"]))
        return num(str(r.randrange(65536)))

    def portrange(self):
        r = self.r
        if self.bad() and self.p(0.6):
            k = r.randrange(3)
            a = r.randrange(1, 65536)
            if k == 0:
                return num(str(a)), num(str(a))
            if k == 1:
                return num(str(a)), num(str(a - 1))
            return num("1000"), num("999")
        k = r.random()
        if k < 0.15:
            a, b = self.port(), self.port()
            if a["i"] >= 0 and b["i"] >= 0 and a["i"] >= b["i"]:
                a = {"s": "ftp-data", "i": -1}
            return a, b
        if k < 0.5:
            a, b = r.choice([("9", "10"), ("99", "100"), ("5", "10000"), ("999", "1000"), ("0", "65535"), ("0", "1"),
                             ("65534", "65535"), ("8", "80"), ("2", "11"), ("20", "101")])
            return num(a), num(b)
        a, b = sorted(r.sample(range(65536), 2))
        return num(str(a)), num(str(b))

    def portmatch(self, allowgrp=True):
        """acl_port"""
        r = self.r
        k = r.random()
        if allowgrp and k < 0.25:
            n = self.ref("pgrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        if k < 0.5:
            a, b = self.portrange()
            return {"t": "range", "a": a, "b": b}, ["range", a["s"], b["s"]]
        op = r.choice(["eq", "eq", "gt", "lt", "neq"])
        p = self.port()
        return {"t": "op", "op": op, "p": p}, [op, p["s"]]

    NOPORT = {"t": "none"}

    def ic(self):
        """icmp type and code"""
        r = self.r
        if self.p(0.5):
            t = {"s": r.choice(ICMPNAMES), "i": -1}
        elif self.bad():
            t = num(r.choice(["256", "300", "999", "1000"]))
        else:
            t = num(r.choice(["0", "3", "8", "255", str(r.randrange(256))]))
        c, cs = -1, ""
        if self.p(0.4):
            cs = r.choice(["256", "257", "1000"]) if self.bad() else r.choice(["0", "1", "255", str(r.randrange(256))])
            c = int(cs)
        return t, c, cs

    def protonum(self):
        if self.bad():
            return num(self.r.choice(["256", "257", "300", "1000", "99999"]))
        return num(self.r.choice(["0", "1", "6", "17", "58", "254", "255", str(self.r.randrange(256))]))

    def badaddr(self, v):
        r = self.r
        if v == 4:
            o = limbs(4, self.pool.host(4)[1])
            o[r.randrange(4)] = r.choice([256, 257, 300, 999])
            return {"v": 4, "l": o}, ".".join(map(str, o))
        return {"v": 6, "l": [0] * 7 + [70000]}, r.choice(["2001:db8::12345", "1::2::3", "fe80:::1", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7"])

    def addr(self, v=None):
        v = v or self.pool.v(self.opt["v4"])
        if self.bad():
            return self.badaddr(v)
        v, n = self.pool.host(v)
        return A(v, n), iptext(self.r, v, n)

    def badmask(self):
        r = self.r
        while True:
            m = r.choice([0xFF00FF00, 0xFFFF00FF, 0x00FFFF00, 0xFFFFFF01, 0x0F000000, r.getrandbits(32)])
            inv = m ^ 0xFFFFFFFF
            if not ((inv & (inv + 1)) == 0 or (m & (m + 1)) == 0):
                return m

    def netmask(self, n):
        """a mask and its text"""
        if self.bad():
            if self.p(0.3):
                return self.badaddr(4)
            m = self.badmask()
        else:
            m = mask(4, n)
        return A(4, m), ip4text(m)

    def prefix(self, v, n):
        if self.bad():
            n = width(v) + self.r.choice([1, 2, 100])
        return n, str(n)

    def net4(self, t="net"):
        """[abstract], address text, mask text"""
        _, b, n = self.pool.net(4)
        if self.bad() and self.p(0.5):
            a, at = self.badaddr(4)
        else:
            a, at = A(4, b), ip4text(b)
        m, mt = self.netmask(n)
        return {"t": t, "a": a, "p": -1, "m": m}, at, mt

    def net6(self, t="net"):
        _, b, n = self.pool.net(6)
        if self.bad() and self.p(0.5):
            a, at = self.badaddr(6)
        else:
            a, at = A(6, b), ip6text(self.r, b)
        p, pt = self.prefix(6, n)
        return {"t": t, "a": a, "p": p, "m": NOADDR}, at, pt

    # -- groups, common to ASA and IOS
    def description(self):
        d = self.text() if self.p(0.35) else ""
        return d, ([" " + self.line("description", d)] if d else [])

    def group(self, kind):
        r = self.r
        kw = {"ngrp": "network", "sgrp": "service", "pgrp": "service", "igrp": "icmp-type", "rgrp": "protocol"}[kind]
        n = self.fresh(kind)
        d, dl = self.description()
        x = r.choice(["tcp", "udp", "tcp-udp"]) if kind == "pgrp" else ""
        lines = [self.line("object-group", kw, n, x) + self.tws()] + dl
        mem, size = [], 0
        for _ in range(r.choice(self.opt["members"])):
            m, t = getattr(self, "member_" + kind)()
            k = {"grp": kind, "obj": "nobj"}.get(m["t"]) if m is not None else ""
            k = self.size.get((k, m["n"]), 1) if k else 1
            if m is not None and size + k <= self.opt.get("maxsize", 40):
                size += k
                mem.append(m)
                lines.append(" " + t)
        self.note(kind, n)
        self.size[kind, n] = size + 1
        return [({"c": "grp", "k": kind, "n": n, "d": d, "x": x, "m": mem}, lines)]

    def nested(self, kind):
        if self.p(self.opt["nest"]) or self.undef():
            n = self.ref(kind)
            if n is not None:
                return {"t": "grp", "n": n}, self.line("group-object", n)
        return None

    def member_pgrp(self):
        x = self.nested("pgrp")
        if x:
            return x
        if self.p(0.4):
            a, b = self.portrange()
            return {"t": "range", "a": a, "b": b}, self.line("port-object", "range", a["s"], b["s"])
        p = self.port()
        return {"t": "op", "op": "eq", "p": p}, self.line("port-object", "eq", p["s"])

    def member_igrp(self):
        x = self.nested("igrp")
        if x:
            return x
        t, _, _ = self.ic()
        return {"t": "ic", "s": t["s"], "i": t["i"]}, self.line("icmp-object", t["s"])

    def member_rgrp(self):
        x = self.nested("rgrp")
        if x:
            return x
        p = {"s": self.r.choice(PROTONAMES + ["icmp", "icmp6"]), "i": -1} if self.p(0.5) else self.protonum()
        return {"t": "p", "s": p["s"], "i": p["i"]}, self.line("protocol-object", p["s"])

    def svcop(self, kw):
        """source|destination op"""
        if self.p(0.4):
            a, b = self.portrange()
            return {"t": "range", "a": a, "b": b}, [kw, "range", a["s"], b["s"]]
        op = self.r.choice(["eq", "eq", "gt", "lt", "neq"])
        p = self.port()
        return {"t": "op", "op": op, "p": p}, [kw, op, p["s"]]

    def service(self):
        """a service: abstract, words"""
        r = self.r
        k = r.random()
        src = dst = self.NOPORT
        ic = {"s": "", "i": 0, "c": -1, "cs": ""}
        if k < 0.6:
            p = {"s": r.choice(["tcp", "udp", "tcp-udp"]), "i": -1}
            w = [p["s"]]
            if self.p(0.45):
                src, t = self.svcop("source")
                w += t
            if self.p(0.7):
                dst, t = self.svcop("destination")
                w += t
        elif k < 0.8:
            p = {"s": r.choice(["icmp", "icmp6"]), "i": -1}
            w = [p["s"]]
            if self.p(0.7):
                t, c, cs = self.ic()
                ic = {"s": t["s"], "i": t["i"], "c": c, "cs": cs}
                w += [t["s"], cs]
        elif k < 0.9:
            p = {"s": r.choice([x for x in PROTONAMES if x not in ("tcp", "udp")]), "i": -1}
            w = [p["s"]]
        else:
            p = self.protonum()
            w = [p["s"]]
        return {"t": "svc", "p": p, "src": src, "dst": dst, "ic": ic,
                "pc": codes(p["s"]), "itc": codes(ic["s"]), "icc": codes(ic["cs"])}, w

    # -- assembling
    def add(self, items):
        for c, lines in items:
            self.cmds.append(c)
            self.blocks.append(lines)

    def noise(self):
        if self.p(self.opt["noise"]):
            self.add([({"c": "noise"}, self.r.choice(self.NOISE).split("\n"))])

    def build(self):
        lo, hi = self.opt["n"]
        self.start()
        w = dict(self.WEIGHTS)
        w.update({k: v for k, v in self.opt["wts"].items() if k in w})
        kinds = [k for k in w if w[k] > 0 and hasattr(self, "c_" + k)]
        ws = [w[k] for k in kinds]
        for _ in range(self.r.randrange(lo, hi + 1)):
            self.noise()
            k = self.r.choices(kinds, ws)[0]
            x = getattr(self, "c_" + k)()
            if x:
                self.add(x)
        self.finish()
        return self.cmds, self.blocks

    def render(self, crlf=False, final=True):
        lines = [l for b in self.blocks for l in b]
        nl = "\r\n" if crlf else "\n"
        return nl.join(lines) + (nl if final else "")


class Asa(Cisco):
    dia = "asa"
    WEIGHTS = dict(acl=6, name=1.2, nobj=2, sobj=1, ngrp=2, sgrp=1, pgrp=1, igrp=0.6, rgrp=0.6, time=0.6, if_=0.8,
                   agrp=0.6, nat=1.5, misc=0.3)
    NOISE = ["!", "", ": Saved", "pager lines 24", "logging enable x", "mtu outside 1500", "arp timeout 14400", "names",
             "timeout xlate 3:00:00", "aaa-server TACACS protocol tacacs+\n reactivation-mode x", "no failover",
             "crypto ipsec transform-set x\n mode transport", "telnet timeout 5", "ssh timeout 5", "route outside 0.0.0.0 0.0.0.0 10.0.0.1 1",
             "class-map inspection_default\n match default-inspection-traffic", "policy-map global_policy\n class x\n  inspect dns",
             "service-policy global_policy global", "snmp-server enable traps", "icmp unreachable rate-limit 1 burst-size 1",
             "ip local pool x 10.0.0.1-10.0.0.9 mask 255.255.255.0", "username x password y", "Cryptochecksum:abcdef", "ftp mode passive",
             "same-security-traffic permit inter-interface", "dhcpd auto_config outside", "nat-control", "boot system x", "dns-guard"]

    def start(self):
        r = self.r
        if self.p(0.5):
            self.add([({"c": "noise"}, [": Saved"]), self.version()])
        if self.p(0.6):
            v = r.choice(["fw", "fw-1", "asa.local", "f_w", "ciscoasa"])
            self.add([({"c": "hostname", "v": v}, [self.line("hostname", v)])])
        if self.p(0.5):
            v = r.choice(["example.org", "local", "a-b.example"])
            self.add([({"c": "domain", "v": v}, [self.line("domain-name", v)])])
        for _ in range(r.choice([0, 1, 2])):
            self.add(self.c_if_() or [])

    def finish(self):
        # what tells the text from the other dialects
        if self.opt.get("marker", True):
            self.add([self.marker()])

    def marker(self):
        one = {"t": "any"}
        return ({"c": "acl", "blk": False, "id": "zz", "idc": codes("zz"), "lines": [self.rule("permit", {"t": "p", "s": "ip", "i": -1}, one, one)]},
                ["access-list zz extended permit ip any any"])

    def rule(self, mode, proto, src, dst, sport=None, dport=None, icmp=None, opts=()):
        return {"t": "rule", "mode": mode, "proto": proto, "src": src, "sport": sport or self.NOPORT, "dst": dst,
                "dport": dport or self.NOPORT, "icmp": icmp or {"t": "none"}, "opts": list(opts)}

    # -- definitions
    def c_name(self):
        n = self.fresh("name", ident=True)
        if not n[0].isalpha():
            return None
        if self.bad():
            a, t = self.badaddr(self.pool.v())
        else:
            v, x = self.pool.host()
            a, t = A(v, x), iptext(self.r, v, x)
        d = self.text() if self.p(0.3) else ""
        self.note("name", n)
        self.names[n] = a["v"]
        return [({"c": "name", "n": n, "a": a, "d": d}, [self.line("name", t, n) + ((self.ws() + "description " + d) if d else "")])]

    def c_nobj(self):
        r = self.r
        n = self.fresh("nobj")
        if n in self.def_["nobj"]:
            return self.nobj_again(n)
        lines = [self.line("object", "network", n)]
        k = r.randrange(12)
        nat = {"t": "none"}
        d = ""
        if k == 0:
            b = {"t": "none"}
        elif k <= 4:
            a, t = self.addr()
            b = {"t": "host", "a": a}
            lines.append(" " + self.line("host", t))
        elif k <= 6:
            b, at, mt = self.net4("subnet")
            lines.append(" " + self.line("subnet", at, mt))
        elif k == 7:
            b, at, pt = self.net6("subnet")
            lines.append(" " + self.line("subnet", at + "/" + pt))
        elif k <= 9:
            b, t = self.range_()
            lines.append(" " + t)
        else:
            lim = r.choice(["", "v4", "v6"])
            b = {"t": "fqdn", "lim": lim}
            lines.append(" " + self.line("fqdn", lim, r.choice(["www.example.org", "a.b", "x"])))
        if b["t"] == "range":
            self.size["nobj", n] = self.rangesize(b)
        if b["t"] != "none":
            if self.p(self.opt.get("objnat", 0.25)):
                # its own name is not defined yet
                x = self.objnat()
                if x:
                    nat, t = x
                    lines.append(" " + t)
        if self.p(0.3):
            d = self.text()
            lines.append(" " + self.line("description", d))
        self.note("nobj", n)
        return [({"c": "nobj", "n": n, "d": d, "b": b, "nat": nat}, lines)]

    def nobj_again(self, n):
        """as written by 'show running-config': the NAT of an object in a block of its own"""
        x = self.objnat()
        if not x:
            return None
        return [({"c": "nobj", "n": n, "d": "", "b": {"t": "none"}, "nat": x[0]}, [self.line("object", "network", n), " " + x[1]])]

    @staticmethod
    def rangesize(b):
        def addr(a):
            x = 0
            for l in a["l"]:
                x = x << (8 if a["v"] == 4 else 16) | l
            return ipaddress.ip_address(x) if a["v"] == 4 else ipaddress.IPv6Address(x)

        try:
            return len(list(ipaddress.summarize_address_range(addr(b["a"]), addr(b["b"]))))
        except (ValueError, TypeError):
            return 1

    def range_(self):
        r = self.r
        v = self.pool.v()
        v, a = self.pool.host(v)
        _, b = self.pool.host(v)
        if v == 6 and abs(a - b) >> 40:  # keep the number of prefixes small enough to read
            b = min(a + r.getrandbits(r.randrange(1, self.opt.get("rangebits", 14))), (1 << 128) - 1)
        a, b = min(a, b), max(a, b)
        if self.p(0.2):
            b = min(a + r.randrange(4), (1 << width(v)) - 1)
        at, bt = iptext(r, v, a), iptext(r, v, b)
        A_, B_ = A(v, a), A(v, b)
        if self.bad():
            if a != b:
                A_, B_, at, bt = B_, A_, bt, at
            else:
                A_, at = self.badaddr(v)
        return {"t": "range", "a": A_, "b": B_}, self.line("range", at, bt)

    def natif(self):
        """interfaces of a NAT rule: names and text"""
        ns = [i[1] or i[0] for i in self.ifs if (i[1] or i[0]).isidentifier() or True]
        ns = [n for n in ns if "/" not in n or True]
        r = self.r

        def one():
            if not ns or self.p(0.2):
                return "any"
            if self.undef():
                return self.near(r.choice(ns))
            return r.choice(ns)

        a, b = one(), one()
        return a, b, f"({a},{b})"

    def ngref(self):
        """object or group"""
        k = self.r.choice(["nobj", "nobj", "ngrp"])
        n = self.ref(k)
        if n is None:
            n = self.ref("nobj") or self.ref("ngrp")
        return n

    def fb(self):
        k = self.r.random()
        if k < 0.2:
            return "interface", ["interface"]
        if k < 0.35:
            return "ipv6", ["interface", "ipv6"]
        return "", []

    def objnat(self):
        r = self.r
        ri, mi, it = self.natif()
        ty = r.choice(["static", "static", "dynamic"])
        w = ["nat", it, ty]
        fb = ""
        ms = None
        k = r.randrange(6)
        if k == 0:
            ms = {"t": "interface"}
            w.append("interface")
            if self.p(0.3):
                w.append("ipv6")
        elif k <= 2:
            a, t = self.addr()
            if a["v"] == 6 and self.p(0.4):
                p, pt = self.prefix(6, r.choice([64, 96, 128, 0]))
                ms = {"t": "net", "a": a, "p": p, "m": NOADDR}
                w.append(t + "/" + pt)
            else:
                ms = {"t": "host", "a": a}
                w.append(t)
        else:
            n = self.ngref()
            if n is None:
                return None
            ms = {"t": "ref", "n": n}
            if self.p(0.25):
                # a pool is a group or an object
                ms = {"t": "poolref", "n": n}
                w.append("pat-pool")
            w.append(n)
            if ms["t"] == "poolref":
                for o in ("round-robin", "extended", "flat"):
                    if self.p(0.25):
                        w.append(o)
                ms["t"] = "ref"
        if k > 0:
            fb, t = self.fb()
            w += t
        svc, opts = [], []
        if ty == "static":
            if self.p(0.4):
                p = r.choice(["tcp", "udp"])
                a, b = self.port(), self.port()
                svc = [{"s": p, "i": -1}, a, b]
                w += ["service", p, a["s"], b["s"]]
            elif self.p(0.2):
                w += ["dns"]
                opts.append("dns")
        for o in ("route-lookup", "no-proxy-arp") + (("dns",) if ty == "dynamic" else ()):
            if self.p(0.2):
                opts.append(o)
                w.append(o)
        return {"t": "nat", "ri": ri, "mi": mi, "ty": ty, "ms": ms, "fb": fb, "svc": svc, "opts": opts}, self.line(*w) + self.tws()

    def c_sobj(self):
        n = self.fresh("sobj")
        s, w = self.service()
        d = self.text() if self.p(0.25) else ""
        lines = [self.line("object", "service", n), " " + self.line("service", *w)]
        if d:
            lines.append(" " + self.line("description", d))
        self.note("sobj", n)
        self.sobjs[n] = s
        return [({"c": "sobj", "n": n, "d": d, "s": s}, lines)]

    def member_ngrp(self):
        x = self.nested("ngrp")
        if x:
            return x
        k = self.r.randrange(10)
        if k < 3:
            n = self.ref("nobj")
            if n is not None:
                return {"t": "obj", "n": n}, self.line("network-object", "object", n)
        if k == 3:
            n = self.ref("name")
            if n is not None:
                return {"t": "nhost", "n": n}, self.line("network-object", "host", n)
        if k == 4:
            n = self.ref("name")
            if n is not None:
                return self.nnet(n, ["network-object"])
        if k < 7:
            a, t = self.addr()
            return {"t": "host", "a": a}, self.line("network-object", "host", t)
        if k == 7:
            j, at, pt = self.net6()
            return j, self.line("network-object", at + "/" + pt)
        j, at, mt = self.net4()
        return j, self.line("network-object", at, mt)

    def nnet(self, n, pre):
        v = self.names.get(n, 4)
        nb = self.r.choice([0, 8, 16, 24, 25, 31, 32])
        if v == 6 or self.p(0.3):
            p, pt = self.prefix(v, nb if v == 4 else nb * 4)
            return {"t": "nnet", "n": n, "p": p, "m": NOADDR}, self.line(*pre, n + "/" + pt)
        m, mt = self.netmask(nb)
        return {"t": "nnet", "n": n, "p": -1, "m": m}, self.line(*pre, n, mt)

    def member_sgrp(self):
        x = self.nested("sgrp")
        if x:
            return x
        if self.p(0.25):
            n = self.ref("sobj")
            if n is not None:
                return {"t": "sobj", "n": n}, self.line("service-object", "object", n)
        s, w = self.service()
        return s, self.line("service-object", *w)

    def c_ngrp(self):
        return self.group("ngrp")

    def c_sgrp(self):
        return self.group("sgrp")

    def c_pgrp(self):
        return self.group("pgrp")

    def c_igrp(self):
        return self.group("igrp")

    def c_rgrp(self):
        return self.group("rgrp")

    def c_time(self):
        r = self.r
        n = self.fresh("time")
        lines = [self.line("time-range", n)]
        m = []

        def tm():
            h, mi = r.choice([(0, 0), (23, 59), (8, 5), (r.randrange(24), r.randrange(60))])
            return h, mi, r.choice([f"{h}:{mi}", f"{h}:{mi:02d}", f"{h:02d}:{mi:02d}"])

        def dt():
            h, mi, t = tm()
            y, mo, d = r.choice([2005, 2012, 2024, 1999]), r.randrange(1, 13), r.randrange(1, 29)
            return {"y": y, "mo": mo, "d": d, "h": h, "m": mi}, [t, str(d), MONTHS[mo - 1], str(y)]

        none = {"y": 0, "mo": 0, "d": 0, "h": 0, "m": 0}
        for _ in range(r.choice([1, 1, 2, 3])):
            if self.p(0.5):
                s = e = none
                w = ["absolute"]
                if self.p(0.7):
                    s, t = dt()
                    w += ["start"] + t
                if self.p(0.7):
                    e, t = dt()
                    w += ["end"] + t
                m.append({"t": "abs", "s": s, "e": e})
            else:
                sh, sm, st = tm()
                eh, em, et = tm()
                ed = ""
                if self.p(0.5):
                    ds = [r.choice(["weekdays", "weekend", "daily"])]
                else:
                    ds = r.sample(DAYS, r.choice([1, 1, 1, 2, 3, 5, 7]))
                    if self.p(0.5):
                        ed = r.choice(DAYS)
                w = ["periodic", *ds, st, "to", ed, et]
                m.append({"t": "per", "days": ds, "s": {"h": sh, "m": sm}, "ed": ed, "e": {"h": eh, "m": em}})
            lines.append(" " + self.line(*w))
        self.note("time", n)
        return [({"c": "time", "n": n, "m": m}, lines)]

    def c_if_(self):
        r = self.r
        al = r.choice(["GigabitEthernet0/", "Vlan", "Ethernet0/", "Management0/", "Port-channel"]) + str(r.randrange(1, 99))
        if al in self.used:
            return None
        self.used.add(al)
        lines, ls = [self.line("interface", al)], []
        nm = ""
        body = []
        if self.p(0.8):
            nm = r.choice(["inside", "outside", "dmz", "in", "out", "mgmt"]) + r.choice(["", "1", "-2", "_x", ".y", "10"])
            if self.p(self.opt["share"]):
                nm = self.shared("if") or nm
                if any(nm == i[1] for i in self.ifs):
                    nm = ""
            elif nm in self.used:
                nm = ""
            if nm:
                self.used.add(nm)
                body.append(({"t": "nameif", "v": nm}, self.line("nameif", nm) + self.tws()))
        if self.p(0.4):
            d = self.text()
            body.append(({"t": "desc", "v": d}, self.line("description", d)))
        for _ in range(r.choice([0, 1, 1, 2])):
            if self.p(0.7):
                _, a = self.pool.host(4)
                n = r.choice([0, 8, 24, 25, 30, 31, 32])
                w = ["ip", "address", ip4text(a), ip4text(mask(4, n))]
                if self.p(0.5):
                    w += ["standby", ip4text(self.pool.host(4)[1])]
                body.append(({"t": "addr", "a": A(4, a), "p": -1, "m": A(4, mask(4, n))}, self.line(*w) + self.tws()))
            else:
                _, a = self.pool.host(6)
                n = r.choice([0, 48, 64, 127, 128])
                w = ["ipv6", "address", ip6text(r, a) + "/" + str(n)]
                if self.p(0.5):
                    w += ["standby", ip6text(r, self.pool.host(6)[1])]
                body.append(({"t": "addr", "a": A(6, a), "p": n, "m": NOADDR}, self.line(*w) + self.tws()))
        for _ in range(r.choice([0, 0, 1, 2])):
            body.append(({"t": "noise"}, r.choice(["no ip address", "shutdown", "no shutdown", "security-level 50", "no nameif", "speed 100", "ospf cost 10"])))
        r.shuffle(body)
        for j, t in body:
            ls.append(j)
            lines.append(" " + t)
        self.ifs.append((al, nm))
        return [({"c": "if", "alias": al, "lines": ls}, lines)]

    def c_agrp(self):
        r = self.r
        n = self.aclname()
        k = r.random()
        names = [i[1] for i in self.ifs if i[1]]
        if k < 0.1:
            return [({"c": "noise"}, [self.line("access-group", n, "global")])]
        ifn = r.choice(names) if names and k < 0.85 else "nosuchif"
        d = r.choice(["in", "out"])
        if (ifn, d) in self.bound and r.random() < 0.6:
            return None
        self.bound.add((ifn, d))
        return [({"c": "agrp", "n": n, "dir": d, "ifn": ifn}, [self.line("access-group", n, d, "interface", ifn) + self.tws()])]

    def version(self):
        v = self.r.choice(["ASA Version 9.1(2)", "FWSM Version 4.0(13)", "ASA Version 8.4(1) <context>", "ASA Version 9.8(4)29 \xe4", "FWSM Version 2.3(1) <system>"])
        return {"c": "version", "v": v}, [v + self.tws()]

    def domain(self, v):
        return [({"c": "domain", "v": v}, [self.line("domain-name", v) + self.tws()])]

    def c_misc(self):
        r = self.r
        if self.p(self.opt.get("ver", 0)):
            return [self.version()]
        if self.p(0.5):
            v = r.choice(["fw2", "fw-22", "22fw", "F_W.x-y"])
            return [({"c": "hostname", "v": v}, [self.line("hostname", v) + self.tws()])]
        return self.domain(r.choice(["example.net", "1.example", "x_y", "Example-2.NET"]))

    # -- access lists
    ACLS = ["a", "A", "ab", "a-b", "a.b", "a1", "a10", "outside_in", "outside_in2", "inside_in", "in", "acl+x", "web", "100", "10"]

    def aclname(self):
        if not hasattr(self, "acls"):
            self.acls = self.r.sample(self.ACLS, self.opt["acls"])
        return self.r.choice(self.acls)

    def term(self, kinds=None):
        """acl_host: abstract, words"""
        r = self.r
        b = self.opt["anybias"] * 4
        k = r.choices(["any", "any4", "any6", "host", "net4", "net6", "nhost", "nnet", "obj", "grp", "if"],
                      [2 + b, 0.7 + b, 0.7 + b, 3, 3, 1.5, 0.8, 0.8, 2, 2.5, 0.3])[0]
        if k in ("any", "any4", "any6"):
            return {"t": k}, [k]
        if k == "if":
            n = r.choice(["inside", "outside", "dmz1"])
            return {"t": "if", "n": n}, ["interface", n]
        if k in ("nhost", "nnet"):
            n = self.ref("name")
            if n is not None:
                if k == "nhost":
                    return {"t": "nhost", "n": n}, ["host", n]
                j, t = self.nnet(n, [])
                return j, [t]
            k = "host"
        if k == "obj":
            n = self.ref("nobj")
            if n is not None:
                return {"t": "obj", "n": n}, ["object", n]
            k = "net4"
        if k == "grp":
            n = self.ref("ngrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
            k = "host"
        if k == "host":
            a, t = self.addr()
            return {"t": "host", "a": a}, ["host", t]
        if k == "net6":
            j, at, pt = self.net6()
            return j, [at + "/" + pt]
        j, at, mt = self.net4()
        return j, [at, mt]

    def proto(self):
        """no icmp: abstract, words"""
        r = self.r
        k = r.random()
        if k < 0.12:
            n = self.ref("sgrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        elif k < 0.2:
            n = self.ref("rgrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        elif k < 0.28:
            n = self.ref("sobj")
            if n is not None:
                return {"t": "sobj", "n": n}, ["object", n]
        elif k < 0.36:
            p = self.protonum()
            return {"t": "p", "s": p["s"], "i": p["i"]}, [p["s"]]
        s = r.choice(["ip", "ip", "tcp", "tcp", "udp", r.choice(PROTONAMES)])
        return {"t": "p", "s": s, "i": -1}, [s]

    def options(self):
        r = self.r
        opts, parts = [], []
        ks = [k for k in ("log", "time-range", "inactive") if self.p(0.22)]
        r.shuffle(ks)
        for k in ks:
            if k == "log":
                v = []
                if self.p(0.6):
                    v.append(r.choice(["0", "6", "7", "debugging", "disable", "default", "informational", "notifications", "warnings", "errors", "critical", "alerts", "emergencies"]))
                if self.p(0.4):
                    v += ["interval", str(r.choice([1, 300, 600]))]
                opts.append({"k": "log", "v": v, "n": ""})
                parts += ["log"] + v
            elif k == "inactive":
                opts.append({"k": "inactive", "v": [], "n": ""})
                parts.append("inactive")
            else:
                n = self.ref("time")
                if n is not None:
                    opts.append({"k": "time-range", "v": [], "n": n})
                    parts += ["time-range", n]
        return opts, parts

    def remarks(self, id, n=None):
        ls, lines = [], []
        for _ in range(self.r.choice([0, 0, 0, 1, 1, 2, 3]) if n is None else n):
            t = self.text() if self.p(0.9) else self.r.choice(["", "  indented", "x  "])
            i = self.aclname() if self.p(0.08) else id  # of another list now and then
            ls.append({"t": "remark", "id": i, "text": t})
            lines.append(self.line("access-list", i, "remark") + " " + t)
        return ls, lines

    def ext(self, id):
        r = self.r
        mode = r.choice(["permit", "deny"])
        src, sw = self.term()
        dst, dw = self.term()
        sport = dport = None
        icmp = None
        w = ["access-list", id, "extended", mode]
        if self.p(0.18):
            pr = r.choice(["icmp", "icmp", "icmp6"])
            proto = {"t": "p", "s": pr, "i": -1}
            iw = []
            if self.p(0.6):
                n = self.ref("igrp") if self.p(0.3) else None
                if n is not None:
                    icmp, iw = {"t": "grp", "n": n}, ["object-group", n]
                else:
                    t, c, cs = self.ic()
                    icmp, iw = {"t": "ic", "s": t["s"], "i": t["i"], "c": c, "cs": cs}, [t["s"], cs]
            w += [pr] + sw + dw + iw
        else:
            proto, pw = self.proto()
            w += pw + sw
            if self.p(0.3):
                sport, t = self.portmatch()
                w += t
            w += dw
            if self.p(0.5):
                dport, t = self.portmatch()
                w += t
        opts, ow = self.options()
        w += ow
        return self.rule(mode, proto, src, dst, sport, dport, icmp, opts), self.line(*w) + self.tws()

    def c_acl(self):
        r = self.r
        id = self.aclname()
        out = []
        for _ in range(r.choice([1, 2, 3])):
            ls, lines = self.remarks(id)
            k = r.random()
            if k < 0.78:
                j, t = self.ext(id)
            elif k < 0.86:
                mode = r.choice(["permit", "deny"])
                src, sw = self.term()
                j = self.rule(mode, {"t": "p", "s": "ip", "i": -1}, src, {"t": "any"})
                t = self.line("access-list", id, "standard", mode, *sw) + self.tws()
            elif k < 0.91:
                mode = r.choice(["permit", "deny"])
                u = r.choice(["http://www.example.org/x", "any", "https://*/y?z=1", "cifs://a/b"])
                opts, ow = self.options() if self.p(0.5) else ([], [])
                j = self.rule(mode, {"t": "p", "s": "url", "i": -1}, {"t": "any"}, {"t": "url", "n": u}, opts=opts)
                t = self.line("access-list", id, "webtype", mode, "url", u, *ow) + self.tws()
            elif k < 0.95:
                mode = r.choice(["permit", "deny"])
                dst, dw = self.term()
                dport = None
                if self.p(0.5):
                    dport, pw = self.portmatch()
                    dw = dw + pw
                opts, ow = self.options()
                j = self.rule(mode, {"t": "p", "s": "tcp", "i": -1}, {"t": "any"}, dst, dport=dport, opts=opts)
                t = self.line("access-list", id, "webtype", mode, "tcp", *dw, *ow) + self.tws()
            else:
                j = {"t": "ethertype"}
                t = self.line("access-list", id, "ethertype", "permit", r.choice(["any", "bpdu", "ipx", "0x88"]))
            ls.append(j)
            lines.append(t)
            if self.p(0.06):
                a, b = self.remarks(id, 1)
                ls += a
                lines += b
            out.append(({"c": "acl", "blk": False, "id": id, "idc": codes(id), "lines": ls}, lines))
        return out

    # -- twice NAT
    def c_nat(self):
        r = self.r
        ri, mi, it = self.natif()
        ty = r.choice(["static", "static", "dynamic"])
        pos = self.p(0.3)
        w = ["nat", it]
        if pos:
            w += [r.choice(["after-auto", "after-object"])] + ([str(r.randrange(1, 9))] if self.p(0.3) else [])
        real = {"t": "any"} if self.p(0.2) else None
        if real is None:
            n = self.ngref()
            if n is None:
                return None
            real = {"t": "ref", "n": n}
        w += ["source", ty, real.get("n", "any")]
        fb = ""
        k = r.randrange(5)
        if k == 0 or (k == 1 and ty == "static"):
            if k == 1:
                ms = {"t": "any"}
                w.append("any")
            else:
                ms = {"t": "interface"}
                w.append("interface")
                if self.p(0.3):
                    w.append("ipv6")
        else:
            n = self.ngref()
            if n is None:
                return None
            ms = {"t": "ref", "n": n}
            if ty == "dynamic" and self.p(0.3):
                w.append("pat-pool")
                w.append(n)
                for o in ("round-robin", "extended", "flat"):
                    if self.p(0.2):
                        w.append(o)
            else:
                w.append(n)
            if ty == "dynamic":
                fb, t = self.fb()
                w += t
        md = rd = {"t": "none"}
        if self.p(0.4):
            n = self.ngref()
            if n is not None:
                rd = {"t": "ref", "n": n}
                k = r.randrange(4)
                m = self.ngref()
                if k == 0 or m is None:
                    md = {"t": "interface"}
                    mw = ["interface"] + (["ipv6"] if self.p(0.3) else [])
                elif k == 1:
                    md, mw = {"t": "any"}, ["any"]
                else:
                    md, mw = {"t": "ref", "n": m}, [m]
                w += ["destination", "static"] + mw + [n]
        svc = []
        if self.p(0.35):
            def usable(s, side):
                return (s["src"]["t"] != "none") == (side == "src") and (s["dst"]["t"] != "none") == (side == "dst")
            side = r.choice(["src", "dst", "dst"])
            c = [n for n, s in self.sobjs.items() if ty == "dynamic" or usable(s, side)]
            if c:
                svc = [r.choice(c), r.choice(c)]
                if self.undef():
                    svc[r.randrange(2)] = self.near(svc[0])
                elif self.opt["bad"] and self.p(0.1):
                    svc[r.randrange(2)] = r.choice(list(self.sobjs))
                w += ["service"] + svc
        opts = []
        for o in ("net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup"):
            if self.p(0.12):
                opts.append(o)
                w.append(o)
        d = ""
        t = self.line(*w)
        if self.p(0.25):
            d = self.text()
            t += self.ws() + "description" + self.ws() + d
        else:
            t += self.tws()
        return [({"c": "nat", "ri": ri, "mi": mi, "ty": ty, "rs": real, "ms": ms, "md": md, "rd": rd, "svc": svc,
                  "opts": opts, "desc": d, "fb": fb, "pos": pos}, [t])]


class Ios(Cisco):
    dia = "ios"
    WEIGHTS = dict(named=3, std=1, num=2.5, numstd=1, v6=1.2, ngrp=1.5, sgrp=0.6, pgrp=0.8, igrp=0.4, rgrp=0.4, if_=1.0, time=0,
                   route=0.8, misc=0.2)
    NOISE = ["!", "", "no service pad", "service timestamps debug uptime", "aaa new-model", "ip cef", "ip classless",
             "ip forward-protocol nd", "no ip http server", "logging buffered 4096", "spanning-tree mode pvst", "snmp-server location x",
             "username x privilege 15", "router ospf 1\n network 10.0.0.0 0.0.0.255 area 0", "vlan 10\n name x", "crypto isakmp policy 1\n encr 3des",
             "enable secret 5 x", "clock timezone CET 1", "ip ssh version 2", "route-map x permit 10\n match ip address 1", "ipv6 unicast-routing",
             "ip name-server 10.0.0.1", "banner motd ^Cpermit ip any any\naccess-list 1 permit any^C", "Current configuration : 100 bytes",
             "ip nat inside source list 1", "ip prefix-list x seq 5 permit 10.0.0.0/8", "policy-map x\n class y\n  police 1", "vtp mode transparent"]

    rule = Asa.rule
    c_misc = Asa.c_misc

    def version(self):
        v = self.r.choice(["12.4", "15.1", "12.2(33)SXI x", "16.12 \u20ac", "1"])
        return {"c": "version", "v": v}, ["version" + self.ws() + v + self.tws()]

    def domain(self, v):
        how = self.r.choice(["domain name", "domain-name"])
        return [({"c": "domain", "v": v}, ["ip" + self.ws() + how + self.ws() + v + self.tws()])]

    def start(self):
        r = self.r
        if self.p(0.6):
            self.add([self.version()])
            v = r.choice(["rt", "rt-1", "sw.local", "r_1", "1rt"])
            self.add([({"c": "hostname", "v": v}, [self.line("hostname", v)])])
        if self.p(0.5):
            self.add(self.domain(r.choice(["example.org", "local", "a-b.example", "2.example"])))
        for _ in range(r.choice([0, 1, 2])):
            self.add(self.c_if_() or [])

    def finish(self):
        if self.opt.get("marker", True):
            self.add([self.marker()])
        if self.p(0.2):
            self.add([({"c": "noise"}, [self.r.choice(["end", "line vty 0 4", "line con 0"])])])

    def marker(self):
        one = {"t": "any"}
        return ({"c": "acl", "blk": False, "id": "199", "idc": codes("199"), "lines": [self.rule("permit", {"t": "p", "s": "ip", "i": -1}, one, one)]},
                ["access-list 199 permit ip any any"])

    def member_ngrp(self):
        x = self.nested("ngrp")
        if x:
            return x
        k = self.r.randrange(6)
        if k < 3:
            a, t = self.addr()
            return {"t": "host", "a": a}, self.line("host", t) + self.tws()
        if k == 3:
            j, at, pt = self.net6()
            return j, self.line(at + "/" + pt) + self.tws()
        j, at, mt = self.net4()
        return j, self.line(at, mt) + self.tws()

    def member_sgrp(self):
        x = self.nested("sgrp")
        if x:
            return x
        s, w = self.service()
        return s, self.line(*w) + self.tws()

    c_ngrp = Asa.c_ngrp
    c_sgrp = Asa.c_sgrp
    c_pgrp = Asa.c_pgrp
    c_igrp = Asa.c_igrp
    c_rgrp = Asa.c_rgrp

    # -- terms
    def wild(self):
        b, w = self.pool.wild()
        if self.bad():
            a, at = self.badaddr(4)
        else:
            a, at = A(4, b), ip4text(b)
        if self.bad():
            m, mt = self.badaddr(4)
        else:
            m, mt = A(4, w), ip4text(w)
        return {"t": "wild", "a": a, "w": m}, [at, mt]

    def host4(self):
        a, t = self.addr(4)
        return a, t

    def term(self):
        """ios_host"""
        k = self.r.random()
        if k < 0.2:
            return {"t": "any"}, ["any"]
        if k < 0.55:
            return self.wild()
        if k < 0.7:
            n = self.ref("ngrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        a, t = self.host4()
        if k < 0.9:
            return {"t": "host", "a": a}, ["host", t]
        return {"t": "host", "a": a}, [t]

    def nterm(self):
        """the hosts of numbered extended lists"""
        k = self.r.random()
        if k < 0.2:
            return {"t": "any"}, ["any"]
        if k < 0.6:
            return self.wild()
        if k < 0.7:
            n = self.ref("ngrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        a, t = self.host4()
        return {"t": "host", "a": a}, ["host", t]

    def term6(self):
        k = self.r.random()
        if k < 0.25:
            return {"t": "any"}, ["any"]
        if k < 0.65:
            j, at, pt = self.net6()
            return j, [at + "/" + pt]
        a, t = self.addr(6)
        return {"t": "host", "a": a}, ["host", t]

    def proto(self):
        r = self.r
        k = r.random()
        if k < 0.08:
            n = self.ref("sgrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        elif k < 0.13:
            n = self.ref("rgrp")
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
        elif k < 0.22:
            p = self.protonum()
            return {"t": "p", "s": p["s"], "i": p["i"]}, [p["s"]]
        s = r.choice(["ip", "ip", "tcp", "tcp", "udp", r.choice([x for x in PROTONAMES])])
        return {"t": "p", "s": s, "i": -1}, [s]

    WORDS = ["critical", "flash", "af11", "ef", "max-reliability", "x", "worktime", "low.latency"]

    def options(self):
        r = self.r
        opts, w = [], []
        for k in ("precedence", "dscp", "tos", "time-range", "fragments", "established"):
            if self.p(0.08):
                if k in ("fragments", "established"):
                    opts.append({"k": k, "v": [""], "n": ""})
                    w.append(k)
                else:
                    v = r.choice(self.WORDS) if k == "time-range" or self.p(0.6) else str(r.choice([0, 5, 15, 46, 63]))
                    opts.append({"k": k, "v": [v], "n": ""})
                    w += [k, v]
        if self.p(0.25):
            k = r.choice(["log", "log-input"])
            v = r.choice(self.WORDS) if self.p(0.4) else ""
            opts.append({"k": k, "v": [v], "n": ""})
            w += [k, v]
        return opts, [x for x in w if x]

    def stdoptions(self):
        if self.p(0.3):
            v = self.r.choice(self.WORDS) if self.p(0.4) else ""
            return [{"k": "log", "v": [v], "n": ""}], ["log"] + ([v] if v else [])
        return [], []

    def six_options(self):
        r = self.r
        opts, w = [], []
        for k in ("dest-option-type", "dscp", "flow-label", "fragments", "log", "log-input", "mobility", "routing", "time-range",
                  "mobility-type", "routing-type"):
            if self.p(0.07):
                if k in ("dest-option-type", "dscp", "flow-label", "time-range"):
                    v = r.choice(self.WORDS) if k == "time-range" or self.p(0.5) else str(r.choice([0, 46, 255, 1048575]))
                elif k in ("mobility-type", "routing-type"):
                    v = str(r.randrange(256))
                else:
                    v = ""
                opts.append({"k": k, "v": [v], "n": ""})
                w += [k, v]
        return opts, [x for x in w if x]

    def icmpw(self):
        if self.p(0.6):
            n = self.ref("igrp") if self.p(0.25) else None
            if n is not None:
                return {"t": "grp", "n": n}, ["object-group", n]
            t, c, cs = self.ic()
            return {"t": "ic", "s": t["s"], "i": t["i"], "c": c, "cs": cs}, [t["s"]] + ([cs] if cs else [])
        return None, []

    def ext(self, term):
        """mode and what follows"""
        r = self.r
        mode = r.choice(["permit", "deny"])
        # a plain address followed by another one is an address and a wildcard
        src, sw = self.nterm()
        dst, dw = term()
        sport = dport = icmp = None
        w = [mode]
        if self.p(0.2):
            pr = r.choice(["icmp", "icmp", "icmp6"])
            proto = {"t": "p", "s": pr, "i": -1}
            icmp, iw = self.icmpw()
            w += [pr] + sw + dw + iw
        else:
            proto, pw = self.proto()
            w += pw + sw
            if self.p(0.3):
                sport, t = self.portmatch()
                w += t
            w += dw
            if self.p(0.5):
                dport, t = self.portmatch()
                w += t
        opts, ow = self.options()
        return self.rule(mode, proto, src, dst, sport, dport, icmp, opts), w + ow

    ACLS = ["a", "A", "ab", "a-b", "a.b", "a1", "a10", "outside_in", "outside_in2", "inside_in", "acl+x", "web", "vty"]

    def aclname(self):
        if not hasattr(self, "acls"):
            self.acls = self.r.sample(self.ACLS, 4)
        return self.r.choice(self.acls)

    def seq(self, k):
        return str(k * 10) if self.p(0.3) else ""

    def named(self, kind):
        r = self.r
        id = self.aclname()
        ls, lines = [], [self.line("ip", "access-list", kind, id)]
        for k in range(r.choice([0, 1, 2, 3, 4])):
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                self.named_remark(id, k, ls, lines)
            if kind == "extended":
                j, w = self.ext(self.term)
            else:
                mode = r.choice(["permit", "deny"])
                src, sw = self.term()
                opts, ow = self.stdoptions()
                j = self.rule(mode, {"t": "p", "s": "ip", "i": -1}, src, {"t": "any"}, opts=opts)
                w = [mode] + sw + ow
            ls.append(j)
            lines.append(" " + self.line(self.seq(k), *w))
        while self.p(0.12):
            self.named_remark(id, 9, ls, lines)
        return [({"c": "acl", "blk": True, "id": id, "idc": codes(id), "lines": ls}, lines)]

    def named_remark(self, id, k, ls, lines):
        t = self.text()
        ls.append({"t": "remark", "id": id, "text": t})
        lines.append(" " + self.line(self.seq(k), "remark") + " " + t)

    def c_named(self):
        return self.named("extended")

    def c_std(self):
        return self.named("standard")

    def numbered(self, ids, body):
        r = self.r
        id = r.choice(ids)
        ls, lines = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                t = self.text()
                i = r.choice(["101", "10", "9", "1300", "a"]) if self.p(0.12) else id
                ls.append({"t": "remark", "id": i, "text": t})
                lines.append(self.line("access-list", i, "remark", t))
            j, w = body()
            ls.append(j)
            lines.append(self.line("access-list", id, *w))
        if self.p(0.08):
            t = self.text()
            ls.append({"t": "remark", "id": id, "text": t})
            lines.append(self.line("access-list", id, "remark", t))
        return [({"c": "acl", "blk": False, "id": id, "idc": codes(id), "lines": ls}, lines)]

    def c_num(self):
        return self.numbered(["100", "101", "110", "199", "2000", "2699", "150"], lambda: self.ext(self.nterm))

    def c_numstd(self):
        def body():
            mode = self.r.choice(["permit", "deny"])
            src, sw = self.term()
            opts, ow = self.stdoptions()
            return self.rule(mode, {"t": "p", "s": "ip", "i": -1}, src, {"t": "any"}, opts=opts), [mode] + sw + ow

        return self.numbered(["1", "10", "99", "9", "1300", "1399"], body)

    def c_v6(self):
        r = self.r
        id = self.aclname()
        ls, lines = [], [self.line("ipv6", "access-list", id)]
        for k in range(r.choice([1, 2, 3])):
            mode = r.choice(["permit", "deny"])
            src, sw = self.term6()
            dst, dw = self.term6()
            sport = dport = None
            sq = str(r.choice([10 * (k + 1), k, 4294967295]))
            if self.p(0.25):
                pr = r.choice(["icmp", "icmp6"])
                proto = {"t": "p", "s": pr, "i": -1}
                opts, ow = [], []
                if self.p(0.6):
                    t = r.choice(["nd-ns", "nd-na", "router-solicitation", "redirect", "echo", "echo-reply", "packet-too-big", "time-exceeded"])
                    opts, ow = [{"k": t, "v": [""], "n": ""}], [t]
                w = [pr] + sw + dw + ow
            else:
                proto, pw = self.proto()
                w = pw + sw
                if self.p(0.3):
                    sport, t = self.portmatch()
                    w += t
                w += dw
                if self.p(0.5):
                    dport, t = self.portmatch()
                    w += t
                opts, ow = self.six_options()
                w += ow
            opts = opts + [{"k": "sequence", "v": [sq], "n": ""}]
            ls.append(self.rule(mode, proto, src, dst, sport, dport, None, opts))
            lines.append(" " + self.line("sequence", sq, mode, *w))
        return [({"c": "acl", "blk": True, "id": id, "idc": codes(id), "lines": ls}, lines)]

    # -- interfaces and routes
    def c_if_(self):
        r = self.r
        al = r.choice(["GigabitEthernet0/", "Vlan", "FastEthernet0/", "Loopback", "Tunnel", "Serial0/0/0:"]) + str(r.choice([0, 1, 10, 11, 100]))
        if al in self.used:
            return None
        self.used.add(al)
        body = []
        if self.p(0.4):
            d = self.text()
            body.append(({"t": "desc", "v": d}, self.line("description", d)))
        for i in range(r.choice([0, 1, 1, 2, 3])):
            if self.p(0.7):
                _, a = self.pool.host(4)
                n = r.choice([0, 8, 24, 25, 30, 31, 32])
                w = ["ip", "address", ip4text(a), ip4text(mask(4, n))] + (["secondary"] if i else [])
                body.append(({"t": "addr", "a": A(4, a), "p": -1, "m": A(4, mask(4, n))}, self.line(*w) + self.tws()))
            else:
                _, a = self.pool.host(6)
                if self.p(0.3):
                    body.append(({"t": "addr", "a": A(6, a), "p": 128, "m": NOADDR}, self.line("ipv6", "address", ip6text(r, a), "link-local") + self.tws()))
                else:
                    n = r.choice([0, 48, 64, 127, 128])
                    body.append(({"t": "addr", "a": A(6, a), "p": n, "m": NOADDR}, self.line("ipv6", "address", ip6text(r, a) + "/" + str(n)) + self.tws()))
        for d in ("in", "out"):
            if self.p(0.3):
                n = self.aclname() if self.p(0.7) else r.choice(["100", "1", "199"])
                body.append(({"t": "ag", "key": "ip-" + d, "n": n, "dir": d}, self.line("ip", "access-group", n, d) + self.tws()))
            if self.p(0.15):
                n = self.aclname()
                body.append(({"t": "ag", "key": "ipv6-" + d, "n": n, "dir": d}, self.line("ipv6", "traffic-filter", n, d) + self.tws()))
        for _ in range(r.choice([0, 0, 1, 2])):
            body.append(({"t": "noise"}, r.choice(["no ip address", "shutdown", "duplex auto", "ip nat inside", "ip virtual-reassembly", "speed 100", "switchport"])))
        r.shuffle(body)
        # at most one binding per key, the order matters for nothing else
        if self.p(0.4):
            sw = []
            if self.p(0.7):
                m = r.choice(["access", "trunk"])
                sw.append(({"t": "mode", "v": m}, self.line("switchport", "mode", m)))
            if self.p(0.7):
                for k in range(r.choice([1, 1, 2, 3])):
                    v = []
                    for _ in range(r.choice([1, 2, 4])):
                        a = r.randrange(1, 4090)
                        v.append(str(a) if self.p(0.5) else f"{a}-{a + r.randrange(1, 5)}")
                    op = "set" if k == 0 else "add"
                    sw.append(({"t": "vlan", "op": op, "v": v}, self.line("switchport", "trunk", "allowed", "vlan", "add" if k else "", ",".join(v))))
            pos = r.randrange(len(body) + 1)
            body[pos:pos] = sw
        self.ifs.append((al, ""))
        return [({"c": "if", "alias": al, "lines": [j for j, _ in body]},
                 [self.line("interface", al)] + [" " + t for _, t in body])]

    def c_route(self):
        r = self.r
        _, b, n = self.pool.net(4)
        b &= mask(4, n)
        j = {"c": "route", "a": A(4, b), "m": A(4, mask(4, n)), "gw": "", "gwa": NOADDR}
        if self.opt["bad"] and self.p(0.2) and n < 32:
            b |= 1 << r.randrange(32 - n)
            j["a"] = A(4, b)
        if self.ifs and self.p(0.4):
            g = r.choice(self.ifs)[0]
            j["gw"] = g
        else:
            _, a = self.pool.host(4)
            g = ip4text(a)
            j["gwa"] = A(4, a)
        t = self.line("ip", "route", ip4text(b), ip4text(mask(4, n)), g)
        return [(j, [t])]
