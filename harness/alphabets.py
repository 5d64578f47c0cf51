"""The alphabets and bounds of the bounded models, and how their behaviours are replayed."""
import itertools

import noise as ignored

from lit import *

RES = {"resolve": {"a": "resolve", "s": 0, "r": [], "n": []}}


def importing(dia, bound, alpha, pre=(), post=(), probes=None, onlyrefs=True, bounds="", cls=None, order=None, once=None, text=None, within=None):
    """alpha: [(cmd, lines)]; post: commands behind every behaviour which are no part of the model; probes: actions for the commands of a
    behaviour; order: of a sequence of commands; once: what only one command of a sequence may be about; within: whether the values are within their bounds"""
    orders = order or [0] * len(alpha)
    onces = once or [""] * len(alpha)
    ins = within or [""] * len(alpha)
    text = text or (lambda parts: "".join(l + "\n" for _, ls in parts for l in ls))
    files = [x[2] if len(x) > 2 else {} for x in alpha]
    alpha = [x[:2] for x in alpha]

    def sessions(beh):
        for h in beh:
            parts = list(pre) + [alpha[i - 1] for i in h] + list(post)
            cmds = [c for c, _ in parts]
            tables = {k: v for i in h for k, v in files[i - 1].items()}
            yield [{"a": "load", "s": 0, "dia": dia, "cmds": cmds, "text": text(parts), "cls": cls or dia, **({"tables": tables} if tables else {}),
                    **({"nofetch": True} if any(c.get("u") == "off" for c in cmds) else {})}] + (probes(cmds) if probes else [])

    return dict(module="MC_Import", bound=bound, bounds=f"all sequences of {len(alpha)} commands" + (": " + bounds if bounds else ""), sessions=sessions,
                files={"ALPHA": [{"c": c, "o": o, "u": u, "w": w} for (c, _), o, u, w in zip(alpha, orders, onces, ins)], "PRE": [c for c, _ in pre]},
                env={"DIA": dia, "ONLYREFS": "1" if onlyrefs else "0"})


def count(cmds):
    """numbers of the rules and of the NAT rules (section, index)"""
    n = sum(1 for c in cmds if c["c"] == "acl" for l in c["lines"] if l["t"] == "rule") + sum(1 for c in cmds if c["c"] == "pfrule")
    nats, k = [], {1: 0, 2: 0, 3: 0}
    for c in cmds:
        s = (3 if c["pos"] else 1) if c["c"] == "nat" else 2 if c["c"] == "nobj" and c["nat"]["t"] == "nat" else 0
        if s:
            k[s] += 1
            nats.append([s, k[s]])
    return list(range(1, n + 1)), nats


def resolving(cmds):
    """each rule alone, all of them"""
    R, N = count(cmds)
    res = [{"a": "resolve", "s": 0, "r": [k], "n": []} for k in R] + [{"a": "resolve", "s": 0, "r": [], "n": [x]} for x in N]
    return res[-3:] + [{"a": "resolve", "s": 0, "r": R, "n": N}]


def load(dia, cmds, s=0, **kw):
    return {"a": "load", "s": s, "dia": dia, "cmds": [c for c, _ in cmds], "text": "".join(l + "\n" for _, ls in cmds for l in ls), "cls": dia, **kw}


H1, H2, H9 = host("10.0.0.1"), host("10.0.0.2"), host("10.0.0.9")


def remarks():
    return importing("asa", (4, 5), [
        acl("a", [remark("a", "one")]),
        xacl("a"),
        xacl("b", "deny", proto("tcp"), H1, ANY4, dport=op("eq", "80"), opts=[opt("log")]),
        acl("b", [remark("b", "two")]),
        acl("a", [ether("a")]),
        noise("logging enable"),
        acl("a", [std("a", "permit", H9)]),
        acl("b", [url("b", "http://x/y")]),
    ], bounds="remarks, rules of two lists, other lines")


# what the alphabets refer to
DEFS = [
    name("n1", "10.9.9.9"),
    iface("Vlan1", nameif("inside")),
    iface("Vlan2", nameif("outside")),
    nobj("o", bhost("10.0.0.5")),
    nobj("o6", bnet("2001:db8::", 32)),
    group("ngrp", "g", [m_net(H1), m_net(net("10.1.0.0", 16))]),
    group("pgrp", "p", [m_port(op("eq", "80")), m_port(rng("100", "200"))], "tcp-udp"),
    sobj("so", svc("tcp", dst=op("eq", "22"))),
    group("sgrp", "s", [m_svc(svc("udp", dst=op("eq", "53"))), m_sobj("so")]),
    group("igrp", "ig", [m_icmp("echo"), m_icmp("3")]),
    group("rgrp", "rg", [m_proto("tcp"), m_proto("17")]),
    time("t", per("weekdays", 8, 17)),
]


def asalines():
    T, U, I = proto("tcp"), proto("udp"), proto("icmp")
    N10 = net("10.2.0.0", 15)
    E = dict
    exts = [
        E(), E(mode="deny"), E(p=T, dport=op("eq", "80")), E(p=T, sport=op("gt", "1023"), dport=op("lt", "1024")), E(p=U, dport=op("neq", "53")),
        E(p=T, sport=rng("1", "9"), dport=rng("10", "100")), E(p=T, dport=op("eq", "www")), E(p=U, sport=op("eq", "ntp")), E(p=T, sport=pgrp("p")),
        E(p=T, dport=pgrp("p")), E(p=I), E(p=I, icmp=ic("echo")), E(p=I, icmp=ic("3")), E(p=I, icmp=ic("8", "0")), E(p=proto("icmp6")),
        E(p=I, icmp=icgrp("ig")), E(p=prgrp("s")), E(p=prgrp("rg")), E(p=probj("so")), E(p=proto("50")), E(p=proto("ospf")), E(src=H1), E(src=ANY4, dst=ANY6),
        E(src=N10, dst=H9), E(src=host("2001:db8::1"), dst=net("2001:db8::", 32)), E(src=obj("o")), E(dst=obj("o6")), E(src=grp("g"), dst=grp("g")),
        E(src=nhost("n1")), E(src=nnet("n1", 32), dst=ANY), E(src=if_("inside")), E(opts=[opt("log")]), E(opts=[opt("log", "6", "interval", "300")]),
        E(opts=[opt("log", "disable")]), E(opts=[opt("inactive")]), E(opts=[opt("time-range", n="t")]), E(opts=[opt("log", "warnings"), opt("time-range", n="t"), opt("inactive")]),
        E(p=T, src=H1, sport=op("eq", "1"), dst=grp("g"), dport=pgrp("p"), opts=[opt("log")]),
    ] + [E(opts=[opt("log", *x.split())]) for x in ("0", "7 interval 1", "informational", "notifications interval 300", "errors", "critical", "alerts", "emergencies", "debugging", "default", "interval 600")]
    alpha = [xacl("a", **e) for e in exts]
    alpha += [acl("a", [std("a", "permit", x)]) for x in (ANY, H9, N10)] + [acl("a", [url("a", "http://x/y", "deny")]), acl("b", [ether("b")])]
    alpha += [acl("b", [remark("b", "permit ip any any")]), acl("a", [remark("a", "x  y")]), xacl("b"), noise("!"), noise("logging enable", "ftp mode passive")]
    return importing("asa", (2, 2), alpha, DEFS, bounds="every form of an access-list line", probes=None)


# ---------------------------------------------------------------------------
# C01, C12: all terms of a universe of a few addresses, placed at some bits of the real ones

W = {4: 4, 6: 3}  # bits of the universe, as in MC_Cover.cfg
FULL = {4: 32, 6: 128}
BASE = {4: 0x0A55AA55, 6: 0x20010DB85555AAAA5555AAAA5555AAAA}


class Place:
    """the universe at the bits above a shift"""

    def __init__(self, v, shift):
        self.v, self.sh = v, shift
        self.base = BASE[v] >> (shift + W[v]) << (shift + W[v])

    def low(self, x):
        return self.base | x << self.sh

    def high(self, x):
        return self.low(x) | (1 << self.sh) - 1

    def text(self, n):
        return str((ipaddress.IPv4Address if self.v == 4 else ipaddress.IPv6Address)(n))

    def net(self, x, n):
        """(address, prefix length) of the network with n bits"""
        return self.text(self.low(x)), FULL[self.v] - self.sh - W[self.v] + n

    def wild(self, x, c):
        """the wildcard has the bits the pattern does not care about"""
        m = (2 ** W[4] - 1 - c) << self.sh | (1 << self.sh) - 1
        return self.text(self.low(x)), str(ipaddress.IPv4Address(m))

    def range(self, a, b):
        return self.text(self.low(a)), self.text(self.high(b))

    def nets(self):
        return [(x, n) for n in range(W[self.v] + 1) for x in range(0, 2 ** W[self.v], 2 ** (W[self.v] - n))]


SHIFTS = [(0, 0), (6, 62), (28, 125)]


def ones(c, v):
    return bin(c).count("1")


def cover():
    """networks, wildcards and ranges against all networks of the universe"""
    def sessions(beh):
        for s4, s6 in SHIFTS:
            pl = {4: Place(4, s4), 6: Place(6, s6)}
            crits = []
            for v in (4, 6):
                for x, n in pl[v].nets():
                    t, p = pl[v].net(x, n)
                    crits.append(t if p == FULL[v] else f"{t}/{p}")
                crits += [pl[v].text(pl[v].high(k)) for k in range(2 ** W[v])] if pl[v].sh else []
            fs = [f_ip(("src", "dst")[i % 2], c) for i, c in enumerate(crits)]
            asa, ios = [], []
            for k, b in enumerate(beh):
                if b[0] == 1:
                    t, n = pl[b[1]].net(b[2], ones(b[3], b[1]))
                    term = host(t) if n == FULL[b[1]] else net(t, n)
                    asa.append(xacl("a", "permit", proto("ip"), term, term))
                    if b[1] == 4 or n != FULL[6]:
                        asa.append(nobj(f"o{k}", bnet(t, n)))
                        asa.append(xacl("a", "permit", proto("ip"), obj(f"o{k}"), obj(f"o{k}")))
                elif b[0] == 2:
                    term = wild(*pl[4].wild(b[2], b[3]))
                    ios.append((i_ext("permit", proto("ip"), term, term)))
                else:
                    asa.append(nobj(f"r{k}", brange(*pl[b[1]].range(b[2], b[3]))))
                    asa.append(group("ngrp", f"g{k}", [m_net(obj(f"r{k}"))]))
                    asa.append(xacl("a", "permit", proto("ip"), obj(f"r{k}"), grp(f"g{k}")))
            for dia, cmds in (("asa", asa), ("ios", [ios_ext("a", ios)] if ios else [])):
                if cmds:
                    for f in range(0, len(fs), 40):
                        yield [load(dia, cmds)] + [flt([x]) for x in fs[f:f + 40]]

    return dict(module="MC_Cover", bound=(4, 4), bounds="all networks, ranges and wildcards over 4 (IPv6: 3) bits at three places of the address, all networks as criteria",
                sessions=sessions, env={"SETS": "0"})


def collapsing():
    """every set of up to three networks collapsed"""
    def sessions(beh):
        per = 60
        for k in range(0, len(beh), per):
            pl = {4: Place(4, SHIFTS[k // per % 3][0]), 6: Place(6, SHIFTS[k // per % 3][1])}
            cmds, acts = [], []
            for j, b in enumerate(beh[k:k + per]):
                m = []
                for x, n in zip(b[2::2], b[3::2]):
                    t, p = pl[b[1]].net(x, n)
                    m.append(m_net(host(t) if p == FULL[b[1]] and j % 2 else net(t, p)))
                if j % 3 == 0:
                    m.reverse()
                if j % 5 == 0:
                    m.append(m[0])
                cmds.append(group("ngrp", f"g{j}", m))
                acts.append({"a": "gop", "s": 0, "op": "collapse", "ins": bool(j % 2), "k": "ngrp", "n": f"g{j}"})
            yield [load("asa", cmds)] + acts + [{"a": "groups", "s": 0}]

    return dict(module="MC_Cover", bound=(3, 3), bounds="all sets of up to three networks over 4 (IPv6: 3) bits", sessions=sessions, env={"SETS": "1"})


# ---------------------------------------------------------------------------
# C10, C11, C12, C18: sequences of actions

POINTS = [addr(x) for x in ("10.0.0.0", "10.0.0.1", "10.0.0.3", "10.0.0.4", "10.0.0.5", "10.0.0.7", "10.0.0.8", "10.0.0.77", "2001:db8::1", "2001:db8:1::", "192.0.2.1")]


def acting(bound, acts, more=None, finish=(), looks=True, points=POINTS, bounds=""):
    """acts: [(action, order, once)]; more: those of the thorough runs; finish: actions behind every longest sequence; looks: at the groups after every operation, or actions which follow it"""
    def alpha(acts):
        keys = {"load": ("a", "s", "dia", "cmds"), "gop": ("a", "s", "op", "ins", "k", "n"), "filter": ("a", "s", "f"), "copy": ("a", "s", "t")}
        return [{"x": {k: a[k] for k in keys.get(a["a"], ("a", "s"))}, "o": o, "u": u} for a, o, u in acts]

    def sessions(beh, tier):
        t = tier == "thorough"
        al = more if more and t else acts
        seen = {tuple(h) for h in beh}
        inner = {h[:-1] for h in seen}
        for h in beh:
            if tuple(h) in inner:
                continue
            out = []
            for i in h:
                a = al[i - 1][0]
                out.append(a)
                if looks and a["a"] in ("expand", "gop"):
                    out += [{"a": "groups", "s": a["s"]}] if looks is True else [{**x, "s": a["s"]} for x in looks]
            slots = sorted({a["t"] if a["a"] == "copy" else a["s"] for a in out if a["a"] in ("load", "copy")})
            yield out + [{**a, "s": s} for s in slots for a in finish]

    return dict(module="MC_Session", bound=bound, bounds=bounds, sessions=sessions, tiered=True,
                files={"ALPHA": alpha(acts), "POINTS": points}, more={"ALPHA": alpha(more)} if more else {})


# members of each kind of group, what they refer to, and a rule which uses the group
MEMBERS = {
    "ngrp": dict(defs=[nobj("o", bhost("10.0.0.5")), nobj("r", brange("10.0.0.3", "10.0.0.8")), group("ngrp", "g", [m_net(host("10.0.0.4")), m_net(obj("r"))])],
                 m=[m_net(host("10.0.0.5")), m_net(host("10.0.0.4")), m_net(net("10.0.0.0", 30)), m_net(obj("o")), m_net(obj("r")), m_grp("g"), m_net(net6("2001:db8::", 32))],
                 up=m_net(host("10.0.0.77"))),
    "sgrp": dict(defs=[sobj("so", svc("tcp", dst=op("eq", "22"))), group("sgrp", "sg", [m_svc(svc("udp", dst=op("eq", "53"))), m_sobj("so")])],
                 m=[m_svc(svc("tcp", dst=op("eq", "22"))), m_svc(svc("tcp", op("eq", "1024"), op("eq", "21"))), m_svc(svc("udp", dst=rng("22", "90"))), m_svc(svc("icmp", t="8", c="0")),
                    m_sobj("so"), m_grp("sg"), m_svc(svc("6"))],
                 up=m_svc(svc("esp"))),
    "pgrp": dict(defs=[group("pgrp", "pg", [m_port(op("eq", "443")), m_port(rng("8000", "8080"))], "tcp")],
                 m=[m_port(op("eq", "443")), m_port(op("eq", "80")), m_port(rng("80", "90")), m_port(rng("9", "8000")), m_port(op("eq", "ssh")), m_grp("pg")],
                 up=m_port(op("eq", "22")), x="tcp"),
    "rgrp": dict(defs=[group("rgrp", "rg", [m_proto("17"), m_proto("tcp")])],
                 m=[m_proto("17"), m_proto("6"), m_proto("112"), m_proto("udp"), m_grp("rg")],
                 up=m_proto("50")),
    "igrp": dict(defs=[group("igrp", "ig", [m_icmp("echo"), m_icmp("11")])],
                 m=[m_icmp("echo"), m_icmp("3"), m_icmp("11"), m_grp("ig")],
                 up=m_icmp("5")),
}


def groupload(k, seq):
    d = MEMBERS[k]
    g = [group(k, "m-" + k, seq, d.get("x", "")), group(k, "up-" + k, [m_grp("m-" + k), d["up"]], d.get("x", ""))]
    r = {"ngrp": xacl("a", "permit", proto("ip"), grp("m-ngrp"), grp("up-ngrp")), "sgrp": xacl("a", "permit", prgrp("m-sgrp"), ANY, H1),
         "pgrp": xacl("a", "permit", proto("tcp"), ANY, H1, dport=pgrp("up-pgrp")), "rgrp": xacl("a", "permit", prgrp("up-rgrp"), ANY, H1),
         "igrp": xacl("a", "permit", proto("icmp"), ANY, H1, icmp=icgrp("m-igrp"))}[k]
    return load("asa", d["defs"] + g + [r])


def sequences(k, n):
    return [list(x) for j in range(n + 1) for x in itertools.product(MEMBERS[k]["m"], repeat=j)]


def grouping(bound, kinds, lens, ops, bounds):
    """every group of some members, and every sequence of operations on it and on a group which contains it"""
    gops = [({"a": "gop", "s": 0, "op": o, "ins": ins, "k": k, "n": n + k}, 1, "") for k in kinds for o, n, ins in ops]
    gops.append(({"a": "expand", "s": 0}, 1, ""))
    acts, more = ([(groupload(k, s), 0, "load") for k in kinds for s in sequences(k, n)] + gops for n in lens)
    fin = [flt([f_ip("src", "10.0.0.5")]), flt([f_ip("dst", "10.0.0.8", "2001:db8::/64")]), flt([f_ip("src", "any6")])] if "ngrp" in kinds else []
    return acting(bound, acts, more, fin, bounds=bounds)


def expanding():
    return grouping((3, 3), ("ngrp", "sgrp", "pgrp", "rgrp", "igrp"), (2, 3), [("expand", n, i) for n in ("m-", "up-") for i in (False, True)],
                    "every group of up to two members of each kind, two operations")


def sorting():
    return grouping((2, 3), ("ngrp", "sgrp", "pgrp", "rgrp"), (3, 3), [("sort", "m-", True), ("sort", "up-", True), ("sort", "up-", False)],
                    "every group of up to three members of each kind sorted")


def resorting():
    return grouping((3, 4), ("ngrp", "sgrp", "pgrp", "rgrp"), (2, 2), [("sort", "m-", True), ("sort", "m-", False), ("sort", "up-", True), ("sort", "up-", False), ("expand", "m-", True)],
                    "every group of up to two members of each kind, two operations")


def recollapsing():
    return grouping((3, 3), ("ngrp",), (2, 3), [(o, n, i) for o in ("collapse", "expand") for n in ("m-", "up-") for i in (False, True)] + [("sort", "m-", True)],
                    "every group of up to two members, two operations")


def histories():
    """loads of different configurations with the same names, failing ones, filters used again and operations on groups, in any order"""
    a = [name("n", "10.0.0.5"), iface("Vlan1", nameif("in")), nobj("o", bhost("10.0.0.5")), group("ngrp", "g", [m_net(obj("o")), m_net(host("10.0.0.4"))]),
         group("ngrp", "h", [m_grp("g"), m_net(nhost("n"))]), acl("a", [remark("a", "one")]), xacl("a", "permit", proto("ip"), grp("h"), ANY),
         nat("in", "any", "static", ref("o"), ref("o"))]
    b = [iface("Vlan1", nameif("in")), nobj("o", bnet("10.0.0.0", 30)), group("ngrp", "g", [m_net(obj("o")), m_net(host("10.0.0.1"))]), xacl("a", "deny", proto("ip"), ANY, grp("g")),
         agrp("a", "in", "in"), acl("a", [remark("a", "left")])]
    bad = [name("n", "10.0.0.1"), nobj("o", bhost("10.0.0.1")), group("ngrp", "g", [m_net(host("10.0.0.5"))]), acl("a", [remark("a", "lost")]), xacl("a", "permit", proto("ip"), grp("none"), ANY)]
    ios = [iface("Vlan1", ipaddr("10.0.0.1", 24), l_ag("a", "in")), group("ngrp", "g", [m_net(host("10.0.0.4"), False), m_net(net("10.0.0.8", 29), False)]),
           ios_ext("a", [i_remark("a", "two"), i_ext("deny", proto("ip"), grp("g"))]), route("10.5.0.0", 16, "10.0.0.9")]
    fs = [flt([f_id("a"), f_ip("src", "10.0.0.5")]), flt([f_ip("src", "10.0.0.1"), f_op("union"), f_ip("dst", "10.0.0.1")])]
    acts = [(load("asa", a, 0), 0, ""), (load("ios", ios, 0, cls="auto"), 0, ""), (load("asa", bad, 0, cls="auto"), 0, ""), (load("asa", b, 1), 0, ""), (load("asa", a, 1), 0, ""),
            ({"a": "expand", "s": 0}, 0, ""), ({"a": "expand", "s": 1}, 0, ""),
            ({"a": "gop", "s": 0, "op": "collapse", "ins": False, "k": "ngrp", "n": "g"}, 0, ""), ({"a": "gop", "s": 0, "op": "sort", "ins": True, "k": "ngrp", "n": "g"}, 0, ""),
            ({"a": "gop", "s": 1, "op": "expand", "ins": True, "k": "ngrp", "n": "g"}, 0, ""),
            ({**fs[0], "s": 0, "reuse": True}, 0, ""), ({**fs[0], "s": 1, "reuse": True}, 0, ""),
            ({"a": "resolve", "s": 0, "r": [1], "n": []}, 0, "")]
    return acting((4, 5), acts, finish=[{"a": "look", "s": 0}] + [{**f, "reuse": True} for f in fs], looks=False,
                  bounds="loads of five configurations into two places, expansions, operations on a group, filters, selections")


def leaks():
    """loads of configurations which define all kinds of names, define them in another way, or refer to those of others"""
    P = [op("eq", "80")]
    full = DEFS + [xacl("a", "permit", proto("tcp"), grp("g"), nhost("n1"), dport=pgrp("p"), opts=[opt("time-range", n="t")]), xacl("a", "permit", prgrp("s"), obj("o"), ANY),
                   xacl("a", "permit", prgrp("rg"), ANY, obj("o6")), xacl("a", "permit", proto("icmp"), icmp=icgrp("ig")), xacl("a", "permit", probj("so")),
                   nat("inside", "outside", "static", ref("o"), ref("g")), agrp("a", "in", "inside"), acl("a", [remark("a", "of the first")])]
    other = [name("n1", "10.8.8.8"), iface("Vlan1", nameif("inside")), nobj("o", bhost("10.0.0.6")), group("ngrp", "g", [m_net(H9)]), group("pgrp", "p", [m_port(op("eq", "81"))], "udp"),
             sobj("so", svc("udp", dst=op("eq", "23"))), group("sgrp", "s", [m_sobj("so")]), group("igrp", "ig", [m_icmp("4")]), group("rgrp", "rg", [m_proto("udp")]),
             time("t", per("weekend", 1, 2)), xacl("a", "deny", proto("tcp"), grp("g"), nhost("n1"), dport=pgrp("p"), opts=[opt("time-range", n="t")]), xacl("a", "permit", prgrp("s"), obj("o"), ANY),
             xacl("b", "permit", prgrp("rg"), ANY, ANY), xacl("b", "permit", proto("icmp"), icmp=icgrp("ig")), xacl("b", "permit", probj("so")),
             agrp("b", "out", "inside")]
    refs = [xacl("a", src=nhost("n1")), xacl("a", src=nnet("n1", 32)), xacl("a", src=obj("o")), xacl("a", dst=grp("g")), xacl("a", p=proto("tcp"), dport=pgrp("p")), xacl("a", p=probj("so")), xacl("a", p=prgrp("s")),
            xacl("a", p=prgrp("rg")), xacl("a", p=proto("icmp"), icmp=icgrp("ig")), xacl("a", opts=[opt("time-range", n="t")]), group("ngrp", "x", [m_grp("g")]), group("ngrp", "x", [m_net(obj("o"))]),
            group("sgrp", "x", [m_sobj("so")]), group("pgrp", "x", [m_grp("p")], "tcp"), group("rgrp", "x", [m_grp("rg")]), group("igrp", "x", [m_grp("ig")]), nat("any", "any", "static", ref("o"), ref("o")),
            nat("inside", "outside", "static", ahost("10.0.0.1"), ahost("10.0.0.2")), agrp("a", "in", "inside")]
    iosf = [iface("Vlan1", ipaddr("10.0.0.1", 24), l_ag("a", "in")), group("ngrp", "g", [m_net(H1, False)]), group("sgrp", "s", [m_svc(svc("tcp", dst=P[0]), False)]), ios_ext("a", [i_remark("a", "x"), i_ext(src=grp("g"))]),
            ios_ext("b", [i_ext(p=prgrp("s")), i_remark("b", "left")])]
    iosr = [[ios_ext("a", [i_ext(src=grp("g"))])], [ios_ext("b", [i_ext(p=prgrp("s"))])], [ios_ext("b", [i_ext()]), route("10.5.0.0", 16, "10.0.0.9")]]
    pff = [p_alias("host", "g", ["10.0.0.1"]), p_alias("port", "p", ["80"]), p_if("wan", "WAN"), p_if("opt1", "DMZ"), p_rule(["opt1"], src=p_addr("g"), dport=p_port("p"), proto="tcp"), p_sep("opt1", 0, "o")]
    pfr = [[p_if("wan", "WAN"), x] for x in (p_rule(["wan"], src=p_addr("g")), p_rule(["wan"], src=p_net("opt1")), p_rule(["opt1"]))]
    acts = [load("asa", full), load("asa", other), load("ios", iosf), load("asa", full + [xacl("a", src=grp("none"))])]
    acts += [load("asa", [x, xacl("z")]) for x in refs] + [load("ios", x) for x in iosr]
    acts += [dict(load("pfsense", x), text=p_text(x), nofetch=True) for x in [pff] + pfr]
    return acting((2, 3), [(a, 0, "") for a in acts], finish=[flt([f_ip("src", "10.0.0.1")])], looks=False, bounds="loads of configurations with definitions of all kinds and of others which refer to them")


# ---------------------------------------------------------------------------
# C21: criteria made by hand


def overlaps():
    """all terms as criteria against rules with all terms"""
    U = [(3, v, a, b) for v in (4, 6) for a in range(2 ** W[v]) for b in range(a, 2 ** W[v])]
    U += [(4, k, n, m) for k in (0, 6, 8, 15) for n in (0, 2, 5, 8) for m in (0, 5)] + [(6, a, b, k) for a in (1, 5) for b in (6, 14) for k in (0, 7, 15)]

    def sessions(beh):
        for place, (s4, s6) in enumerate(SHIFTS):
            pl = {4: Place(4, s4), 6: Place(6, s6)}
            one = lambda v, k: net(*pl[v].net(k, W[v]))  # a host of the universe
            nets = []
            for v in (4, 6):
                for x, n in pl[v].nets():
                    t, p = pl[v].net(x, n)
                    nets.append(host(t) if p == FULL[v] else net(t, p))
            asa = []
            terms = nets + [ANY, ANY4, ANY6]
            for u in U:
                n = "u" + "-".join(map(str, u))
                if u[0] == 3:
                    asa.append(nobj(n, brange(*pl[u[1]].range(u[2], u[3]))))
                    terms.append(obj(n))
                elif u[0] == 4:
                    asa.append(group("ngrp", n, [m_net(one(4, u[1])), m_net(one(4, u[2])), m_net(one(6, u[3]))]))
                    terms.append(grp(n))
                else:
                    asa.append(group("ngrp", "x" + n, [m_net(one(4, u[3]))]))
                    asa.append(group("ngrp", n, [m_net(obj(f"u3-4-{u[1]}-{u[2]}")), m_grp("x" + n)]))
                    terms.append(grp(n))
            asa += [xacl("a", "permit", proto("ip"), t, t) for t in terms]
            wilds = [wild(*pl[4].wild(k, 15 - c)) for c in range(16) for k in range(16) if not k & c]
            ios = [group("ngrp", f"g{k}", [m_net(t, False) for t in (one(4, k), one(4, 2 * k))]) for k in range(8)]
            ios.append(ios_ext("a", [i_ext("permit", proto("ip"), t, t) for t in wilds + [grp(f"g{k}") for k in range(8)] + [ANY]]))
            qa, qi = [], []
            for i, b in enumerate(beh):
                if b[0] == 1:
                    t, n = pl[b[1]].net(b[2], b[3])
                    j = (host(t) if n == FULL[b[1]] and i % 2 else net(t, n))[0]
                elif b[0] == 2:
                    j = wild(*pl[4].wild(b[1], 15 - b[2]))[0]
                elif b[0] == 5:
                    j = {"t": {0: "any", 4: "any4", 6: "any6"}[b[1]]}
                else:
                    j = {"t": "obj" if b[0] == 3 else "grp", "n": "u" + "-".join(map(str, b))}
                q = {"k": "set", "id": codes("a") if i % 3 == 0 else [], "src": {"t": "any"}, "dst": {"t": "any"}}
                q[("src", "dst")[i % 2]] = j
                a = {"a": "hand", "s": 0, "via": ("rules", "caf")[(i + place) % 2], "q": [q], "ops": []}
                qa.append(a)
                if b[0] in (1, 2, 5):
                    qi.append(a)
            for dia, cmds, qs in (("asa", asa, qa), ("ios", ios, qi)):
                for f in range(0, len(qs), 60):
                    yield [load(dia, cmds)] + qs[f:f + 60]

    return dict(module="MC_Overlap", bound=(4, 4), bounds="all networks, wildcards, ranges, some groups, any, any4 and any6 over 4 (IPv6: 3) bits at three places of the address, each against all",
                sessions=sessions)


# ---------------------------------------------------------------------------
# C22: copies


def copies():
    """copies of configurations, and what is done to the one or the other of them"""
    a = [name("n", "10.0.0.5"), iface("Vlan1", nameif("in")), nobj("o", brange("10.0.0.3", "10.0.0.5")), group("ngrp", "g", [m_net(obj("o")), m_net(host("10.0.0.4"))]),
         group("ngrp", "h", [m_grp("g"), m_net(nhost("n"))]), group("pgrp", "p", [m_port(op("eq", "80")), m_port(op("eq", "22"))], "tcp"), time("t", per("weekdays", 8, 17)), acl("a", [remark("a", "one")]),
         xacl("a", "permit", proto("tcp"), grp("h"), ANY, dport=pgrp("p"), opts=[opt("log"), opt("time-range", n="t"), opt("inactive")]), xacl("b", "deny", proto("ip"), H1, grp("g")),
         agrp("a", "in", "in"), nat("in", "any", "static", ref("o"), ref("h"))]
    ios = [iface("Vlan1", ipaddr("10.0.0.1", 24), l_ag("a", "in"), mode("trunk"), vlan("set", "1", "3-5")), group("ngrp", "g", [m_net(host("10.0.0.4"), False), m_net(net("10.0.0.8", 29), False)]),
           ios_ext("a", [i_remark("a", "two"), i_ext("deny", proto("ip"), grp("g"), wild("10.0.0.1", "0.0.255.4"))]), route("10.5.0.0", 16, "10.0.0.9")]
    fs = [flt([f_id("a"), f_ip("src", "10.0.0.5")]), flt([f_ip("src", "10.0.0.1"), f_op("union"), f_ip("dst", "10.0.0.4")])]
    acts = [load("asa", a, 0), load("ios", ios, 0), {"a": "copy", "s": 0, "t": 1, "how": "deepcopy"}, {"a": "copy", "s": 1, "t": 0, "how": "pickle"}, {"a": "copy", "s": 0, "t": 0, "how": "pickle"},
            {"a": "expand", "s": 0}, {"a": "expand", "s": 1}]
    acts += [{"a": "gop", "s": s, "op": o, "ins": True, "k": "ngrp", "n": n} for s, o, n in ((0, "expand", "g"), (1, "collapse", "g"), (1, "expand", "h"), (0, "sort", "g"))]
    acts += [{**fs[0], "s": 1, "stored": "pickle"}]
    fin = [{"a": "look", "s": 0}, {"a": "resolve", "s": 0, "r": [1], "n": []}] + fs
    return acting((4, 5), [(x, 0, "") for x in acts], finish=fin, looks=False, bounds="loads of two configurations, copies into two places, operations on them")


# ---------------------------------------------------------------------------
# C19: dialects


def piece(lines, asa=None, ios=None, u="", d="", ref="", pf=None):
    """lines which are the command asa of the one dialect and ios of the other one"""
    j = {"c": "junk"}
    return {"c": {"c": "alt", "asa": asa or j, "ios": ios or j, "pfsense": pf or j}, "u": u, "def": d, "ref": ref}, lines


def both(c, u="", **kw):
    return piece(c[1], c[0], c[0], u, **kw)


PFXML = "<?xml version='1.0'?>\n<pfsense><version>1</version><system><hostname>pf</hostname><domain>d</domain></system></pfsense>"


def dialects():
    """pieces of text of no, one or both dialects, loaded in all ways"""
    iosg, asag = group("ngrp", "g", [m_net(H1, False)]), group("ngrp", "g", [m_net(H1)])
    pre = "object-group network g"
    A = [
        both(({"c": "hostname", "v": "h1"}, ["hostname h1"])),
        both(({"c": "hostname", "v": "h-2"}, ["hostname h-2"])),
        both(({"c": "noise"}, ["!"])),
        both(iface("Vlan1", ipaddr("10.0.0.1", 24)), "if"),
        piece(asag[1], asa=asag[0], d="g"),
        piece([pre, " host 10.0.0.1"], ios=iosg[0], d="g"),
        piece(["access-list a extended permit ip object-group g any"], asa=xacl("a", "permit", proto("ip"), grp("g"), ANY)[0], ref="g"),
        piece(["access-list a extended permit ip any any"], asa=xacl("a", "permit", proto("ip"), ANY, ANY)[0]),
        piece(["ip access-list extended a", " permit ip object-group g any"], ios=ios_ext("a", [i_ext(src=grp("g"))])[0], ref="g"),
        piece(["access-list 101 deny ip any any"], ios=ios_num("101", [i_ext("deny")])[0]),
        piece(["access-list 10 permit 10.0.0.1"], ios=ios_num("10", [i_std(src=ahost("10.0.0.1"))])[0]),
        piece(["ip route 10.5.0.0 255.255.0.0 10.0.0.9"], asa={"c": "noise"}, ios=route("10.5.0.0", 16, "10.0.0.9")[0]),
        piece(["route in 10.5.0.0 255.255.0.0 10.0.0.9"], asa={"c": "noise"}),
        piece(["name 10.0.0.9 n"], asa=name("n", "10.0.0.9")[0]),
        piece(["foo bar"]),
        piece(["access-list a extended permit ip any"]),
        piece(["ip access-list extended a", " permit tcp any"]),
        piece([PFXML.split("\n")[1]], u="pf", pf={"c": "hostname", "v": "pf.d"}),
    ]

    def sessions(beh):
        for k, h in enumerate(beh):
            lines = [l for i in h for l in A[i - 1][1]]
            cmds = [A[i - 1][0]["c"] for i in h]
            texts = [("\r\n" if j & 1 else "\n").join(lines) + (("\r\n" if j & 1 else "\n") if lines and not j & 2 else "") for j in range(4)]
            acts = [{"a": "load", "s": 0, "dia": "auto", "cmds": cmds, "text": texts[0], "cls": "auto"}]
            for via, bom, j in (("file", False, k % 4), ("path", True, (k + 1) % 4), ("string", False, 3)):
                acts.append({"a": "same", "s": 0, "dia": "auto", "cmds": cmds, "text": texts[j], "cls": "auto", "via": via, "bom": bom})
            for d in ("asa", "ios"):
                acts.append({"a": "load", "s": 1, "dia": d, "cmds": cmds, "text": texts[k % 4], "cls": d, "via": ("path", "file", "string")[k % 3]})
            yield acts

    return dict(module="MC_Dialect", bound=(3, 4), bounds=f"all sequences of {len(A)} pieces of text, loaded in six ways", sessions=sessions,
                files={"ALPHA": [a for a, _ in A]})


# ---------------------------------------------------------------------------
# C02, C04, C05: filters


def filtering(bound, dia, cmds, toks, bounds="", per=60, cls=None, actions=None):
    """every sequence of tokens is run on one configuration"""
    def sessions(beh):
        for k in range(0, len(beh), per):
            acts = [load(dia, cmds)]
            for j, h in enumerate(beh[k:k + per]):
                acts.append(flt([toks[i - 1] for i in h], sep=" \n"[(j + k) % 2]))
            yield acts

    return dict(module="MC_Filter", bound=bound, bounds=f"all filters of {len(toks)} tokens" + (": " + bounds if bounds else ""), sessions=sessions,
                files={"PRE": [c for c, _ in cmds], "ALPHA": [t for t, _ in toks]}, env={"DIA": dia})


OPS = [f_op("union"), f_op("intersect"), f_op("except")]


def combos():
    """every combination of list, source and destination, and NAT rules"""
    cmds = [iface("Vlan1", nameif("in")), iface("Vlan2", nameif("out"))]
    objs = {"h1": "10.0.0.1", "h2": "10.0.0.2", "h9": "10.0.0.9"}
    cmds += [nobj(n, bhost(x)) for n, x in objs.items()]
    cmds += [xacl(i, "permit", proto("ip"), s, d) for i in ("a", "b") for s in (H1, H2) for d in (H9, H2)]
    cmds += [nat("in", "out", "static", ref(s), ref(s), ref(d), ref(d)) for s in ("h1", "h2") for d in ("h9", "h2")]
    return cmds


def expressions():
    return filtering((5, 6), "asa", combos(), [f_id("/a/"), f_ip("src", "10.0.0.1"), f_ip("dst", "10.0.0.9"), LP, RP] + OPS, "id, src, dst, blocks, operators")


def sets():
    return filtering((4, 5), "asa", combos(), [f_id("a"), f_ip("src", "10.0.0.1"), f_ip("src", "10.0.0.2"), f_ip("dst", "10.0.0.9"), f_ip("dst", "10.0.0.2"),
                                               f_ip("src", "10.0.0.1", "10.0.0.2"), f_ip("dst", "10.0.0.0/30", "::1"), LP, RP],
                     "id, lines of one and several addresses, blocks")


def anys():
    """what stands for any, any4, any6 or single addresses, and groups of them"""
    defs = [nobj("f", bfqdn()), nobj("f4", bfqdn(lim="v4")), nobj("f6", bfqdn(lim="v6")), nobj("o4", bhost("10.0.0.1")), nobj("o6", bhost("2001:db8::1")),
            nobj("n0", bnet("0.0.0.0", 0)), nobj("n6", bnet("::", 0)), nobj("r", brange("10.0.0.1", "10.0.0.6")), nobj("e", BNONE)]
    terms = [ANY, ANY4, ANY6, H1, host("2001:db8::1"), net("10.0.0.0", 24), net("2001:db8::", 32), net("0.0.0.0", 0), net("::", 0)]
    for n in ("f", "f4", "f6", "o4", "o6", "n0", "n6", "r", "e"):
        terms.append(obj(n))
        defs.append(group("ngrp", "g" + n, [m_net(obj(n))]))
        terms.append(grp("g" + n))
    for k, m in enumerate([["gf"], ["gf4"], ["gf6"], ["go4", "gf6"], ["go6", "gf4"], ["go4", "gf"], ["ge"], ["go4", "go6"]]):
        defs.append(group("ngrp", f"x{k}", [m_grp(i) for i in m]))
        terms.append(grp(f"x{k}"))
    defs += [group("ngrp", "dup", [m_grp("x0")]), iface("Vlan1", nameif("in"))]
    terms += [grp("dup"), if_("in")]
    cmds = defs + [xacl("a", "permit", proto("ip"), t, ANY) for t in terms] + [xacl("b", "permit", proto("ip"), H1, t) for t in terms]
    lits = ["any", "any4", "any6", "ANY", "ANY4", "ANY6", "10.0.0.1", "10.0.0.6", "10.0.0.9", "2001:db8::1", "2001:db8::2", "0.0.0.0/0", "::/0", "10.0.0.0/8"]
    crits = [f_ip(d, x) for d in ("src", "dst") for x in lits if x not in ("any", "any4", "any6")]
    crits += [f_ip("src", "ANY4", "ANY6"), f_ip("src", "ANY6", "10.0.0.1"), f_ip("dst", "ANY", "2001:db8::1")]
    return filtering((2, 3), "asa", cmds, crits, "ANY, ANY4, ANY6 and addresses, on all that stands for addresses", per=40)


def literals():
    """groups whose members are expanded or not, what stands for any, any4 and any6 before and after"""
    defs = [nobj("f", bfqdn()), nobj("f4", bfqdn(lim="v4")), nobj("f6", bfqdn(lim="v6")), nobj("n0", bnet("0.0.0.0", 0)), nobj("n6", bnet("::", 0)), nobj("o4", bhost("10.0.0.1"))]
    names = []
    for n in ("f", "f4", "f6"):
        defs.append(group("ngrp", "g" + n, [m_net(obj("o4")), m_net(obj(n))]))
        defs.append(group("ngrp", "h" + n, [m_grp("g" + n), m_net(obj("n6"))]))
        defs.append(group("ngrp", "i" + n, [m_net(obj("n0")), m_grp("h" + n)]))
        names += [x + n for x in "ghi"]
    defs += [group("ngrp", "m", [m_grp("gf4"), m_grp("hf6")]), group("ngrp", "k", [m_grp("m"), m_grp("hf")])]
    names += ["m", "k"]
    terms = [ANY, ANY4, ANY6, net("0.0.0.0", 0), net("::", 0)] + [obj(n) for n in ("f", "f4", "f6", "n0", "n6", "o4")] + [grp(n) for n in names]
    cmds = defs + [xacl("a", "permit", proto("ip"), t, H1) for t in terms] + [xacl("b", "permit", proto("ip"), H1, t) for t in terms]
    cmds += [iface("Vlan1", nameif("in")), iface("Vlan2", nameif("out")), nat("in", "out", "static", ref("gf6"), ref("hf4")), nat("in", "out", "dynamic", ref("m"), ref("o4"))]
    go = lambda n: {"a": "gop", "s": 0, "op": "expand", "ins": True, "k": "ngrp", "n": n}
    acts = [load("asa", cmds)] + [go(n) for n in names] + [{"a": "expand", "s": 0}, {**flt([f_ip("src", "any6")]), "s": 0}]
    fin = [flt([f_ip(d, x)]) for d in ("src", "dst") for x in ("ANY", "ANY4", "ANY6", "any4", "10.0.0.9", "2001:db8::5")]
    return acting((3, 4), [(x, 0, "") for x in acts], finish=fin, looks=[flt([f_ip("src", x)]) for x in ("ANY4", "ANY6")], bounds="expansions in place of nested groups with fqdn objects, then filters")


# ---------------------------------------------------------------------------
# C03: patterns


def globs():
    """every pattern between slashes, and some names written without them"""
    names = ["a", "b", "A", "ab", "ba", "aa", "a.b", "a-b", "a.", "-", "ab-", "aba", "b.", ".a", "abb", "a.a.b", "-b"]
    chars = "ab.-*?[]!"
    cmds = [xacl(n, "permit") for n in names]

    def sessions(beh):
        pats = ["/" + "".join(chars[i - 1] for i in h) + "/" for h in beh]
        pats += names + ["a*", "/a", "a/", "/ab", "ba/", "?", "[a]", "", "//", "/"] if [1] in beh else []
        pats = [p for p in pats if p]
        for k in range(0, len(pats), 80):
            yield [load("asa", cmds)] + [flt([f_id(p)]) for p in pats[k:k + 80]]

    return dict(module="MC_Glob", bound=(4, 5), bounds=f"all patterns over {chars}, all of {len(names)} names", sessions=sessions,
                files={"ALPHA": codes(chars), "NAMES": [codes(n) for n in names]})


# ---------------------------------------------------------------------------
# C07: IOS access lists

IH = H1[0], "10.0.0.1"  # a bare address


def iopt(k, v=""):
    return opt(k, v, asa=False)


def iosrem():
    """blocks and numbered lines with their remarks"""
    r1, r2 = i_ext("deny", proto("tcp"), H1, ANY, dport=op("eq", "22")), i_ext("permit")
    alpha = [
        ios_ext("a", [i_remark("a", "one"), r1, i_remark("a", "two"), i_remark("a", "three"), r2]),
        ios_ext("a", [r2, i_remark("a", "last")]),
        ios_ext("b", []),
        ios_std("b", [i_remark("b", "std"), i_std("permit", IH)]),
        ios_v6("s", [i_v6(10, "deny"), i_v6(20)]),
        ios_num("101", [i_remark("101", "num"), r1]),
        ios_num("101", [r2]),
        ios_num("10", [i_remark("10", "other")]),
        ios_num("10", [i_std("deny", ANY)]),
        iface("Vlan1", l_ag("a", "in")),
        noise("ip ssh version 2"),
    ]
    return importing("ios", (3, 4), alpha, bounds="named, numbered and IPv6 lists with remarks")


IDEFS = [
    group("ngrp", "g", [m_net(H1, False), m_net(net("10.1.0.0", 16), False)]),
    group("sgrp", "s", [m_svc(svc("udp", dst=op("eq", "53")), False), m_svc(svc("tcp", src=op("gt", "1023"), dst=rng("1", "9")), False)]),
]


def ioslines():
    """every form of a line in the four kinds of lists"""
    T, U, I, G = proto("tcp"), proto("udp"), proto("icmp"), grp("g")
    W1, W2 = wild("10.2.0.0", "0.1.255.255"), wild("10.0.0.1", "0.0.255.0")
    E = dict
    both = [
        E(), E(mode="deny"), E(p=T, dport=op("eq", "80")), E(p=T, sport=op("gt", "1023"), dport=op("lt", "1024")), E(p=U, dport=op("neq", "53")),
        E(p=T, sport=rng("1", "9"), dport=rng("10", "100")), E(p=T, dport=op("eq", "www")), E(p=U, sport=op("eq", "ntp")), E(p=I), E(p=I, icmp=ic("echo")),
        E(p=I, icmp=ic("3")), E(p=I, icmp=ic("8", "0")), E(p=prgrp("s")), E(p=proto("50")), E(p=proto("ospf")), E(src=H1), E(src=W1, dst=W2), E(src=G, dst=H9),
        E(src=H9, dst=G), E(opts=[iopt("log")]), E(opts=[iopt("log-input")]), E(p=T, opts=[iopt("established")]), E(opts=[iopt("fragments")]),
        E(opts=[iopt("dscp", "af11")]), E(opts=[iopt("tos", "4")]), E(opts=[iopt("precedence", "critical")]), E(opts=[iopt("time-range", "work")]),
        E(p=T, src=H1, sport=op("eq", "1"), dst=W1, dport=op("eq", "2"), opts=[iopt("dscp", "ef"), iopt("time-range", "work"), iopt("log", "tag")]),
    ]
    alpha = [ios_ext("a", [i_ext(**e)]) for e in both] + [ios_num("101", [i_ext(**e)]) for e in both]
    std = [E(), E(mode="deny"), E(src=IH), E(src=H9), E(src=W1), E(opts=[iopt("log")]), E(src=W2, opts=[iopt("log", "x")])]
    alpha += [ios_std("b", [i_std(**e)]) for e in std] + [ios_num("10", [i_std(**e)]) for e in std]
    N6, H6 = net("2001:db8::", 32), host("2001:db8::1")
    six = [E(), E(mode="deny"), E(p=T, dport=op("eq", "80")), E(p=U, sport=rng("1", "9")), E(src=N6, dst=H6), E(src=H6), E(opts=[iopt("log")]), E(opts=[iopt("log-input")]),
           E(opts=[iopt("dscp", "ef")]), E(opts=[iopt("flow-label", "7")]), E(opts=[iopt("fragments")]), E(opts=[iopt("routing")]),
           E(opts=[iopt("dscp", "46"), iopt("log")]), E(p=proto("58")), E(opts=[iopt("mobility-type", "5")])]
    alpha += [ios_v6("s", [i_v6(10, **e)]) for e in six]
    alpha += [ios_ext("c", [(r[0], "10 " + r[1])]) for r in [i_ext(**both[2]), i_ext(**both[17])]]
    alpha += [noise("!"), noise("router ospf 1", " network 10.0.0.0 0.0.0.255 area 0")]
    return importing("ios", (2, 2), alpha, IDEFS, bounds="every form of a line of an extended, standard, numbered or IPv6 list")


# ---------------------------------------------------------------------------
# C08, C13: what names denote


NAMES = [
    name("a", "10.0.0.1"), name("ab", "10.0.0.2"),
    nobj("a", bhost("10.1.0.1")), nobj("a", bhost("10.1.0.2")), nobj("ab", bnet("10.2.0.0", 24)),
    group("ngrp", "a", [m_net(obj("a"))]), group("ngrp", "a", [m_net(H9), m_grp("ab")]), group("ngrp", "ab", [m_grp("a"), m_net(obj("ab"))]),
    group("ngrp", "ab", [m_net(nhost("a"))]),
    xacl("u", src=obj("a")), xacl("u", src=obj("ab"), dst=grp("a")), xacl("u", dst=grp("ab")), xacl("u", src=nhost("a"), dst=nnet("ab", 32)),
    nat("any", "any", "static", ref("a"), ref("ab")),
    # what has the name of an object, but is none
    iface("Vlan1", nameif("a")), sobj("a", svc("tcp", dst=op("eq", "1"))),
]


def names():
    """names, objects and groups with a common prefix, defined and used in any order"""
    return importing("asa", (3, 4), NAMES, bounds="names, network objects and groups, rules and NAT rules with them")


SVCNAMES = [
    sobj("a", svc("tcp", dst=op("eq", "1"))), sobj("a", svc("udp", src=op("eq", "2"))), sobj("ab", svc("icmp", t="echo")),
    group("sgrp", "a", [m_svc(svc("tcp", dst=op("eq", "3"))), m_sobj("a")]), group("sgrp", "ab", [m_grp("a"), m_svc(svc("gre"))]),
    group("rgrp", "a", [m_proto("tcp")]), group("rgrp", "b", [m_grp("a"), m_proto("17")]),
    group("pgrp", "p", [m_port(op("eq", "4"))], "tcp"), group("pgrp", "pa", [m_grp("p"), m_port(rng("5", "6"))], "udp"),
    group("igrp", "i", [m_icmp("echo")]), group("igrp", "ib", [m_grp("i"), m_icmp("3")]),
    time("a", per("daily", 1, 2)), time("ab", absolute((2024, 2, 29, 1, 2))), nobj("a", bhost("10.1.0.1")), iface("Vlan1", nameif("a")),
    xacl("u", p=probj("a")), xacl("u", p=probj("ab")), xacl("u", p=prgrp("a")), xacl("u", p=prgrp("ab")), xacl("u", p=prgrp("b")),
    xacl("u", p=proto("tcp"), dport=pgrp("p")), xacl("u", p=proto("udp"), sport=pgrp("pa")),
    xacl("u", p=proto("icmp"), icmp=icgrp("i")), xacl("u", p=proto("icmp"), icmp=icgrp("ib")),
    xacl("u", opts=[opt("time-range", n="a")]), xacl("u", opts=[opt("log"), opt("time-range", n="ab")]),
]


def svcnames():
    """services, protocols, ports, ICMP types and time ranges of one name"""
    return importing("asa", (3, 3), SVCNAMES, bounds="services, protocols, ports, ICMP types and time ranges, rules with them")


def resnames():
    alpha = NAMES + [iface("Vlan1", nameif("in")), agrp("u", "in", "in")]
    return importing("asa", (3, 4), alpha, bounds="names, network objects and groups, bindings, selections of rules and NAT rules", probes=resolving)


def ressvc():
    # a usable prefix so that most of the uses resolve
    return importing("asa", (2, 3), SVCNAMES, [SVCNAMES[k] for k in (0, 2, 3, 5, 7, 9, 11)], probes=resolving,
                     bounds="services, protocols, ports, ICMP types and time ranges, selections of rules")


# ---------------------------------------------------------------------------
# C14, C15: NAT

NATDEFS = [
    iface("Vlan1", nameif("in"), ipaddr("10.0.0.254", 24)), iface("Vlan2", nameif("out")),
    nobj("r", bhost("10.0.0.1")), nobj("m", bhost("192.0.2.1")), nobj("n", bnet("10.0.0.0", 24)), nobj("x", brange("192.0.2.16", "192.0.2.20")),
    group("ngrp", "g", [m_net(obj("r")), m_net(host("10.7.7.7"))]),
    sobj("s1", svc("tcp", src=op("eq", "80"))), sobj("s2", svc("tcp", src=op("eq", "8080"))),
    sobj("d1", svc("tcp", dst=op("eq", "80"))), sobj("d2", svc("tcp", dst=op("eq", "8080"))),
]
NATS = [
    nat("in", "out", "static", ref("r"), ref("m")),
    nat("in", "out", "dynamic", ref("g"), ref("x")),
    nat("in", "out", "dynamic", ref("n"), INTERFACE),
    nat("any", "out", "dynamic", ref("n"), ref("x"), fb="yes"),
    nat("in", "any", "dynamic", ref("g"), ref("m"), fb="ipv6"),
    nat("in", "out", "static", ref("r"), ref("m"), pos=True),
    nat("in", "out", "static", ref("n"), ref("n"), ref("g"), ref("m"), pos=True, posword="after-auto 1"),
    nat("in", "out", "dynamic", ref("n"), ref("x"), pos=True, posword="after-object", opts=["inactive"]),
    nat("in", "out", "static", ref("r"), ref("m"), ref("x"), ref("g")),
    nat("in", "out", "static", ref("r"), ref("r"), INTERFACE, ref("m"), ["d2", "d1"]),
    nat("in", "out", "static", ref("r"), ref("m"), svc=["s1", "s2"]),
    nat("in", "out", "static", ref("r"), ref("m"), svc=["s2", "s1"], opts=["no-proxy-arp", "route-lookup"], pos=True),
    nat("in", "out", "dynamic", ref("r"), INTERFACE, ref("m"), ref("x"), ["d1", "d2"]),
    nat("in", "out", "static", ({"t": "any"}, "any"), ({"t": "any"}, "any"), desc="all of it"),
    nat("in", "out", "static", ref("r"), ref("m"), opts=["dns", "unidirectional"], desc="x inactive"),
    nobj("o1", bhost("10.0.0.2"), nat=objnat("in", "out", "static", ahost("192.0.2.2"))),
    nobj("o2", bnet("10.3.0.0", 16), nat=objnat("in", "out", "dynamic", INTERFACE)),
    nobj("o3", bhost("10.0.0.3"), nat=objnat("in", "out", "static", ref("m"), ["tcp", "80", "8080"])),
    nobj("o4", bnet("10.4.0.0", 16), nat=objnat("any", "out", "dynamic", ref("x"), fb="yes", opts=["dns"])),
    nobj("o1", bhost("10.0.0.9"), nat=objnat("in", "out", "static", ref("m"))),
    nobj("m", bhost("192.0.2.99")),
    group("ngrp", "g", [m_net(host("10.8.8.8"))]),
    noise("nat-control"),
]


def nats():
    return importing("asa", (2, 3), NATS, NATDEFS, bounds="every form of a NAT rule, objects defined again")


NATCRITS = ["10.0.0.1", "10.0.0.2", "10.0.0.9", "10.7.7.7", "10.8.8.8", "192.0.2.1", "192.0.2.18", "10.3.1.1", "10.4.0.0/24", "2001:db8::1", "ANY4"]


def natfilters():
    """all NAT rules in one configuration, criteria, operators"""
    cmds = NATDEFS + NATS + [xacl("a", src=obj("r"), dst=grp("g"))]
    toks = [f_ip(d, c) for d in ("src", "dst") for c in NATCRITS] + [f_id("a"), f_id("b")] + OPS
    return filtering((3, 3), "asa", cmds, toks, "sources and destinations, ids, operators")


def natpairs():
    """a source and a destination on all twice NAT rules of some objects"""
    defs = NATDEFS[:7]
    rules = [nat("in", "out", "static", ref(a), ref(b), *((ref(c), ref(d)) if c else (NO, NO))) for a in ("r", "g") for b in ("r", "m")
             for c, d in (("", ""), ("r", "m"), ("m", "r"), ("x", "x"), ("g", "n"))]
    toks = [f_ip(d, c) for d in ("src", "dst") for c in ("10.0.0.1", "192.0.2.1", "10.7.7.7", "192.0.2.18", "10.0.0.0/25")]
    return filtering((3, 4), "asa", defs + rules, toks, "several sources and destinations")


# ---------------------------------------------------------------------------
# C16: interfaces, bindings, routes


def asaifs():
    alpha, once = [], []

    def add(c, u=""):
        alpha.append(c)
        once.append(u)

    add(iface("Vlan1", nameif("in"), ipaddr("10.0.0.1", 24)), "1")
    add(iface("Vlan1", ipaddr("10.0.0.1", 24, "standby 10.0.0.2"), nameif("in-2"), desc("x y")), "1")
    add(iface("Vlan1", desc("nameif in"), ({"t": "noise"}, "no nameif"), ({"t": "noise"}, "no ip address")), "1")
    add(iface("Vlan11", nameif("in-2"), ipaddr("2001:db8::1", 64), ipaddr("2001:db8:1::1", 128, "standby 2001:db8:1::2")), "2")
    add(iface("Vlan11", nameif("out"), ipaddr("10.0.1.1", 25), ({"t": "noise"}, "security-level 50"), ipaddr("10.0.1.129", 32)), "2")
    add(iface("Ethernet0/1"), "3")
    for n in ("a", "ab"):
        for d in ("in", "out"):
            for i in ("in", "in-2"):
                add(agrp(n, d, i))
    add((({"c": "noise"}, ["access-group a global"])))
    add(xacl("a"))
    add(xacl("ab"))
    return importing("asa", (3, 4), alpha, bounds="interfaces, bindings, rules in any order", once=once)


def iosifs():
    alpha, once = [], []

    def add(c, u=""):
        alpha.append(c)
        once.append(u)

    add(iface("Vlan1", ipaddr("10.0.0.1", 24), ipaddr("10.0.1.1", 24, "secondary"), l_ag("a", "in")), "1")
    add(iface("Vlan1", l_ag("a", "out"), l_ag("101", "in"), l_ag("s", "in", True), ipaddr("2001:db8::1", 64), desc("up link")), "1")
    add(iface("Vlan10", ipaddr("10.0.1.5", 25), l_ag("s", "out", True)), "2")
    add(iface("Vlan10", ipaddr("10.0.0.0", 31), mode("access")), "2")
    add(iface("Fa0", mode("trunk"), vlan("set", "1", "5-9"), vlan("add", "11"), vlan("add", "20-30", "44")), "3")
    add(iface("Fa0", vlan("set", "2"), ({"t": "noise"}, "shutdown"), vlan("set", "3", "4")), "3")
    add(iface("Fa01", ({"t": "noise"}, "no ip address")), "4")
    add(route("0.0.0.0", 0, "10.0.0.254"))
    add(route("10.5.0.0", 16, "10.0.1.4"))
    add(route("10.6.0.0", 32, "Vlan1"))
    add(route("10.7.0.0", 24, "Vlan10"))
    add(route("10.8.0.1", 32, "10.0.0.1"))
    add(ios_ext("a", [i_ext()]))
    add(ios_v6("s", [i_v6(10)]))
    return importing("ios", (3, 4), alpha, bounds="interfaces, routes, lists in any order", once=once)


# ---------------------------------------------------------------------------
# C20: definitions


def defs():
    P = [op("eq", "80"), op("gt", "1023"), op("lt", "7"), op("neq", "22"), rng("1", "65535"), op("eq", "domain")]
    alpha = [
        name("n1", "10.0.0.1"), name("n2", "2001:db8::1"), name("n3", "255.255.255.255", "all of it"),
        nobj("o1", bhost("10.0.0.1")), nobj("o2", bhost("2001:db8::1"), "a host"), nobj("o3", bnet("10.0.0.0", 15)), nobj("o4", bnet("2001:db8::", 33)),
        nobj("o5", brange("10.0.0.1", "10.0.0.9"), "x"), nobj("o6", brange("2001:db8::1", "2001:db8::1:0")), nobj("o7", bfqdn()), nobj("o8", bfqdn("y.example", "v6")),
        nobj("o9", BNONE, "nothing"), nobj("o1", bnet("0.0.0.0", 0)),
        sobj("s1", svc("tcp", P[0], P[1])), sobj("s2", svc("udp", P[4])), sobj("s3", svc("udp", dst=P[5])), sobj("s4", svc("icmp", t="echo")),
        sobj("s5", svc("icmp", t="3", c="4")), sobj("s6", svc("icmp6")), sobj("s7", svc("ospf"), "routing"), sobj("s8", svc("47")), sobj("s1", svc("tcp", dst=P[2])),
        group("ngrp", "g1", [m_net(H1), m_net(net("10.1.0.0", 16)), m_net(host("2001:db8::1")), m_net(net("2001:db8::", 32))], d="four"),
        group("ngrp", "g2", [m_net(H2), m_net(H1), m_net(H2)]), group("ngrp", "g1", [m_net(net("0.0.0.0", 0))]),
        group("pgrp", "g1", [m_port(P[0]), m_port(P[4])], "tcp"), group("pgrp", "g2", [m_port(P[5])], "tcp-udp", "names"), group("pgrp", "g3", [m_port(rng("7", "9")), m_port(P[0])], "udp"),
        group("sgrp", "g1", [m_svc(svc("tcp", P[0], P[4])), m_svc(svc("udp", dst=P[3]))]), group("sgrp", "g2", [m_svc(svc("icmp", t="echo")), m_svc(svc("icmp", t="5", c="1")), m_svc(svc("esp"))], d="a b"),
        group("sgrp", "g3", [m_svc(svc("tcp-udp", dst=P[5])), m_svc(svc("tcp", src=P[2])), m_svc(svc("51"))]),
        group("igrp", "g1", [m_icmp("echo"), m_icmp("0"), m_icmp("255")]), group("igrp", "g2", [m_icmp("echo-reply")], d="reply"),
        group("rgrp", "g1", [m_proto("tcp"), m_proto("17"), m_proto("ip")]), group("rgrp", "g2", [m_proto("255")], d="last"),
        time("t1", per("weekdays", 8, 17)), time("t2", per("Monday", 0, 23, "Friday"), per("Sunday Monday Saturday", 9, 10), per("Tuesday Thursday", 1, 2, "Wednesday")), time("t3", absolute((2012, 1, 31, 0, 0))),
        time("t4", absolute(None, (2024, 12, 1, 23, 59))), time("t5", absolute((2005, 2, 3, 4, 5), (2006, 7, 8, 9, 10)), per("daily", 1, 2)),
        noise("!"),
    ]
    return importing("asa", (2, 2), alpha, bounds="every form of a definition, pairs of them")


def nested():
    """groups of groups and objects"""
    alpha = [
        nobj("o", bhost("10.0.0.1")), nobj("a", bnet("10.9.0.0", 16)), sobj("o", svc("tcp", dst=op("eq", "1"))), sobj("a", svc("esp")),
    ]
    for k, m, o in (("ngrp", m_net(H2), m_net(obj("o"))), ("sgrp", m_svc(svc("udp", dst=op("eq", "2"))), m_sobj("o"))):
        alpha += [group(k, "a", [m]), group(k, "b", [m_grp("a"), o, m]), group(k, "c", [o, m_grp("b"), m_grp("a")])]
    for k, m in (("pgrp", m_port(op("eq", "3"))), ("igrp", m_icmp("4")), ("rgrp", m_proto("tcp"))):
        alpha += [group(k, "a", [m], "tcp" if k == "pgrp" else ""), group(k, "b", [m, m_grp("a")], "tcp" if k == "pgrp" else "")]
    return importing("asa", (3, 4), alpha, bounds="groups of groups and objects of all kinds")


def iosdefs():
    P = [op("eq", "80"), op("gt", "1023"), op("lt", "7"), op("neq", "22"), rng("1", "65535"), op("eq", "domain")]
    alpha = [
        group("ngrp", "g1", [m_net(H1, False), m_net(net("10.1.0.0", 16), False), m_net(host("2001:db8::1"), False), m_net(net("2001:db8::", 32), False)], d="four"),
        group("ngrp", "g2", [m_net(H2, False), m_net(H1, False), m_grp("g1")]),
        group("sgrp", "g1", [m_svc(svc("tcp", P[0], P[4]), False), m_svc(svc("udp", dst=P[3]), False)]),
        group("sgrp", "g2", [m_svc(svc("icmp", t="echo"), False), m_svc(svc("esp"), False), m_grp("g1")], d="a b"),
        group("sgrp", "g3", [m_svc(svc("tcp-udp", dst=P[5]), False), m_svc(svc("tcp", src=P[2]), False)]),
        ios_ext("a", [i_ext(src=grp("g1"), dst=grp("g2"))]), ios_ext("a", [i_ext(p=prgrp("g2"))]), ios_num("101", [i_ext(p=prgrp("g1"), src=grp("g2"))]),
        noise("!"),
    ]
    return importing("ios", (3, 4), alpha, bounds="network and service groups and their uses")


# ---------------------------------------------------------------------------
# C17: pfSense

PFALIAS = [
    p_alias("host", "web", ["10.0.0.1"]), p_alias("host", "web1", ["10.0.0.1", "www.example.org", "2001:db8::1"], "some"), p_alias("host", "h0", []),
    p_alias("network", "net", ["10.1.0.0/16", "2001:db8::/32"], "nets"), p_alias("network", "net1", ["0.0.0.0/0"]),
    p_alias("port", "p", ["80"]), p_alias("port", "p1", ["443", "8000:8010", "22"], "three"),
]
PFIFS = [p_if("wan", "WAN"), p_if("lan", "", "10.0.0.254/24"), p_if("opt1", "DMZ", "10.9.0.1/30"), p_if("opt10", "Guest Net")]


def pf(bound, alpha, pre=(), post=(), bounds="", once=None):
    return importing("pfsense", bound, alpha, pre, post, onlyrefs=False, bounds=bounds, cls="pfsense", order=[P_ORDER[c["c"]] for c, *_ in alpha],
                     once=once, text=p_text)


def pfrules():
    """all forms of a rule, separators"""
    alpha = [
        p_rule(["wan"]), p_rule(["lan"], "block", descr="no"), p_rule(["opt1"], "reject", src=p_addr("web")), p_rule(["opt10"], src=p_net("opt1"), dst=p_net("lan")),
        p_rule(["wan"], dst=p_addr("10.0.0.1"), proto="tcp", dport=p_port("80")), p_rule(["wan"], src=p_addr("2001:db8::/64"), proto="udp", sport=p_port("1000-2000")),
        p_rule(["lan"], dst=p_addr("net"), proto="tcp/udp", dport=p_port("p1"), sport=p_port("9-10")), p_rule(["lan"], proto="icmp", icmp="echoreq"),
        p_rule(["wan"], disabled=True, log=True), p_rule(["wan"], log=True, tracker="100"), p_rule(["wan"], state="sloppy state", descr="x"),
        p_rule(["lan"], state="keep state", disabled=True),
        p_rule(["wan", "opt1"], "match", floating="any"), p_rule(["opt10", "lan", "wan"], floating="in", src=p_addr("web1")), p_rule(["lan"], "block", floating="out", log=True),
        p_sep("wan", 0, "w0"), p_sep("wan", 1, "w1", "bg-danger"), p_sep("opt1", 0, "o0"), p_sep("floatingrules", 0, "f0"), p_sep("floatingrules", 1, "f1"), p_sep("lan", 0, "l0"),
    ]
    return pf((3, 4), alpha, PFALIAS + PFIFS, bounds="every form of a rule, separators", once=[""] * 15 + ["w0", "w1", "o0", "f0", "f1", "l0"])


def pfifs():
    """every form of an interface, what refers to it, and times"""
    alpha = [
        p_if("wan"), p_if("wan", empty=True), p_if("wan", "WAN", how="pppoe"), p_if("wan", "W", how=None, ip6="2001:db8::1/64"), p_if("wan", "WAN", "10.0.0.1/24", "2001:db8::1/128"),
        p_if("wan", "WAN", "10.0.0.1/33"), p_if("wan", "WAN", "10.0.0.1/0", how6="dhcp6"), p_if("wan", "WAN", how="", how6="track6"), p_if("wan", ip6="2001:db8::/129"),
        p_if("opt1", "DMZ", how="l2tp"), p_if("opt1", empty=True), p_if("opt1"), p_if("opt1", "DMZ", how="", ip6="::1/0"), p_if("opt1", "DMZ", "255.255.255.255/32", how6="slaac"),
        p_if("opt2", "DMZ2", how="pptp"), p_if("opt2", "A &amp;amp; B", "10.0.0.2/24"), p_if("opt2", how="ppp", empty=True),
        p_rule(["wan"], src=p_net("opt1")), p_rule(["opt1"], dst=p_net("opt2")), p_rule(["opt2"], nodescr=True, dst=p_net("wan")), p_rule(["openvpn"], descr="x"),
        p_rule(["any"], floating="any", nodescr=True), p_rule(["opt2", "enc0", "opt1"], floating="in"),
        p_rule(["wan"], bad="<created><time>1580391654.5345</time></created>", ok=True), p_rule(["wan"], bad="<updated><time>1400000000</time><username>x</username></updated><created/>", ok=True),
        p_sep("openvpn", 0, ""), p_sep("wan", 0, "w0"),
    ]
    return pf((3, 4), alpha, bounds="every form of an interface, rules of and with them", once=["wan"] * 9 + ["opt1"] * 5 + ["opt2"] * 3 + [""] * 8 + ["s1", "s2"])


def pfdefs():
    """aliases and interfaces, and what refers to them"""
    alpha = PFALIAS + PFIFS + [
        p_rule(["wan"], src=p_addr("web"), dst=p_addr("web1")), p_rule(["opt1"], src=p_net("opt10")), p_rule(["lan"], src=p_net("lan"), dport=p_port("p"), proto="tcp"),
        p_rule(["wan"], dst=p_addr("net1"), dport=p_port("p1"), proto="udp"), p_rule(["opt10"], "block", bad="<unknowntag/>"), p_rule(["wan"], proto="tcp", dport=p_port("10-9")),
    ]
    return pf((4, 5), alpha, bounds="aliases, interfaces, rules with them", once=[c.get("n") or c.get("alias") or "" for c, _ in alpha])


TLINES = ["10.0.0.1", "2001:db8::1", "10.1.0.0/16", "2001:db8::/32", "10.0.0.1/32", "0.0.0.0/0", "::/0", "10.2.0.0/255.255.0.0", " 10.0.0.9 ", "\t10.3.0.0/16",
          "10.0.0.1/24", "2001:db8::1/64", "10.0.0.0/33", "2001:db8::/129", "10.0.0.256", "300.0.0.0/8", "10.0.0", "", "# 10.0.0.1", "# a/b", "www.example.org", "a/24", "10.0.0.1 10.0.0.2", "/"]


def tables():
    """URL tables: each kind of line, alone and behind and before others; not reached; not fetched"""
    def t(n, u, lines, **kw):
        x = p_table(n, u, lines, **kw)
        return x[0], x[1], x[2]

    good = ["10.0.0.1", "10.1.0.0/16"]
    alpha = [t("t", "ok", [l]) for l in TLINES] + [t("t", "ok", [good[0], l, good[1]]) for l in TLINES] + [t("t", "ok", good[:1] * 2), t("t", "ok", good, nl="\r\n"), t("t", "ok", [])]
    alpha += [t("t", "fail", good, status=x) for x in (404, 403, 500, 0)] + [t("t", "fail", good + ["äöü"], enc="latin-1")]
    n = len(alpha)
    alpha += [t("u", "ok", good[1:]), t("u", "fail", [], status=500), p_alias("host", "u", ["10.0.0.9"])]
    alpha += [p_rule(["wan"], src=p_addr("t")), p_rule(["wan"], dst=p_addr("u")), p_rule(["wan"], src=p_addr("u"), dst=p_addr("t"))]
    return pf((3, 4), alpha, [p_if("wan", "WAN")], bounds="every kind of line in every place, tables which are not to be had", once=["t"] * n + ["u"] * 3 + [""] * 3)


def notables():
    """the same, not to be fetched"""
    t = [p_table(n, "off", l) for n, l in (("t", ["10.0.0.1"]), ("t", []), ("u", ["10.1.0.0/16"]))]
    alpha = [(*x[:2], x[2]) for x in t] + [p_alias("host", "u", ["10.0.0.9"]), p_rule(["wan"], src=p_addr("t")), p_rule(["wan"], dst=p_addr("u")), p_rule(["wan"], src=p_addr("u"), dst=p_addr("t"))]
    return pf((3, 4), alpha, [p_if("wan", "WAN")], bounds="URL tables which are not to be fetched", once=["t", "t", "u", "u", "", "", ""])


# ---------------------------------------------------------------------------
# C09: every value at its bounds, in every position


class Bounds:
    """(command, within its bounds)"""

    PORTS = [("0", 1), ("1", 1), ("9", 1), ("1023", 1), ("65534", 1), ("65535", 1), ("65536", 0), ("65537", 0), ("65540", 0), ("70000", 0), ("99999", 0), ("100000", 0), ("655350", 0)]
    RANGES = [("0", "1", 1), ("0", "65535", 1), ("65534", "65535", 1), ("9", "10", 1), ("99", "100", 1), ("5", "10000", 1), ("999", "1000", 1), ("0", "0", 0), ("80", "80", 0),
              ("65535", "65535", 0), ("1", "0", 0), ("10", "9", 0), ("100", "99", 0), ("10000", "9999", 0), ("65535", "65534", 0), ("1", "65536", 0), ("65535", "65536", 0),
              ("65536", "65537", 0), ("2", "10", 1), ("10", "2", 0)]
    BYTES = [("0", 1), ("1", 1), ("99", 1), ("100", 1), ("254", 1), ("255", 1), ("256", 0), ("257", 0), ("260", 0), ("300", 0), ("999", 0), ("1000", 0), ("65535", 0)]
    HOSTS4 = [("0.0.0.0", 1), ("255.255.255.255", 1), ("10.0.0.255", 1), ("10.255.0.1", 1), ("10.0.0.256", 0), ("10.0.256.0", 0), ("10.256.0.0", 0), ("256.0.0.0", 0), ("10.0.0.999", 0), ("300.1.1.1", 0)]
    HOSTS6 = [("::", 1), ("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", 1), ("2001:db8::1", 1)]
    BAD6 = ["2001:db8::12345", "1::2::3", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7"]
    MASKS = [(str(ipaddress.ip_address(mask(4, n))), 1) for n in range(33)] + [(str(ipaddress.ip_address(mask(4, n) ^ 0xFFFFFFFF)), 1) for n in range(1, 32)] + [
        (m, 0) for m in ("255.0.255.0", "255.255.255.253", "128.0.0.1", "0.0.255.0", "254.255.255.255", "0.255.0.255", "255.255.255.5", "127.255.255.254", "64.0.0.0",
                         "255.255.256.0", "255.255.255.256", "1.0.0.0", "0.0.0.2")]
    LENS6 = [(0, 1), (1, 1), (64, 1), (127, 1), (128, 1), (129, 0), (130, 0), (256, 0), (999, 0)]
    PAIRS = [("10.0.0.1", "10.0.0.1", 1), ("10.0.0.1", "10.0.0.2", 1), ("10.0.0.2", "10.0.0.1", 0), ("9.0.0.0", "10.0.0.0", 1), ("10.0.0.0", "9.0.0.0", 0), ("10.0.0.9", "10.0.0.10", 1),
             ("10.0.0.10", "10.0.0.9", 0), ("255.255.255.254", "255.255.255.255", 1), ("10.0.1.0", "10.0.0.255", 0), ("10.0.0.1", "10.0.0.256", 0), ("0.0.0.0", "0.0.0.7", 1),
             ("2001:db8::1", "2001:db8::2", 1), ("2001:db8::2", "2001:db8::1", 0), ("::9", "::10", 1), ("::10", "::f", 0), ("::", "::", 1)]

    def __init__(self):
        self.all = []

    def add(self, ok, *cs):
        for c in cs:
            self.all.append((c, bool(ok)))


def bounds():
    """ASA"""
    b = Bounds()
    T, I = proto("tcp"), proto("icmp")
    for p, k in b.PORTS:
        for o in ("eq", "gt", "lt", "neq"):
            b.add(k, xacl("a", p=T, sport=op(o, p)), xacl("a", p=T, dport=op(o, p), opts=[opt("log")]), sobj("s", svc("tcp", src=op(o, p))),
                  sobj("s", svc("udp", dst=op(o, p))), group("sgrp", "g", [m_svc(svc("tcp", op(o, p), op("eq", "1")))]), group("sgrp", "g", [m_svc(svc("tcp-udp", dst=op(o, p)))]))
        b.add(k, group("pgrp", "g", [m_port(op("eq", p))], "tcp"), nobj("o", bhost("10.0.0.1"), nat=objnat("any", "any", "static", ahost("10.0.0.2"), ["tcp", p, "1"])),
              nobj("o", bhost("10.0.0.1"), nat=objnat("any", "any", "static", ahost("10.0.0.2"), ["udp", "1", p])))
    for x, y, k in b.RANGES:
        r = rng(x, y)
        b.add(k, xacl("a", p=T, sport=r), xacl("a", p=T, dport=r), sobj("s", svc("tcp", src=r)), sobj("s", svc("tcp", dst=r)), group("pgrp", "g", [m_port(op("eq", "1")), m_port(r)], "udp"),
              group("sgrp", "g", [m_svc(svc("tcp", src=r))]), group("sgrp", "g", [m_svc(svc("udp", op("eq", "1"), r))]))
    for n, k in b.BYTES:
        b.add(k, xacl("a", p=proto(n)), sobj("s", svc(n)), group("sgrp", "g", [m_svc(svc(n))]), group("rgrp", "g", [m_proto("tcp"), m_proto(n)]))
        for i in ("icmp", "icmp6"):
            b.add(k, xacl("a", p=proto(i), icmp=ic(n)), xacl("a", p=proto(i), icmp=ic("8", n)), sobj("s", svc(i, t=n)), sobj("s", svc(i, t="3", c=n)),
                  group("sgrp", "g", [m_svc(svc(i, t=n))]), group("sgrp", "g", [m_svc(svc(i, t="3", c=n))]))
        b.add(k, group("igrp", "g", [m_icmp("echo"), m_icmp(n)]))
    for h, k in b.HOSTS4 + b.HOSTS6:
        b.add(k, xacl("a", src=host(h)), xacl("a", dst=host(h)), nobj("o", bhost(h)), group("ngrp", "g", [m_net(host(h))]))
        if "." in h:
            b.add(k, name("n", h), acl("a", [std("a", "permit", host(h))]), xacl("a", src=netm(h, "255.255.255.255")), xacl("a", dst=netm(h, "255.255.255.255")),
                  group("ngrp", "g", [m_net(H1), m_net(netm(h, "255.255.255.255"))]), nobj("o", netm(h, "255.255.255.255", "subnet")[0:1] + ("subnet " + h + " 255.255.255.255",)))
    for h in b.BAD6:
        a, t = bad6(h)
        x = {"t": "host", "a": a}, "host " + t
        b.add(0, xacl("a", src=x), xacl("a", dst=x), nobj("o", x), group("ngrp", "g", [m_net(x)]))
    for m, k in b.MASKS:
        a = "0.0.0.0"
        x = netm(a, m)
        s = netm(a, m, "subnet")
        b.add(k, xacl("a", src=x), xacl("a", dst=x), acl("a", [std("a", "permit", x)]), group("ngrp", "g", [m_net(x)]), nobj("o", (s[0], "subnet " + s[1])))
    for n, k in b.LENS6:
        x = net6("::", n)
        s = net6("::", n, "subnet")
        b.add(k, xacl("a", src=x), xacl("a", dst=x), group("ngrp", "g", [m_net(x)]), nobj("o", (s[0], "subnet " + s[1])))
    for x, y, k in b.PAIRS:
        b.add(k, nobj("o", brange(x, y)))
    return importing("asa", (1, 1), [c for c, _ in b.all], onlyrefs=False, bounds="each value at and beyond its bounds in each position",
                     within=["in" if k else "out" for _, k in b.all])


def iosbounds():
    b = Bounds()
    T, I = proto("tcp"), proto("icmp")
    both = [lambda **e: ios_ext("a", [i_ext(**e)]), lambda **e: ios_num("101", [i_ext(**e)])]
    for p, k in b.PORTS:
        for o in ("eq", "gt", "lt", "neq"):
            for f in both:
                b.add(k, f(p=T, sport=op(o, p)), f(p=T, dport=op(o, p)))
            b.add(k, ios_v6("s", [i_v6(1, p=T, sport=op(o, p))]), ios_v6("s", [i_v6(1, p=T, dport=op(o, p))]), group("sgrp", "g", [m_svc(svc("tcp", dst=op(o, p)), False)]),
                  group("sgrp", "g", [m_svc(svc("tcp", op(o, p), op("eq", "1")), False)]))
    for x, y, k in b.RANGES:
        r = rng(x, y)
        for f in both:
            b.add(k, f(p=T, sport=r), f(p=T, dport=r))
        b.add(k, ios_v6("s", [i_v6(1, p=T, sport=r)]), ios_v6("s", [i_v6(1, p=T, dport=r)]), group("sgrp", "g", [m_svc(svc("tcp", src=r), False)]), group("sgrp", "g", [m_svc(svc("udp", dst=r), False)]))
    for n, k in b.BYTES:
        for f in both:
            b.add(k, f(p=proto(n)), f(p=I, icmp=ic(n)), f(p=I, icmp=ic("3", n)))
        b.add(k, ios_v6("s", [i_v6(1, p=proto(n))]), group("sgrp", "g", [m_svc(svc(n), False)]), group("sgrp", "g", [m_svc(svc("icmp", t=n), False)]), group("sgrp", "g", [m_svc(svc("icmp", t="3", c=n), False)]))
    for h, k in b.HOSTS4:
        for f in both:
            b.add(k, f(src=host(h)), f(dst=host(h)), f(src=wild(h, "0.0.0.255")), f(dst=wild(h, "0.255.0.255")), f(src=wild("10.0.0.0", h)), f(dst=wild("10.0.0.0", h)))
        x = host(h)
        b.add(k, ios_std("b", [i_std("permit", x)]), ios_std("b", [i_std("permit", (x[0], h))]), ios_num("10", [i_std("permit", x)]), ios_num("10", [i_std("deny", (x[0], h))]),
              ios_std("b", [i_std("permit", wild(h, "0.0.0.1"))]), ios_num("10", [i_std("deny", wild("10.0.0.0", h))]), group("ngrp", "g", [m_net(x, False)]),
              group("ngrp", "g", [m_net(netm(h, "255.255.255.255"), False)]))
    for h, k in b.HOSTS6:
        b.add(k, ios_v6("s", [i_v6(1, src=host(h))]), ios_v6("s", [i_v6(1, dst=host(h))]), group("ngrp", "g", [m_net(host(h), False)]))
    for h in b.BAD6:
        a, t = bad6(h)
        x = {"t": "host", "a": a}, "host " + t
        b.add(0, ios_v6("s", [i_v6(1, src=x)]), ios_v6("s", [i_v6(1, dst=x)]), group("ngrp", "g", [m_net(x, False)]))
    for m, k in b.MASKS:
        b.add(k, group("ngrp", "g", [m_net(netm("0.0.0.0", m), False)]))
    for n, k in b.LENS6:
        x = net6("::", n)
        b.add(k, ios_v6("s", [i_v6(1, src=x)]), ios_v6("s", [i_v6(1, dst=x)]), group("ngrp", "g", [m_net(x, False)]))
    return importing("ios", (1, 1), [c for c, _ in b.all], onlyrefs=False, bounds="each value at and beyond its bounds in each position",
                     within=["in" if k else "out" for _, k in b.all])


# ---------------------------------------------------------------------------
# C25: what a configuration says of its device


def ident(dia):
    A = []

    def one(c, v, *lines):
        A.append(({"c": c, "v": v}, list(lines)))

    for v in ("a", "b-1", "1c", "D_x.y"):
        one("hostname", v, "hostname " + v)
    one("hostname", "e", "hostname \t e ")
    for v in ("a", "d.example", "2.example"):
        one("domain", v, ("domain-name " if dia == "asa" else "ip domain name ") + v)
    one("domain", "f.example", ("domain-name" if dia == "asa" else "ip domain-name") + "  f.example\t")
    for v in (["ASA Version 9.1(2)", "FWSM Version 4.0(13) <context>"] if dia == "asa" else ["12.4", "15.1 x"]):
        one("version", v, v if dia == "asa" else "version " + v)
    for l in (["no hostname x", "no domain-name x", "names", ": hostname x", "! domain-name x", "dns server-group D\n domain-name x\n name-server 10.0.0.9", "group-policy g attributes\n default-domain value x", "boot system x", "snmp-map m\n deny version 1"]
              if dia == "asa" else
              ["no hostname x", "no ip domain name x", "ip domain list x", "ip domain lookup", "ip domain name vrf v x", "ip host x 10.0.0.9", "! hostname x", "banner motd ^Chostname x\nip domain name x\nversion 1\n^C",
               "ip dhcp pool p\n domain-name x", "ip ssh version 2", "crypto pki trustpoint t\n hostname x", "ip domain-lookup"]):
        A.append(noise(l))
    if dia == "asa":
        A += [acl("a", [remark("a", "hostname x")]), iface("Vlan1", desc("hostname x")), nobj("hostname", bhost("10.0.0.1"), "domain-name x"), name("domain-name", "10.0.0.1", "hostname x")]
    else:
        A += [ios_ext("a", [i_remark("a", "hostname x"), i_ext()]), iface("Vlan1", desc("hostname x"))]
    return importing(dia, (3, 4), A, bounds="all orders of what names the device and what looks like it")


def asaident():
    return ident("asa")


def iosident():
    return ident("ios")


# ---------------------------------------------------------------------------
# C24: what is ignored changes nothing


def quiet(cmds):
    """the commands without what is ignored"""
    out = []
    for c, ls in cmds:
        if c["c"] == "noise":
            continue
        if c["c"] == "if":
            k = [j for j, l in enumerate(c["lines"]) if l["t"] != "noise"]
            c, ls = {**c, "lines": [c["lines"][j] for j in k]}, [ls[0]] + [ls[1 + j] for j in k]
        out.append((c, ls))
    return out


def ignoring(dia, firsts, seconds, pre=()):
    """an ignored command of every form behind each of the first and before each of the second commands"""
    ns = [noise(*ls) for _, ls in ignored.commands(dia)]
    alpha = list(firsts) + ns + list(seconds)
    o = [1] * len(firsts) + [2] * len(ns) + [3] * len(seconds)
    m = importing(dia, (3, 3), alpha, pre, onlyrefs=False, bounds="a command, any ignored one, another command", order=o, once=["f"] * len(firsts) + ["n"] * len(ns) + ["s"] * len(seconds))

    def sessions(beh):
        for h in beh:
            cmds = list(pre) + [alpha[i - 1] for i in h]
            q = quiet(cmds)
            if q != cmds:
                yield [load(dia, q), {**load(dia, cmds), "a": "same"}]

    return {**m, "sessions": sessions}


def asanoise():
    pre = [name("h1", "10.0.0.1")]
    firsts = [
        acl("a", [ext("a", src=H1)]), nobj("o", bhost("10.0.0.1")), nobj("o", bhost("10.0.0.2"), nat=objnat("any", "any", "static", ahost("192.0.2.2"))), group("ngrp", "o", [m_net(H1), m_net(H2)]), sobj("s", svc("tcp", dst=op("eq", "80"))),
        time("t", per("Monday", 8, 17)), iface("Vlan1", nameif("in"), ipaddr("10.0.0.1", 24)),
    ]
    seconds = [acl("a", [remark("a", "x"), ext("a", dst=H2)]), acl("a", [ext("a", p=proto("tcp"), src=obj("o"))]), nobj("p", brange("10.0.0.1", "10.0.0.9")), iface("Vlan2", ipaddr("10.0.1.1", 24))]
    return ignoring("asa", firsts, seconds, pre)


def iosnoise():
    pre = []
    firsts = [
        ios_ext("a", [i_ext("deny", src=H1)]), ios_std("b", [i_std(src=IH)]), ios_v6("s", [i_v6(10)]), ios_num("101", [i_ext()]), group("ngrp", "g", [m_net(H1, False), m_net(net("10.1.0.0", 16), False)]),
        iface("Vlan1", ipaddr("10.0.0.1", 24), l_ag("a", "in")), route("10.5.0.0", 16, "10.0.0.9"),
    ]
    seconds = [ios_ext("c", [i_remark("c", "x"), i_ext(dst=H2)]), ios_num("101", [i_remark("101", "y"), i_ext("deny")]), iface("Vlan2", ipaddr("10.0.1.1", 24)), route("10.6.0.0", 16, "10.0.0.9")]
    return ignoring("ios", firsts, seconds, pre)


def ifnoise(dia, body, after):
    """an interface with lines which are ignored in every place"""
    alpha, once = [], []
    for x in ignored.IFLINES[dia]:
        for j in range(len(body) + 1):
            alpha.append(iface("Vlan1", *body[:j], ({"t": "noise"}, x), *body[j:]))
            once.append("if")
    for c in after:
        alpha.append(c)
        once.append("")
    m = importing(dia, (2, 3), alpha, onlyrefs=False, bounds="an interface with a line which is ignored in any place", once=once)

    def sessions(beh):
        for h in beh:
            cmds = [alpha[i - 1] for i in h]
            q = quiet(cmds)
            if q != cmds:
                yield [load(dia, q), {**load(dia, cmds), "a": "same"}]

    return {**m, "sessions": sessions}


def asaifnoise():
    return ifnoise("asa", [nameif("in"), ipaddr("10.0.0.1", 24), desc("x")], [iface("Vlan2", nameif("out")), xacl("a"), agrp("a", "in", "in")])


def iosifnoise():
    return ifnoise("ios", [ipaddr("10.0.0.1", 24), l_ag("a", "in"), vlan("set", "1", "5-9")], [iface("Vlan2", ipaddr("10.0.1.1", 24)), ios_ext("a", [i_ext()])])


HELPERS = ("ident", "quiet", "ignoring", "ifnoise", "importing", "filtering", "count", "resolving", "load", "combos", "ones", "Place", "iopt", "pf", "Bounds", "acting", "groupload", "piece", "both", "sequences", "grouping")
MODELS = {k: v for k, v in globals().items() if callable(v) and v.__module__ == __name__ and k not in HELPERS}
# which models decide which property, and in how many parts they are explored
USES = {
    "C01": {"cover": 8},
    "C02": {"anys": 8, "literals": 8},
    "C03": {"globs": 8},
    "C04": {"expressions": 8},
    "C05": {"sets": 8},
    "C06": {"remarks": 8, "asalines": 8},
    "C07": {"iosrem": 8, "ioslines": 8},
    "C08": {"names": 8, "svcnames": 8},
    "C09": {"bounds": 8, "iosbounds": 8},
    "C10": {"expanding": 8},
    "C11": {"sorting": 8, "resorting": 8},
    "C12": {"collapsing": 8, "recollapsing": 8},
    "C13": {"resnames": 8, "ressvc": 8},
    "C14": {"nats": 8},
    "C15": {"natfilters": 8, "natpairs": 8},
    "C16": {"asaifs": 8, "iosifs": 8},
    "C17": {"pfrules": 8, "pfdefs": 8, "pfifs": 8},
    "C18": {"histories": 8, "leaks": 8},
    "C19": {"dialects": 8},
    "C20": {"defs": 8, "nested": 8, "iosdefs": 8},
    "C21": {"overlaps": 8},
    "C22": {"copies": 8},
    "C24": {"asanoise": 8, "iosnoise": 8, "asaifnoise": 2, "iosifnoise": 2},
    "C23": {"tables": 8, "notables": 2},
    "C25": {"asaident": 8, "iosident": 8},
}
