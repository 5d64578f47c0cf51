"""Projection of the public state of acltk objects to token sequences.

Mirrors Proj.tla: everything the specification determines is read from public
attributes and written as flat lists of strings, so that TLC can compare it.
"""
import datetime
import ipaddress

from acltk import aclObjects as A
from acltk import fwsmObjects as F

GROUPS = (
    (A.NetworkGroup, "ngrp"),
    (A.ServiceGroup, "sgrp"),
    (A.PortGroup, "pgrp"),
    (A.ICMPGroup, "igrp"),
    (A.ProtocolGroup, "rgrp"),
)
KINDS = {
    "ngrp": ("groups", "network"),
    "sgrp": ("groups", "service"),
    "pgrp": ("groups", "port"),
    "igrp": ("groups", "icmp"),
    "rgrp": ("groups", "protocol"),
    "nobj": ("objects", "network"),
    "sobj": ("objects", "service"),
    "time": ("objects", "time"),
}


def S(x):
    """text values: None is empty, CR is a line end, not a part of the text"""
    return "" if x is None else str(x).rstrip("\r")


def limbs(v, n):
    if v == 4:
        return [(n >> s) & 255 for s in (24, 16, 8, 0)]
    return [(n >> s) & 65535 for s in range(112, -1, -16)]


def limbstr(v, n):
    return ".".join(str(i) for i in limbs(v, n))


def patstr(v, x, care):
    return f"p{v}:{limbstr(v, x & care)}/{limbstr(v, care)}"


def full(v):
    return (1 << (32 if v == 4 else 128)) - 1


def address(a):
    """the address of the limbs of a command"""
    n = 0
    for l in a["l"]:
        n = n << (8 if a["v"] == 4 else 16) | l
    return (ipaddress.IPv4Address if a["v"] == 4 else ipaddress.IPv6Address)(n)


def addrstr(a):
    a = ipaddress.ip_address(str(a))
    return f"a{a.version}:{limbstr(a.version, int(a))}"


def target(o):
    t = getattr(o, "target", None)
    return ["@" + S(t.hostname)] if t is not None else []


def porttok(p):
    if isinstance(p, A.Port):
        return f"{S(p.op)} {S(p.num)}"
    if isinstance(p, A.PortRange):
        return f"range {S(p.start)} {S(p.stop)}"
    return f"eq {S(p)}"  # the ports of object NAT


def time_of(t):
    return f"{t.hour}:{t.minute}"


def date_of(t):
    return "" if t is None else f"{t.year}-{t.month}-{t.day} {time_of(t)}"


def timetoks(t):
    r = []
    for o in t.objects:
        if isinstance(o, A.TimeRangeObjectAbsolute):
            r += ["abs", date_of(o.start), date_of(o.end)]
        else:
            ed = o.endDays
            if isinstance(ed, (list, tuple)):
                ed = "".join(S(i) for i in ed)
            days = [o.startDays] if isinstance(o.startDays, str) else [S(i) for i in o.startDays]
            r += ["per"] + days + [time_of(o.startTime), S(ed), time_of(o.endTime)]
    return r


def toks(o):
    if o is None:
        return ["none"]
    if isinstance(o, F.Webtype):
        return ["url", S(o.url)]
    if isinstance(o, A.NetworkAny4):
        return ["any4"]
    if isinstance(o, A.NetworkAny6):
        return ["any6"]
    if isinstance(o, A.NetworkAny):
        return ["any"]
    if isinstance(o, A.NetworkInterface):
        return ["if", S(o.name)]
    if isinstance(o, A.NetworkHost):
        v = o.address.version
        return [patstr(v, int(o.address), full(v))] + target(o)
    if isinstance(o, A.Network):
        v = o.network.version
        return [patstr(v, int(o.network.network_address), int(o.network.netmask))] + target(o)
    if isinstance(o, A.NetworkWildcard):
        return [patstr(4, int(o.address), full(4) & ~int(o.wildcard))]
    if isinstance(o, A.NetworkObject):
        return ["nobj", S(o.name), "{"] + memtoks(o.addresses) + ["}"]
    if isinstance(o, A.ServiceObject):
        return ["sobj", S(o.name), "{"] + svctoks(o) + ["}"]
    if isinstance(o, A.Service):
        return svctoks(o)
    if isinstance(o, A.Protocol):
        return ["proto", S(o.name)]
    if isinstance(o, (A.Port, A.PortRange)):
        return ["port", porttok(o)]
    if isinstance(o, A.ICMP):
        return ["icmp", S(o.type), S(o.code)]
    for cls, k in GROUPS:
        if isinstance(o, cls):
            return [k, S(o.name), "{"] + memtoks(o.objects) + ["}"]
    if isinstance(o, A.TimeRange):
        return ["time", S(o.name)] + timetoks(o)
    if isinstance(o, A.Name):
        return ["name", S(o.hostname), addrstr(o.address)]
    if isinstance(o, A.Interface):
        return ["iface", S(o.alias)]
    if isinstance(o, A.InterfaceAccessGroup):
        return ["binding"]
    if isinstance(o, str):
        return ["id", S(o)]
    return ["?" + type(o).__name__]


def svctoks(o):
    def port(p):
        return ["none"] if p is None else ["port", porttok(p)]

    return ["svc", S(o.protocol.name)] + port(o.src) + port(o.dst) + [S(o.icmp_type), S(o.icmp_code)]


def memtoks(l):
    r = []
    for o in l:
        r += toks(o)
    return r


def flatten(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return [j for i in x for j in flatten(i)]
    return [S(x)]


def opttoks(k, v):
    if isinstance(v, A.ACLRuleOptionLog):
        return [k] + [i for i in flatten(v.options) if i != ""]
    if isinstance(v, A.ACLRuleOptionInActive):
        return [k]
    if isinstance(v, A.TimeRange):
        return [k, S(v.name)] + timetoks(v)
    if isinstance(v, A.ACLRuleOptionInterface):
        return [k, S(v.direction)] + [S(i) for i in v.interfaces]
    return [k, S(v)]


def remtoks(r, dia):
    rem = [S(i) for i in (r.remark or [])]
    # the second remark of a pfSense rule is its age, which depends on today
    return rem[:1] if dia == "pfsense" else rem


def rule(r, dia):
    o = {
        "id": [S(r.id)],
        "mode": [S(r.mode)],
        "proto": toks(r.protocol),
        "src": toks(r.src.host),
        "sport": toks(r.src.port),
        "dst": toks(r.dst.host),
        "dport": toks(r.dst.port),
        "icmp": toks(r.icmp),
        "opts": [opttoks(k, v) for k, v in (r.options or {}).items()],
        "rem": remtoks(r, dia),
    }
    o["head"] = [t for c in (r.head or []) for t in (S(c.text), S(c.bg))]
    return o


def side(s):
    src = s.src.node if s.src is not None else None
    dst = s.dst.node if s.dst is not None else None
    return toks(src) + ["->"] + toks(dst)


def fallback(f):
    f = [i for i in f if i is not None] if isinstance(f, (list, tuple)) else ([f] if f is not None else [])
    if not f:
        return ""
    f = f[0]
    if f.interface is None:
        return ""
    n = f.interface.name if isinstance(f.interface, A.NetworkInterface) else f.interface
    return S(n) + (" ipv6" if f.ipv6 else "")


def nat(n):
    return {
        "ifs": [S(n.real.iface.name), S(n.mapped.iface.name)],
        "type": [S(n.mapped.src.type) if n.mapped.src is not None else ""],
        "real": side(n.real),
        "mapped": side(n.mapped),
        "fb": [fallback(n.mapped.src.fallback) if n.mapped.src is not None else ""],
        "rsvc": toks(n.real.service),
        "msvc": toks(n.mapped.service),
        "desc": [S(n.description)],
        "opts": [S(k) for k, v in n.options.items() if v],
    }


def vlantoks(sw):
    r = []
    if sw is not None and sw.trunk is not None:
        for v in sw.trunk.items:
            r.append(f"{S(v.start)}-{S(v.end)}" if isinstance(v, A.VLANRange) else S(v.value))
    return r


def iface(i, routes):
    return {
        "alias": [S(i.alias)],
        "nameif": [S(i.nameif)],
        "desc": [S(i.description)],
        "addrs": [f"{addrstr(a.interface.ip)}/{a.interface.network.prefixlen}" for a in i.addresses],
        "mode": [S(i.switchport.mode) if i.switchport is not None else ""],
        "vlans": vlantoks(i.switchport),
        "ags": [[S(k), S(v.name), S(v.direction)] for k, v in i.access_groups.items()],
        "routes": [str(k) for k, r in enumerate(routes, 1) if any(r is x for x in i.routes)],
    }


def listing(cfg, k):
    kind, attr = KINDS[k]
    r = []
    for n, o in getattr(getattr(cfg, kind), attr).items():
        head = [S(n), S(getattr(o, "description", "")), ""]
        if k == "pgrp":
            head[2] = S(o.protocol.name)
        if k == "nobj":
            r.append(head + memtoks(o.addresses))
        elif k == "sobj":
            r.append(head + svctoks(o))
        elif k == "time":
            r.append(head + timetoks(o))
        else:
            r.append(head + memtoks(o.objects))
    return r


def groups(cfg):
    return {k: listing(cfg, k) for k in ("ngrp", "sgrp", "pgrp", "igrp", "rgrp")}


def gwtok(gw):
    return S(gw.alias) if isinstance(gw, A.Interface) else addrstr(gw)


def dialect(cfg):
    n = type(cfg).__name__
    return {"fwsmConfig": "asa", "ACLConfig": "asa", "iosConfig": "ios", "pfsenseConfig": "pfsense"}.get(n, n)


def config(cfg):
    dia = dialect(cfg)
    routes = list(getattr(cfg, "routes", []))
    o = {
        "ok": True,
        "err": "",
        "dia": dia,
        "host": S(cfg.hostname),
        "dom": S(cfg.domainname),
        "name": S(cfg.name).removesuffix("."),
        "ver": S(getattr(cfg, "version", "")).strip(),
        "rules": [rule(r, dia) for r in cfg.rules.rules],
        "nats": [[nat(n) for n in cfg.nat[s]] for s in (1, 2, 3)],
        "ifs": [iface(i, routes) for i in cfg.interfaces.values()],
        "agrp": [
            [S(n), S(getattr(g.iface, "alias", g.iface)), S(g.direction)] for n, l in cfg.access_groups.items() for g in l
        ],
        "routes": [
            [
                patstr(r.network.version, int(r.network.network_address), int(r.network.netmask)),
                gwtok(r.gw),
            ]
            for r in routes
        ],
        "names": [[S(n.hostname), addrstr(n.address), S(n.description).lstrip(" ")] for n in cfg.names.objects],
    }
    for k in ("nobj", "sobj", "time"):
        o[k] = listing(cfg, k)
    o.update(groups(cfg))
    return o
