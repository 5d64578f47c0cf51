"""Literal commands: abstract values (as in Config.tla) and their texts, for the alphabets of the bounded models."""
import html
import ipaddress

from vals import A, NOADDR, codes, mask, num

NONE = {"t": "none"}


def addr(s):
    o = s.split(".")
    if len(o) == 4 and all(x.isdigit() for x in o):  # an octet may be too large
        return {"v": 4, "l": [int(x) for x in o]}
    a = ipaddress.ip_address(s)
    return A(a.version, int(a))


def bad6(s):
    """the text of no IPv6 address"""
    return {"v": 6, "l": [0] * 7 + [70000]}, s


# -- terms: (abstract, words)
ANY, ANY4, ANY6 = ({"t": "any"}, "any"), ({"t": "any4"}, "any4"), ({"t": "any6"}, "any6")


def host(s):
    return {"t": "host", "a": addr(s)}, "host " + s


def net(s, n, t="net"):
    a = addr(s)
    if a["v"] == 4:
        m = mask(4, n)
        return {"t": t, "a": a, "p": -1, "m": A(4, m)}, f"{s} {ipaddress.ip_address(m)}"
    return {"t": t, "a": a, "p": n, "m": NOADDR}, f"{s}/{n}"


def netm(s, m, t="net"):
    """a network with any mask"""
    return {"t": t, "a": addr(s), "p": -1, "m": addr(m)}, f"{s} {m}"


def net6(s, n, t="net"):
    """with any length"""
    return {"t": t, "a": addr(s), "p": n, "m": NOADDR}, f"{s}/{n}"


def wild(s, w):
    return {"t": "wild", "a": addr(s), "w": addr(w)}, f"{s} {w}"


def obj(n):
    return {"t": "obj", "n": n}, "object " + n


def grp(n):
    return {"t": "grp", "n": n}, "object-group " + n


def nhost(n):
    return {"t": "nhost", "n": n}, "host " + n


def nnet(n, p):
    m = mask(4, p)
    return {"t": "nnet", "n": n, "p": -1, "m": A(4, m)}, f"{n} {ipaddress.ip_address(m)}"


def if_(n):
    return {"t": "if", "n": n}, "interface " + n


# -- ports
def pnum(s):
    return num(s) if s.isdigit() else {"s": s, "i": -1}


def op(o, s):
    return {"t": "op", "op": o, "p": pnum(s)}, f"{o} {s}"


def rng(a, b):
    return {"t": "range", "a": pnum(a), "b": pnum(b)}, f"range {a} {b}"


def pgrp(n):
    return {"t": "grp", "n": n}, "object-group " + n


# -- protocols
def proto(s):
    return {"t": "p", "s": s, "i": num(s)["i"] if s.isdigit() else -1}, s


def prgrp(n):
    return {"t": "grp", "n": n}, "object-group " + n


def probj(n):
    return {"t": "sobj", "n": n}, "object " + n


def ic(t, c=""):
    x = num(t) if t.isdigit() else {"s": t, "i": -1}
    return {"t": "ic", "s": x["s"], "i": x["i"], "c": int(c) if c else -1, "cs": c}, (t + " " + c).strip()


def icgrp(n):
    return {"t": "grp", "n": n}, "object-group " + n


NO = (NONE, "")


def w(*x):
    return " ".join(i for i in x if i)


def rule(mode, p, src, dst, sport=NO, dport=NO, icmp=NO, opts=()):
    return {"t": "rule", "mode": mode, "proto": p[0], "src": src[0], "sport": sport[0], "dst": dst[0], "dport": dport[0], "icmp": icmp[0],
            "opts": [o[0] for o in opts]}


def opt(k, *v, n="", asa=True):
    return {"k": k, "v": list(v) if asa else list(v or ("",)), "n": n}, w(k, *v, n)


def acl(id, lines, blk=False):
    """lines: [(abstract, text)]"""
    return {"c": "acl", "blk": blk, "id": id, "idc": codes(id), "lines": [a for a, _ in lines]}, [t for _, t in lines]


def remark(id, text):
    return {"t": "remark", "id": id, "text": text}, f"access-list {id} remark {text}"


def ext(id, mode="permit", p=proto("ip"), src=ANY, dst=ANY, sport=NO, dport=NO, icmp=NO, opts=()):
    return (rule(mode, p, src, dst, sport, dport, icmp, opts),
            w("access-list", id, "extended", mode, p[1], src[1], sport[1], dst[1], dport[1], icmp[1], *[o[1] for o in opts]))


def std(id, mode="permit", src=ANY):
    return rule(mode, proto("ip"), src, ANY), w("access-list", id, "standard", mode, src[1])


def url(id, u, mode="permit"):
    return rule(mode, proto("url"), ANY, ({"t": "url", "n": u}, "")), w("access-list", id, "webtype", mode, "url", u)


def ether(id):
    return {"t": "ethertype"}, f"access-list {id} ethertype permit any"


def xacl(id, *a, **k):
    """a single extended line"""
    return acl(id, [ext(id, *a, **k)])


def noise(*lines):
    return {"c": "noise"}, list(lines)


def junk(*lines):
    return {"c": "junk"}, list(lines)


def name(n, s, d=""):
    return {"c": "name", "n": n, "a": addr(s), "d": d}, [w("name", s, n, "description " + d if d else "")]


# -- objects
def nobj(n, b, d="", nat=None):
    """b: (abstract, text)"""
    lines = [f"object network {n}"] + ([" " + b[1]] if b[1] else []) + ([" " + nat[1]] if nat else []) + ([" description " + d] if d else [])
    return {"c": "nobj", "n": n, "d": d, "b": b[0], "nat": nat[0] if nat else NONE}, lines


def bhost(s):
    return {"t": "host", "a": addr(s)}, "host " + s


def bnet(s, n):
    a, t = net(s, n, "subnet")
    return a, "subnet " + t


def brange(s, e):
    return {"t": "range", "a": addr(s), "b": addr(e)}, f"range {s} {e}"


def bfqdn(t="x.example", lim=""):
    return {"t": "fqdn", "lim": lim}, w("fqdn", lim, t)


BNONE = NONE, ""


def svc(p, src=NO, dst=NO, t="", c=""):
    pr = proto(p)[0]
    x = (num(t) if t.isdigit() else {"s": t, "i": -1}) if t else {"s": "", "i": 0}
    return ({"t": "svc", "p": {"s": pr["s"], "i": pr["i"]}, "src": src[0], "dst": dst[0],
             "ic": {"s": x["s"], "i": x["i"], "c": int(c) if c else -1, "cs": c},
             "pc": codes(p), "itc": codes(t), "icc": codes(c)},
            w(p, "source " + src[1] if src[1] else "", "destination " + dst[1] if dst[1] else "", t, c))


def sobj(n, s, d=""):
    return {"c": "sobj", "n": n, "d": d, "s": s[0]}, [f"object service {n}", " service " + s[1]] + ([" description " + d] if d else [])


KW = {"ngrp": "network", "sgrp": "service", "pgrp": "service", "igrp": "icmp-type", "rgrp": "protocol"}


def group(k, n, members, x="", d=""):
    """members: (abstract, text of the member line)"""
    return ({"c": "grp", "k": k, "n": n, "d": d, "x": x, "m": [m[0] for m in members]},
            [w("object-group", KW[k], n, x)] + ([" description " + d] if d else []) + [" " + m[1] for m in members])


def m_grp(n):
    return {"t": "grp", "n": n}, "group-object " + n


def m_net(t, asa=True):
    return t[0], ("network-object " if asa else "") + t[1]


def m_svc(s, asa=True):
    return s[0], ("service-object " if asa else "") + s[1]


def m_sobj(n):
    return {"t": "sobj", "n": n}, "service-object object " + n


def m_port(p):
    return p[0], "port-object " + p[1]


def m_icmp(t):
    x = num(t) if t.isdigit() else {"s": t, "i": -1}
    return {"t": "ic", "s": x["s"], "i": x["i"]}, "icmp-object " + t


def m_proto(s):
    a, t = proto(s)
    return a, "protocol-object " + t


def time(n, *m):
    return {"c": "time", "n": n, "m": [x[0] for x in m]}, [f"time-range {n}"] + [" " + x[1] for x in m]


def per(d, sh, eh, ed=""):
    """d: one or several days, separated by blanks"""
    return ({"t": "per", "days": d.split(), "s": {"h": sh, "m": 0}, "ed": ed, "e": {"h": eh, "m": 30}}, w("periodic", d, f"{sh}:00", "to", ed, f"{eh}:30"))


Z = {"y": 0, "mo": 0, "d": 0, "h": 0, "m": 0}
MON = "January February March April May June July August September October November December".split()


def absolute(s=None, e=None):
    def one(x):
        y, mo, d, h, m = x
        return {"y": y, "mo": mo, "d": d, "h": h, "m": m}, f"{h:02d}:{m:02d} {d} {MON[mo - 1]} {y}"

    a, at = one(s) if s else (Z, "")
    b, bt = one(e) if e else (Z, "")
    return {"t": "abs", "s": a, "e": b}, w("absolute", "start " + at if at else "", "end " + bt if bt else "")


# -- interfaces, NAT
def iface(alias, *lines):
    return {"c": "if", "alias": alias, "lines": [a for a, _ in lines]}, [f"interface {alias}"] + [" " + t for _, t in lines]


def nameif(n):
    return {"t": "nameif", "v": n}, "nameif " + n


def desc(d):
    return {"t": "desc", "v": d}, "description " + d


def ipaddr(s, n, more=""):
    a, t = net(s, n, "addr")
    return a, w("ip" if a["a"]["v"] == 4 else "ipv6", "address", t, more)


def agrp(n, d, ifn):
    return {"c": "agrp", "n": n, "dir": d, "ifn": ifn}, [f"access-group {n} {d} interface {ifn}"]


def l_ag(n, d, six=False):
    return ({"t": "ag", "key": ("ipv6-" if six else "ip-") + d, "n": n, "dir": d}, ("ipv6 traffic-filter" if six else "ip access-group") + f" {n} {d}")


def mode(m):
    return {"t": "mode", "v": m}, "switchport mode " + m


def vlan(o, *v):
    return {"t": "vlan", "op": o, "v": list(v)}, w("switchport trunk allowed vlan", "add" if o == "add" else "", ",".join(v))


def route(s, n, gw):
    """gw: an address or an interface"""
    try:
        g, a = "", addr(gw)
    except ValueError:
        g, a = gw, NOADDR
    m = mask(4, n)
    return ({"c": "route", "a": addr(s), "m": A(4, m), "gw": g, "gwa": a}, [f"ip route {s} {ipaddress.ip_address(m)} {gw}"])


def ref(n):
    return {"t": "ref", "n": n}, n


INTERFACE = {"t": "interface"}, "interface"


def nat(ri, mi, ty, rs, ms, md=NO, rd=NO, svc=(), opts=(), desc="", fb="", pos=False, posword="after-auto"):
    return ({"c": "nat", "ri": ri, "mi": mi, "ty": ty, "rs": rs[0], "ms": ms[0], "md": md[0], "rd": rd[0], "svc": list(svc), "opts": list(opts),
             "desc": desc, "fb": fb, "pos": pos},
            [w("nat", f"({ri},{mi})", posword if pos else "", "source", ty, rs[1], ms[1],
               {"": "", "yes": "interface", "ipv6": "interface ipv6"}[fb],
               f"destination static {md[1]} {rd[1]}" if rd[1] else "", "service " + " ".join(svc) if svc else "", *opts,
               "description " + desc if desc else "")])


def objnat(ri, mi, ty, ms, svc=(), opts=(), fb=""):
    return ({"t": "nat", "ri": ri, "mi": mi, "ty": ty, "ms": ms[0], "fb": fb,
             "svc": [{"s": svc[0], "i": -1}, pnum(svc[1]), pnum(svc[2])] if svc else [], "opts": list(opts)},
            w("nat", f"({ri},{mi})", ty, ms[1], {"": "", "yes": "interface", "ipv6": "interface ipv6"}[fb],
              "service " + " ".join(svc) if svc else "", *opts))


def ahost(s):
    """an address as the mapped source of an object"""
    return {"t": "host", "a": addr(s)}, s


# -- IOS
def ios_ext(id, lines):
    """a named extended list; lines: (abstract, text)"""
    return acl(id, lines, True)[0], [f"ip access-list extended {id}"] + [" " + t for _, t in lines]


def ios_std(id, lines):
    return acl(id, lines, True)[0], [f"ip access-list standard {id}"] + [" " + t for _, t in lines]


def ios_num(id, lines):
    return (acl(id, lines)[0],
            [t if t.startswith("access-list") else f"access-list {id} {t}" for _, t in lines])


def ios_v6(id, lines):
    return acl(id, lines, True)[0], [f"ipv6 access-list {id}"] + [" " + t for _, t in lines]


def i_remark(id, t):
    return {"t": "remark", "id": id, "text": t}, "remark " + t


def i_ext(mode="permit", p=proto("ip"), src=ANY, dst=ANY, sport=NO, dport=NO, icmp=NO, opts=()):
    return rule(mode, p, src, dst, sport, dport, icmp, opts), w(mode, p[1], src[1], sport[1], dst[1], dport[1], icmp[1], *[o[1] for o in opts])


def i_std(mode="permit", src=ANY, opts=()):
    return rule(mode, proto("ip"), src, ANY, opts=opts), w(mode, src[1], *[o[1] for o in opts])


def i_v6(seq, mode="permit", p=proto("ip"), src=ANY, dst=ANY, sport=NO, dport=NO, opts=()):
    r = rule(mode, p, src, dst, sport, dport, opts=list(opts) + [opt("sequence", str(seq), asa=False)])
    return r, w(f"sequence {seq}", mode, p[1], src[1], sport[1], dst[1], dport[1], *[o[1] for o in opts])


# -- filters: (token, text)
def f_id(s):
    return {"k": "id", "s": codes(s)}, "id " + s


def f_crit(s):
    if s in ("any", "any4", "any6", "ANY", "ANY4", "ANY6"):
        return {"k": s}
    if "/" in s:
        a, n = s.split("/")
        return {"k": "net", "a": addr(a), "p": int(n)}
    return {"k": "host", "a": addr(s)}


def f_ip(d, *cs):
    return {"k": "ip", "d": d, "n": [f_crit(c) for c in cs]}, f"ip {d} " + " ".join(cs)


def f_op(o):
    return {"k": "op", "o": o}, o


LP, RP = ({"k": "("}, "("), ({"k": ")"}, ")")


def flt(toks, s=0, sep=" "):
    return {"a": "filter", "s": s, "text": sep.join(t for _, t in toks), "f": [t for t, _ in toks]}


# -- pfSense: (command, [xml])
NOA = {"v": 0, "l": []}


def p_alias(k, n, members, d=""):
    """members: texts"""
    ms = []
    for t in members:
        if k == "port":
            if ":" in t:
                a, b = t.split(":")
                ms.append({"t": "range", "a": pnum(a), "b": pnum(b)})
            else:
                ms.append({"t": "op", "op": "eq", "p": pnum(t)})
        elif k == "network":
            a, p = t.split("/")
            ms.append({"t": "net", "a": addr(a), "p": int(p)})
        else:
            try:
                ms.append({"t": "host", "a": addr(t)})
            except ValueError:
                ms.append({"t": "any"})
    return ({"c": "pfalias", "k": "pgrp" if k == "port" else "ngrp", "n": n, "d": d, "m": ms, "u": ""},
            [f"<alias><name>{n}</name><type>{k}</type><address>{' '.join(members)}</address><descr>{d}</descr></alias>"])


def tline(t):
    """a line of a URL table"""
    a, _, n = t.strip().partition("/")
    try:
        a = addr(a)
        if not n:
            return {"t": "host", "a": a}
        return {"t": "net", "a": a, "p": mask_len(n)}
    except ValueError:
        return {"t": "junk"}


def mask_len(n):
    if n.isdigit():
        return int(n)
    return ipaddress.ip_network("0.0.0.0/" + n).prefixlen


def p_table(n, u, lines, d="", nl="\n", status=200, enc="utf-8"):
    """u: ok, fail, off; (command, [xml], {path: [status, hex]})"""
    path = f"t/{n}.{status}.txt"
    body = nl.join(lines).encode(enc).hex()
    url = f"@TABLES@/{path}" if status else "@CLOSED@/" + path
    return ({"c": "pfalias", "k": "ngrp", "n": n, "d": d, "m": [tline(l) for l in lines] if u == "ok" else [], "u": u},
            [f"<alias><name>{n}</name><type>urltable</type><url>{url}</url><updatefreq>7</updatefreq><address>{url}</address><descr>{d}</descr></alias>"],
            {path: [status, body]})


def p_if(tag, descr="", ip="", ip6="", how="dhcp", how6="", empty=False):
    """ip, ip6: address/length, or nothing if it is assigned (how: in which way, None: no element)"""
    o, raw = tag.startswith("opt"), descr
    descr = html.unescape(html.unescape(descr))
    alias = (descr or tag) if o else tag
    c = {"c": "pfif", "alias": alias, "desc": tag if o else descr, "nameif": "" if ip else "em0", "addrs": [], "ac": codes(alias)}
    x = "<if>em0</if>"
    for i, t, h in ((ip, "", how), (ip6, "v6", how6 or None)):
        if i:
            a, n = i.split("/")
            c["addrs"].append({"a": addr(a), "p": int(n)})
            x += f"<ipaddr{t}>{a}</ipaddr{t}><subnet{t}>{n}</subnet{t}>"
        elif h is not None:
            x += f"<ipaddr{t}>{h}</ipaddr{t}><subnet{t}/>"
    return c, [f"<{tag}>{x}" + (f"<descr>{raw}</descr>" if raw else "<descr/>" if empty else "") + f"</{tag}>"]


PANY = {"t": "any"}, "<any/>"


def p_net(tag):
    return {"t": "net", "n": tag}, f"<network>{tag}</network>"


def p_addr(t):
    """an address, a network or an alias"""
    j = {"t": "addr", "n": t, "a": NOA, "p": -1}
    a, _, n = t.partition("/")
    try:
        j["a"] = addr(a)
        j["p"] = int(n) if n else -1
    except ValueError:
        pass
    return j, f"<address>{t}</address>"


def p_port(t):
    if "-" in t:
        a, b = t.split("-")
        j = {"t": "range", "a": pnum(a), "b": pnum(b)}
    else:
        j = {"t": "op", "op": "eq", "p": pnum(t)}
    return j, f"<port>{t}</port>"


def p_rule(ifs, ty="pass", src=PANY, dst=PANY, sport=NO, dport=NO, proto="", icmp="", descr="", tracker="", disabled=False, log=False, state="", floating="", bad="", nodescr=False, ok=False):
    """floating: the direction"""
    def tag(k, v):
        return f"<{k}>{v}</{k}>" if v else ""

    x = (tag("type", ty) + tag("interface", ",".join(ifs)) + tag("source", src[1] + sport[1]) + tag("destination", dst[1] + dport[1]) + ("" if nodescr else f"<descr>{descr}</descr>")
         + tag("protocol", proto) + tag("icmptype", icmp) + tag("tracker", tracker) + tag("statetype", state) + ("<disabled/>" if disabled else "")
         + ("<log/>" if log else "") + (f"<floating>yes</floating><direction>{floating}</direction>" if floating else "") + bad)
    return ({"c": "pfrule", "type": ty, "ifs": list(ifs), "floating": bool(floating), "dir": floating, "src": src[0], "dst": dst[0], "sport": sport[0],
             "dport": dport[0], "proto": proto, "icmp": icmp, "descr": descr, "tracker": tracker, "disabled": disabled, "log": log, "state": state,
             "bad": bool(bad) and not ok, "ic": codes(ifs[0])}, [f"<rule>{x}</rule>"])


def p_sep(ifn, row, text="sep", bg="bg-info"):
    return ({"c": "pfsep", "ifn": ifn, "row": row, "text": text, "bg": bg},
            [f"<row>fr{row}</row><text>{text}</text><color>{bg}</color><if>{ifn}</if>"])


def p_text(parts):
    sec = {"pfalias": "", "pfif": "", "pfrule": ""}
    seps = {}
    for c, x in parts:
        if c["c"] == "pfsep":
            seps.setdefault(c["ifn"], []).append(x[0])
        else:
            sec[c["c"]] += x[0]
    s = "".join(f"<{i}>" + "".join(f"<sep{k}>{x}</sep{k}>" for k, x in enumerate(l)) + f"</{i}>" for i, l in seps.items())
    return (f"<?xml version=\"1.0\"?>\n<pfsense><aliases>{sec['pfalias']}</aliases><interfaces>{sec['pfif']}</interfaces>"
            f"<filter>{sec['pfrule']}" + (f"<separator>{s}</separator>" if s else "") + "</filter></pfsense>\n")


P_ORDER = {"pfalias": 1, "pfif": 2, "pfrule": 3, "pfsep": 4}
