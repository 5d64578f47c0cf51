"""Generator of pfSense/OPNsense configurations."""
from xml.sax.saxutils import escape

from vals import *

NAMES = ["web", "web1", "web10", "web_srv", "WEB", "lan_hosts", "lan_host", "srv", "srv_1", "net1", "net10", "db", "d", "mail"]


class Pf:
    dia = "pfsense"

    def __init__(self, r, opt=None):
        self.r = r
        self.opt = dict(bad=0.0, undef=0.0, n=(3, 8), seps=0.4, tables=0.1, fetch=False)
        self.opt.update(opt or {})
        self.pool = Pool(r)
        self.ng, self.pg = [], []
        self.ifs = []  # tag, descr
        self.used = set()
        self.files = {}

    def p(self, x):
        return self.r.random() < x

    def text(self):
        return self.r.choice(["some text", "x", "a & b <c>", "permit any", "äöü", "it's \"quoted\"", "Default allow LAN to any rule", "caf&#233;"])

    def esc(self, s):
        """pfSense escapes twice: once for HTML, once for XML"""
        return escape(s)

    def fresh(self):
        for _ in range(50):
            n = self.r.choice(NAMES) + self.r.choice(["", "", "1", "_b", "x"])
            if n not in self.used:
                self.used.add(n)
                return n
        n = f"n{len(self.used)}"
        self.used.add(n)
        return n

    def addr(self):
        v, a = self.pool.host()
        return A(v, a), iptext(self.r, v, a)

    def net(self):
        v, b, n = self.pool.net()
        return A(v, b), iptext(self.r, v, b), n

    def port(self):
        r = self.r
        if self.p(0.15):
            return {"s": r.choice(["http", "ssh", "domain"]), "i": -1}
        return num(r.choice(["0", "1", "9", "10", "80", "443", "999", "1000", "65535", str(r.randrange(65536))]))

    def rng(self):
        a, b = sorted(self.r.sample(range(65536), 2))
        if self.p(0.3):
            a, b = self.r.choice([(9, 10), (99, 100), (5, 10000), (0, 65535)])
        if self.p(self.opt["bad"]):
            a, b = b, a
        return num(str(a)), num(str(b))

    def h(self, s):
        """the text of an HTML-unescaped field"""
        import html

        return html.unescape(s)

    def table(self, n, raw, d):
        """an alias whose members are the lines of a file somewhere else"""
        r = self.r
        ms, ts = [], []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            k = r.random()
            if k < 0.35:
                a, t = self.addr()
                ms.append({"t": "host", "a": a})
            elif k < 0.7:
                a, t, p = self.net()
                if ":" in t:
                    t = ipaddress.ip_address(t).compressed
                v = a["v"]
                if self.p(0.15):  # bits behind the length, or a length which is none
                    a, t = self.addr()
                    v = a["v"]
                    p = r.choice([0, 1, 8, 24, 31, 64, width(v), width(v) + 1, 200])
                m = str(p)
                if v == 4 and p <= 32 and self.p(0.1):
                    m = ip4text(mask(4, p))
                t = f"{t}/{m}"
                ms.append({"t": "net", "a": a, "p": p})
            else:
                t = r.choice(["", "# a comment", "#10.0.0.1", "; x / y", "www.example.org", "10.0.0.256", "10.0.0", "1.2.3.4.5", "10.0.0.1 10.0.0.2", "10.0.0.1-10.0.0.9",
                              "10.0.0.0/x", "10.0.0.0/", "/24", "/", "10.0.0.0/8/8", "example.org/24", "::g", "2001:db8::1/64", "2001:db8::/129", "fe80::1::", "any", "0x0a000001"])
                ms.append({"t": "junk"})
            ts.append(r.choice(["", "", "", " ", "\t"]) + t + r.choice(["", "", "", " ", "\t "]))
        nl = r.choice(["\n", "\n", "\r\n"])
        body = (nl.join(ts) + (nl if self.p(0.7) else "")).encode()
        u, status = "ok", 200
        url = "@TABLES@/" + n
        if self.p(0.2):
            u = "fail"
            k = r.randrange(5)
            if k == 0:
                status = r.choice([404, 403, 500, 503])
            elif k == 1:
                url = "@CLOSED@/" + n
            elif k == 2:
                body += b"\xff\xfe\n"
            elif k == 3:
                url = r.choice(["bogus://127.0.0.1/x", "nothing", "http://"])
            else:
                url = None
        self.files[n] = [status, body.hex()]
        if not self.opt["fetch"]:
            u = "off"
        xml = f"<alias><name>{n}</name><type>urltable</type>" + (f"<url>{url}</url>" if url is not None else "") + (
            f"<updatefreq>7</updatefreq><address>{url}</address>" if self.p(0.5) else "") + f"<descr>{escape(raw)}</descr></alias>"
        self.ng.append(n)
        return {"c": "pfalias", "k": "ngrp", "n": n, "d": d, "m": ms if u == "ok" else [], "u": u}, xml

    def alias(self):
        r = self.r
        n = self.fresh()
        raw = self.text() if self.p(0.6) else ""
        d = self.h(raw)
        if self.p(self.opt["tables"]):
            return self.table(n, raw, d)
        k = r.choice(["host", "host", "network", "port"])
        ms, ts = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            if k == "host":
                if self.p(0.2):
                    t = r.choice(["www.example.org", "localhost", "web"])
                    ms.append({"t": "any"})
                else:
                    a, t = self.addr()
                    ms.append({"t": "host", "a": a})
            elif k == "network":
                a, t, p = self.net()
                if ":" in t:
                    t = ipaddress.ip_address(t).compressed
                t = f"{t}/{p}"
                ms.append({"t": "net", "a": a, "p": p})
            else:
                if self.p(0.4):
                    a, b = self.rng()
                    t = f"{a['s']}:{b['s']}"
                    ms.append({"t": "range", "a": a, "b": b})
                else:
                    p = self.port()
                    t = p["s"]
                    ms.append({"t": "op", "op": "eq", "p": p})
            ts.append(t)
        (self.pg if k == "port" else self.ng).append(n)
        xml = (f"<alias><name>{n}</name><type>{k}</type><address>{escape(' '.join(ts))}</address>"
               f"<descr>{escape(raw)}</descr><detail>x||y</detail></alias>")
        return {"c": "pfalias", "k": "pgrp" if k == "port" else "ngrp", "n": n, "d": d, "m": ms, "u": ""}, xml

    def interface(self, tag):
        r = self.r
        raw = {"wan": "WAN", "lan": "LAN"}.get(tag) or r.choice(["DMZ", "Guest Net", "MGMT", "R&amp;D", "OPT"]) + tag[3:]
        if self.p(0.2):
            raw = ""
        descr = self.h(raw)
        opt = tag.startswith("opt")
        alias = (descr or tag) if opt else tag
        c = {"c": "pfif", "alias": alias, "desc": tag if opt else descr, "nameif": "", "addrs": [], "ac": codes(alias)}
        parts = ["<if>em%d</if>" % r.randrange(9)]
        k = r.randrange(3)
        ifn = parts[0][4:-5]
        if k == 0:
            _, a = self.pool.host(4)
            n = r.choice([8, 24, 25, 30, 32, 0])
            parts += [f"<ipaddr>{ip4text(a)}</ipaddr>", f"<subnet>{n}</subnet>"]
            c["addrs"].append({"a": A(4, a), "p": n})
            if self.p(self.opt["bad"]):
                parts[-1], c["addrs"][0]["p"] = "<subnet>33</subnet>", 33
        elif k == 1:
            parts += [r.choice(["<ipaddr>dhcp</ipaddr>", "<ipaddr>dhcp</ipaddr><subnet/>", "<ipaddr>pppoe</ipaddr>", "<ipaddr>l2tp</ipaddr>", "<ipaddr>pptp</ipaddr>", "<ipaddr>ppp</ipaddr>", "<ipaddr/>",
                                "<ipaddr></ipaddr><subnet></subnet>"])]
            c["nameif"] = ifn
        else:
            c["nameif"] = ifn
        k = r.random()
        if k < 0.3:
            _, a = self.pool.host(6)
            n = r.choice([64, 128, 127, 48, 0])
            parts.append(f"<ipaddrv6>{iptext(r, 6, a)}</ipaddrv6><subnetv6>{n}</subnetv6>")
            c["addrs"].append({"a": A(6, a), "p": n})
        elif k < 0.5:
            parts.append(r.choice(["<ipaddrv6>dhcp6</ipaddrv6>", "<ipaddrv6>track6</ipaddrv6><track6-interface>wan</track6-interface>", "<ipaddrv6>slaac</ipaddrv6><subnetv6/>", "<ipaddrv6/>", "<ipaddrv6></ipaddrv6><subnetv6></subnetv6>"]))
        if raw:
            parts.append(f"<descr>{escape(raw)}</descr>")
        elif self.p(0.5):
            parts.append(r.choice(["<descr/>", "<descr></descr>"]))
        if self.p(0.3):
            parts += r.sample(["<enable/>", "<enable>1</enable>", "<spoofmac/>", "<gateway>WANGW</gateway>", "<mtu/>", "<blockpriv/>", "<media>100baseTX</media>"], 2)
        r.shuffle(parts)
        self.ifs.append((tag, alias))
        return c, f"<{tag}>" + "".join(parts) + f"</{tag}>"

    NOA = {"v": 0, "l": []}

    def node(self):
        """abstract, xml inside source or destination"""
        r = self.r
        k = r.random()
        if k < 0.25:
            return {"t": "any"}, "<any/>"
        if k < 0.45 and self.ifs:
            tag, _ = r.choice(self.ifs)
            if self.p(self.opt["undef"]):
                tag += "9"
            return {"t": "net", "n": tag}, f"<network>{tag}</network>"
        if k < 0.7 and self.ng:
            n = r.choice(self.ng)
            if self.p(self.opt["undef"]):
                n += "z"
            return {"t": "addr", "n": n, "a": self.NOA, "p": -1}, f"<address>{n}</address>"
        if k < 0.85:
            a, t = self.addr()
            return {"t": "addr", "n": t, "a": a, "p": -1}, f"<address>{t}</address>"
        a, t, p = self.net()
        if self.p(self.opt["bad"]):
            p = width(a["v"]) + 1
        return {"t": "addr", "n": f"{t}/{p}", "a": a, "p": p}, f"<address>{t}/{p}</address>"

    def pport(self):
        r = self.r
        if self.p(0.55):
            return {"t": "none"}, ""
        if self.pg and self.p(0.4):
            n = r.choice(self.pg)
            return {"t": "op", "op": "eq", "p": {"s": n, "i": -1}}, f"<port>{n}</port>"
        if self.p(0.4):
            a, b = self.rng()
            return {"t": "range", "a": a, "b": b}, f"<port>{a['s']}-{b['s']}</port>"
        p = self.port()
        return {"t": "op", "op": "eq", "p": p}, f"<port>{p['s']}</port>"

    def rule(self):
        r = self.r
        fl = self.p(0.2)
        tags = [t for t, _ in self.ifs]
        tags += [t for t in ("openvpn", "enc0", "any") if self.p(0.1)]
        ifs = r.sample(tags, r.randrange(1, len(tags) + 1)) if fl else [r.choice(tags)]
        ty = r.choice(["pass", "pass", "block", "reject"])
        if fl and self.p(0.2):
            ty = "match"
        src, sx = self.node()
        dst, dx = self.node()
        sp, spx = self.pport()
        dp, dpx = self.pport()
        raw = self.text() if self.p(0.7) else ""
        proto = r.choice(["", "tcp", "udp", "icmp", "tcp/udp", "esp"])
        icmp = r.choice(["echoreq", "unreach", "0"]) if proto == "icmp" and self.p(0.6) else ""
        tracker = str(r.randrange(10**9)) if self.p(0.6) else ""
        state = r.choice(["", "keep state", "sloppy state", "none", "synproxy state"])
        dis, log = self.p(0.2), self.p(0.3)
        d = r.choice(["in", "out", "any"]) if fl else ""
        bad = self.p(self.opt["bad"])
        parts = [f"<type>{ty}</type>", f"<interface>{','.join(ifs)}</interface>", f"<source>{sx}{spx}</source>",
                 f"<destination>{dpx}{dx}</destination>"]
        if raw or self.p(0.7):
            parts.append(f"<descr>{escape(raw)}</descr>")
        if proto:
            parts.append(f"<protocol>{proto}</protocol>")
        if icmp:
            parts.append(f"<icmptype>{icmp}</icmptype>")
        if tracker:
            parts.append(f"<tracker>{tracker}</tracker>")
        if state:
            parts.append(f"<statetype>{state}</statetype>")
        if dis:
            parts.append("<disabled/>")
        if log:
            parts.append("<log/>")
        if fl:
            parts += ["<floating>yes</floating>", f"<direction>{d}</direction>"]
        if self.p(0.3):
            parts += ["<id/>", "<tag/>", "<ipprotocol>inet</ipprotocol>", "<max/>", "<os/>"]
        if self.p(0.3):
            parts.append("<created><time>" + r.choice(["1400000000", "1400000000.25", "1580391654.5345"]) + "</time><username>x</username></created>")
        if self.p(0.2):
            parts.append(r.choice(["<updated><time>1500000000</time></updated>", "<updated><time>1580391654.5</time></updated>", "<updated><username>x</username></updated>", "<updated/>"]))
        if bad:
            parts.append(r.choice(["<unknowntag>1</unknowntag>", "<sched>x</sched>"]))
        r.shuffle(parts)
        return ({"c": "pfrule", "type": ty, "ifs": ifs, "floating": fl, "dir": d, "src": src, "dst": dst, "sport": sp, "dport": dp,
                 "proto": proto, "icmp": icmp, "descr": self.h(raw), "tracker": tracker, "disabled": dis, "log": log, "state": state,
                 "bad": bad, "ic": codes(ifs[0])}, "<rule>" + "".join(parts) + "</rule>")

    def build(self):
        r = self.r
        lo, hi = self.opt["n"]
        cmds, ali, ifx, rules = [], "", "", ""
        host, dom = r.choice(["fw", "pf-1"]), r.choice(["local", "example.org"])
        for _ in range(r.choice([0, 1, 2, 4, 5])):
            c, x = self.alias()
            cmds.append(c)
            ali += x
        for t in ["wan", "lan"][: r.choice([1, 2, 2])] + ["opt1", "opt2", "opt10"][: r.choice([0, 1, 2, 3])]:
            c, x = self.interface(t)
            cmds.append(c)
            ifx += x
        n = r.randrange(lo, hi + 1)
        rs = []
        for _ in range(n):
            c, x = self.rule()
            cmds.append(c)
            rs.append(c)
            rules += x
        if self.p(self.opt["seps"]):
            per = {}
            for _ in range(r.choice([1, 2, 3, 4])):
                tag = r.choice([t for t, _ in self.ifs] + ["floatingrules"])
                cnt = len([c for c in rs if (c["floating"] if tag == "floatingrules" else not c["floating"] and c["ifs"][0] == tag)])
                row = r.randrange(cnt + 2)
                raw, bg = self.text() if self.p(0.9) else "", r.choice(["bg-info", "bg-danger"])
                per.setdefault(tag, []).append((row, raw, bg))
            sx = ""
            for tag, l in per.items():
                sx += f"<{tag}>"
                for k, (row, raw, bg) in enumerate(l):
                    sx += f"<sep{k}><row>fr{row}</row><text>{escape(raw)}</text><color>{bg}</color><if>{tag}</if></sep{k}>"
                    cmds.append({"c": "pfsep", "ifn": tag, "row": row, "text": self.h(raw), "bg": bg})
                sx += f"</{tag}>"
            rules += f"<separator>{sx}</separator>"
        cmds.append({"c": "hostname", "v": f"{host}.{dom}"})
        root = r.choice(["pfsense", "opnsense"])
        inner = [f"<hostname>{host}</hostname>", f"<domain>{dom}</domain>", "<timezone>x</timezone>", "<user><name>admin</name><hostname>evil</hostname><domain>evil</domain></user>",
                 "<webgui><hostname>evil</hostname></webgui>", "<version>1</version>"][: r.choice([2, 3, 6])]
        r.shuffle(inner)
        sysx = f"<system>{''.join(inner)}</system>"
        parts = [f"<aliases>{ali}</aliases>", f"<interfaces>{ifx}</interfaces>", f"<filter>{rules}</filter>", sysx,
                 "<version>9</version><revision><time>@TIME@</time><username>x</username></revision><nat><x/></nat>".replace("@TIME@", r.choice(["1400000000", "1580391654.5345"]))]
        if self.p(0.4):
            parts.append("<dhcpd><lan><domain>evil</domain><staticmap><hostname>evil</hostname></staticmap></lan></dhcpd><unbound><hosts><host>evil</host><domain>evil</domain></hosts></unbound>"
                         "<hostname>evil</hostname><domain>evil</domain>")
        r.shuffle(parts)
        pretty = r.choice(["", "\n", "\n  "])
        self.xml = ('<?xml version="1.0"?>\n' if self.p(0.6) else "") + f"<{root}>{pretty}" + pretty.join(parts) + f"\n</{root}>"
        if pretty and self.p(0.5):
            self.xml = self.xml.replace("><", ">\n<").replace(">\n</", "></")
        self.cmds = cmds
        return cmds, self.xml

    def render(self, crlf=False, final=True):
        x = self.xml
        return (x.replace("\n", "\r\n") if crlf else x) + ("\n" if final else "")
