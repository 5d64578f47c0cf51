"""Abstract values (as in Config.tla) and their texts."""
import ipaddress
import random

CAP = 2000000000
PORTNAMES = """xdmcp www whois who uucp time tftp telnet talk tacacs syslog sunrpc ssh sqlnet snmptrap snmp smtp sip
secureid-udp rtsp rsh rpc rip radius-acct radius pptp pop3 pop2 pim-auto-rp pcanywhere-status pcanywhere-data ntp
non500-isakmp nntp nfs netbios-ssn netbios-ss netbios-ns netbios-dgm nameserver mobile-ip lpd lotusnotes login ldaps
ldap kshell klogin kerberos isakmp irc imap4 ident https http hostname h323 gopher ftp-data ftp finger exec echo
domain dnsix discard daytime ctiqbe cmd citrix-ica chargen bootps bootpc biff bgp aol""".split()
PROTONAMES = """udp tcp snp pptp pim pcp ospf nos ipsec ipinip ip ipv6 igrp igmp icmpv6 gre esp eigrp
ahp ah""".split()
ICMPNAMES = """unreachable traceroute timestamp-request timestamp-reply time-exceeded source-quench
router-solicitation router-advertisement redirect parameter-problem packet-too-big
net-unreachable mobile-redirect membership-report mask-request mask-reply
information-request information-reply host-unreachable echo-reply echo conversion-error
alternate-address administratively-prohibited port-unreachable protocol-unreachable
host-unknown neighbor-solicitation neighbor-advertisement""".split()


def codes(s):
    return [ord(c) for c in s]


def limbs(v, n):
    if v == 4:
        return [(n >> s) & 255 for s in (24, 16, 8, 0)]
    return [(n >> s) & 65535 for s in range(112, -1, -16)]


def A(v, n):
    return {"v": v, "l": limbs(v, n)}


NOADDR = {"v": 4, "l": [0, 0, 0, 0]}


def num(s):
    """a number as written"""
    return {"s": s, "i": min(int(s), CAP)}


def width(v):
    return 32 if v == 4 else 128


def mask(v, n):
    w = width(v)
    return ((1 << w) - 1) ^ ((1 << (w - n)) - 1)


def ip4text(n):
    return ".".join(str(i) for i in limbs(4, n))


def ip6text(r, n):
    a = ipaddress.IPv6Address(n)
    k = r.randrange(6)
    if k == 0:
        return a.exploded
    if k == 1:
        return a.compressed.upper()
    if k == 2 and n >> 32 in (0xFFFF, 0):
        return "::" + ("ffff:" if n >> 32 else "") + ip4text(n & 0xFFFFFFFF)
    if k == 3:
        return ":".join(f"{i:x}" for i in limbs(6, n))
    return a.compressed


def iptext(r, v, n):
    return ip4text(n) if v == 4 else ip6text(r, n)


class Pool:
    """Related addresses: prefixes, their ends and neighbours, in both families."""

    def __init__(self, r, bases=2):
        self.r = r
        self.base4 = [r.choice([10, 172, 192, 0, 255, 127, 128]) << 24 | r.getrandbits(24) for _ in range(bases)]
        self.base6 = [0x20010DB8 << 96 | r.getrandbits(96) for _ in range(max(1, bases - 1))]
        # an IPv6 address with the number of an IPv4 address, and a mapped one
        self.base6 += [self.base4[0], 0xFFFF << 32 | self.base4[-1]]
        self.seen = []  # networks (v, base, n) used so far

    def v(self, v4=0.65):
        return 4 if self.r.random() < v4 else 6

    def net(self, v=None):
        r = self.r
        v = v or self.v()
        w = width(v)
        seen = [s for s in self.seen if s[0] == v]
        k = r.random()
        if seen and k < 0.55:
            _, b, n = r.choice(seen)
            m = r.randrange(7)
            if m == 0:
                n = max(0, n - r.choice([1, 1, 2, 8]))
            elif m == 1:
                n = min(w, n + r.choice([1, 1, 2, 8]))
            elif m == 2 and n:
                b ^= 1 << (w - n)  # sibling
            elif m == 3 and n:
                b = (b + (1 << (w - n))) % (1 << w)
            elif m == 4 and n < w:
                b |= r.getrandbits(w - n)  # bits behind the prefix
            elif m == 5:
                n = r.choice([0, w, w - 1])
        else:
            b = r.choice(self.base4 if v == 4 else self.base6)
            n = r.choice([0, 1, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32] if v == 4 else
                         [0, 1, 16, 17, 32, 48, 63, 64, 65, 96, 104, 112, 127, 128])
            if r.random() < 0.6:
                b &= mask(v, n)
            if r.random() < 0.3:
                n = r.randrange(w + 1)
        b %= 1 << w
        if len(self.seen) < 40:
            self.seen.append((v, b, n))
        return v, b, n

    def host(self, v=None):
        v, b, n = self.net(v)
        w = width(v)
        lo = b & mask(v, n)
        hi = lo | ((1 << (w - n)) - 1)
        k = self.r.randrange(6)
        a = [lo, hi, lo - 1, hi + 1, b, lo | (self.r.getrandbits(w - n) if n < w else 0)][k]
        return v, a % (1 << w)

    def wild(self):
        """an address and a wildcard"""
        r = self.r
        v, b, n = self.net(4)
        k = r.randrange(5)
        if k == 0:
            w = (1 << (32 - n)) - 1
        elif k == 1:
            w = r.choice([0, 1, 2, 4, 254, 256, 0xFFFFFFFF, 0x00FF00FF, 0xFF000000, 0x0000FF00, 3 << 8, 0x80000000])
        elif k == 2:
            w = sum(1 << r.randrange(32) for _ in range(r.randrange(1, 4))) & 0xFFFFFFFF
        elif k == 3:
            w = ((1 << (32 - n)) - 1) & ~(1 << r.randrange(32))
        else:
            w = r.getrandbits(32) & r.getrandbits(32) & r.getrandbits(32)
        return b, w
