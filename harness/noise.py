"""The commands which acltk knows and ignores: forms of them, and what looks like a definition but is an argument or a body of one."""

# arguments and bodies which would be definitions, were they commands
LOOKS_ASA = ["access-list a extended permit ip any any", "access-list a remark x", "name 10.0.0.9 h", "object network o", "object-group network g", "nat (in,out) source static any any",
             "access-group a in interface in", "hostname x", "domain-name x", "interface Vlan9", "time-range t", "host 10.0.0.9", "network-object host 10.0.0.9", "nameif in"]
LOOKS_IOS = ["ip access-list extended a", "permit ip any any", "access-list 100 permit ip any any", "access-list 100 remark x", "object-group network g", "host 10.0.0.9",
             "interface Fa9", "ip address 10.0.0.9 255.255.255.0", "hostname x", "ip domain name x", "ipv6 access-list v", "ip route 10.9.0.0 255.255.0.0 10.0.0.9", "version 9", "end", "line vty 0 4",
             "sequence 1 permit ipv6 any any"]

# (keyword, usual arguments); the first of the arguments is used where one suffices; "" is no argument
ASA_LINES = [
    ("aaa", ["authentication ssh console LOCAL", "accounting command TACACS"]), ("app-agent", ["heartbeat interval 1000 retry-count 3"]), ("arp-inspection", ["in enable"]),
    ("arp", ["timeout 14400", "in 10.0.0.9 0000.0c07.ac01"]), ("asdm", ["image disk0:/asdm.bin", "location 10.0.0.9 255.255.255.255 in", "no asdm history enable"]), ("auth-prompt", ["prompt x"]),
    ("boot", ["system disk0:/asa.bin"]), ("clock", ["timezone CET 1"]), ("console", ["timeout 0"]), ("command-alias", ["exec h help"]), ("Cryptochecksum:", ["abcdef0123"]),
    ("dhcpd", ["address 10.0.0.10-10.0.0.20 in", "enable in"]), ("dhcprelay", ["server 10.0.0.9 in"]), ("dns-guard", [""]), ("enable", ["password x encrypted"]),
    ("eou", ["allow none"]), ("established", ["tcp 4000 0"]), ("failover", ["", "lan unit primary"]), ("firewall", ["transparent"]), ("flow-export", ["destination in 10.0.0.9 2055"]),
    ("fragment", ["chain 1 in"]), ("ftp", ["mode passive"]), ("global", ["(out) 1 interface", "(out) 1 10.0.0.9"]), ("hpm", ["topN enable"]), ("http", ["10.0.0.0 255.0.0.0 in", "server enable"]),
    ("icmp", ["permit any in"]), ("ipv6", ["route out ::/0 2001:db8::9", "access-list v permit ip any any"]), ("ip", ["local pool p 10.0.0.9-10.0.0.20", "audit info action alarm", "address 10.0.0.9 255.0.0.0"]),
    ("logging", ["enable", "host in 10.0.0.9"]), ("mac-address-table", ["aging-time 5"]), ("mac-address", ["auto"]), ("management-access", ["in"]),
    ("monitor-interface", ["in"]), ("mtu", ["in 1500"]), ("multicast-routing", [""]), ("names", None), ("nat-control", [""]), ("no", ["access-list a extended permit ip any any", "names", "object network o",
     "failover", "object-group network g", "name 10.0.0.9 h", "interface Vlan9", "nameif in"]), ("ntp", ["server 10.0.0.9"]), ("pager", ["lines 24"]), ("passwd", ["x encrypted"]), ("password-policy", ["lifetime 0"]),
    ("privilege", ["cmd level 3 mode exec command x"]), ("prompt", ["hostname context"]), ("resource", ["policy-map x"]), ("route", ["out 0.0.0.0 0.0.0.0 10.0.0.9 1"]),
    ("same-security-traffic", ["permit inter-interface"]), ("service-module", ["1 x"]), ("service-policy", ["global_policy global"]), ("service", ["resetoutside"]), ("snmp-server", ["enable traps", "host in 10.0.0.9"]),
    ("smtp-server", ["10.0.0.9"]), ("ssl", ["encryption 3des"]), ("static", ["(in,out) 10.0.0.9 10.0.0.8 netmask 255.255.255.255", "(in,out) tcp interface 80 10.0.0.8 80"]), ("sysopt", ["connection permit-vpn"]),
    ("telnet", ["timeout 5"]), ("terminal", ["width 80"]), ("tftp-server", ["in 10.0.0.9 x"]), ("threat-detection", ["basic-threat"]), ("timeout", ["xlate 3:00:00"]),
    ("tls-proxy", ["maximum-session 100"]), ("tunnel-group-map", ["enable rules"]), ("user-identity", ["default-domain LOCAL"]), ("url-cache", ["dst 128KB"]),
    ("virtual", ["http 10.0.0.9"]), ("vpdn", ["username x password y"]), ("vpn-group-policy", ["x"]), ("xlate-bypass", [""]), ("xlate", ["per-session deny tcp any4 any4"]),
]
ASA_BLOCKS = [
    ("aaa-server", ["T protocol tacacs+", "T (in) host 10.0.0.9"], ["key x"]), ("call-home", ["", "reporting anonymous"], ["profile x", " active"]), ("class-map", ["c", "type inspect http match-all c"], ["match access-list a", "match any"]),
    ("crypto", ["ipsec transform-set x esp-3des", "map m 1 match address a", "ca trustpoint x"], ["enrollment self", "crl configure"]), ("dns", ["domain-lookup in", "server-group DefaultDNS"], ["name-server 10.0.0.9", "domain-name x"]),
    ("dynamic-access-policy-record", ["DfltAccessPolicy"], ["priority 1"]), ("group-policy", ["p attributes", "p internal"], ["vpn-filter value a", "split-tunnel-network-list value a"]), ("license", ["smart"], ["feature tier standard"]),
    ("ldap", ["attribute-map m"], ["map-name x y"]), ("nac-policy", ["n nac-framework"], ["default-acl a"]), ("policy-map", ["global_policy", "type inspect dns d"], ["class c", " inspect dns d", "parameters", " message-length maximum 512"]),
    ("router", ["ospf 1"], ["network 10.0.0.0 255.0.0.0 area 0"]), ("sla", ["monitor 1"], ["type echo protocol ipIcmpEcho 10.0.0.9 interface out", " num-packets 3"]), ("snmp-map", ["m"], ["deny version 1"]),
    ("ssh", ["timeout 5", "10.0.0.0 255.0.0.0 in"], ["x"]), ("tcp-map", ["m"], ["window-variation drop"]), ("tunnel-group", ["g type remote-access", "g general-attributes"], ["address-pool p", "default-group-policy x"]),
    ("username", ["x password y encrypted privilege 15", "x attributes"], ["vpn-group-policy p", "service-type admin"]), ("vpn", ["load-balancing"], ["interface lbpublic out"]), ("webvpn", [""], ["enable out", "anyconnect enable"]),
]
IOS_LINES = [
    ("aaa", ["new-model", "authentication login default local"]), ("alias", ["exec x show"]), ("arp", ["10.0.0.9 0000.0c07.ac01 ARPA"]), ("boot-start-marker", None), ("boot-end-marker", None), ("boot", ["system flash x"]),
    ("bridge", ["irb"]), ("clock", ["timezone CET 1"]), ("cts", ["logging verbose"]), ("Current configuration", [" : 100 bytes"]), ("define", ["interface-range x Fa0/1 - 2"]), ("diagnostic", ["bootup level minimal"]),
    ("dialer-list", ["1 protocol ip permit", "1 protocol ip list 100"]), ("dial-peer", ["cor custom"]), ("enable", ["secret 5 x"]), ("encryption", ["x"]), ("errdisable", ["recovery cause all"]), ("file", ["verify auto"]),
    ("firewall", ["x"]), ("hw-module", ["x"]), ("isdn", ["switch-type basic-net3"]), ("license", ["udi pid x sn y"]), ("lldp", ["run"]), ("logging", ["buffered 4096", "10.0.0.9"]), ("login", ["block-for 1 attempts 2 within 3"]),
    ("mac-address-table", ["aging-time 5"]), ("mac-address", ["x"]), ("memory", ["free low-watermark processor 1"]), ("mls", ["qos"]), ("mmi", ["polling-interval 60"]), ("multilink", ["bundle-name authenticated"]),
    ("no", ["access-list 100 permit ip any any", "ip access-list extended a", "service pad", "ip http server", "interface Fa9", "object-group network g", "ip address"]), ("platform", ["x"]), ("port-channel", ["load-balance src-dst-ip"]),
    ("power", ["redundancy-mode combined"]), ("resource", ["policy"]), ("rmon", ["event 1 log"]), ("rtr", ["responder"]), ("security", ["authentication failure rate 3 log"]), ("switch", ["1 provision x"]), ("service", ["timestamps debug uptime", "password-encryption"]),
    ("snmp-server", ["community x RO 1", "location x"]), ("snmp", ["mib x"]), ("spanning-tree", ["mode pvst"]), ("system", ["mtu routing 1500"]), ("username", ["x privilege 15 secret 5 y"]),
    ("Using", [" 100 out of 65536 bytes"]), ("vtp", ["mode transparent"]), ("wism", ["x"]),
    ("ip cef", None), ("ip as-path", ["access-list 1 permit x"]), ("ip inspect", ["name x tcp"]), ("ip name-server", ["10.0.0.9"]), ("ip http", ["server", "access-class 1"]),
    ("ip nat", ["inside source list 100 interface Fa0 overload", "pool p 10.0.0.9 10.0.0.10 netmask 255.255.255.0"]), ("ip subnet-zero", None), ("ip dhcp excluded-address", ["10.0.0.1 10.0.0.9"]), ("ip tcp", ["synwait-time 5"]), ("ip scp", ["server enable"]),
    ("ip classless", None), ("ip forward-protocol", ["nd"]), ("ip ips", ["notify log"]), ("ip flow-cache", ["timeout active 1"]), ("ip flow-export", ["destination 10.0.0.9 2055"]), ("ip multicast-routing", [""]),
    ("ip accounting-threshold", ["1"]), ("ip host", ["x 10.0.0.9"]), ("ip ftp", ["source-interface Fa0"]), ("ip default-gateway", ["10.0.0.9"]), ("ip prefix-list", ["p seq 5 permit 10.0.0.0/8"]), ("ip pim", ["rp-address 10.0.0.9"]),
    ("ip tftp", ["source-interface Fa0"]), ("ip routing", [""]), ("ip route", ["vrf x 10.9.0.0 255.255.0.0 10.0.0.9"]), ("ipv6 unicast-routing", [""]), ("ipv6 nd", ["x"]), ("ipv6 route", ["::/0 2001:db8::9"]), ("ipv6 prefix-list", ["p seq 5 permit 2001:db8::/32"]),
]
IOS_BLOCKS = [
    ("appfw", ["policy-name p"], ["application http", " strict-http action allow"]), ("archive", [""], ["log config", " hidekeys", "path flash:x"]), ("call-home", [""], ["profile x", " no active"]), ("class-map", ["match-any c"], ["match access-group 100", "match access-group name a"]),
    ("control-plane", None, ["service-policy input x"]), ("crypto", ["isakmp policy 1", "map m 1 ipsec-isakmp", "pki certificate chain x"], ["encr 3des", "match address 100", "certificate self-signed 01", " 30820222 3082018B", " \tquit"]), ("dot11", ["ssid x"], ["authentication open"]),
    ("key", ["chain x"], ["key 1", " key-string y"]), ("policy-map", ["p"], ["class c", " police 8000", "  conform-action transmit"]), ("redundancy", [""], ["mode sso", "main-cpu", " auto-sync standard"]), ("route-map", ["m permit 10"], ["match ip address 100", "set ip next-hop 10.0.0.9"]),
    ("router", ["ospf 1", "bgp 1"], ["network 10.0.0.0 0.0.0.255 area 0", "distribute-list 1 in", "address-family ipv4", " neighbor 10.0.0.9 activate"]), ("transceiver", ["type all"], ["monitoring"]), ("vlan", ["10", "internal allocation policy ascending"], ["name x"]), ("vpdn", ["enable", "-group 1"], ["accept-dialin", " protocol pptp"]),
    ("vrf", ["definition x"], ["rd 1:1", "address-family ipv4", "exit-address-family"]), ("ip ssh", ["version 2", "pubkey-chain"], ["username x", " key-hash ssh-rsa 0123"]), ("ip vrf", ["x"], ["rd 1:1"]), ("ip sla", ["1"], ["icmp-echo 10.0.0.9", "frequency 10"]),
    ("ip slb", ["serverfarm x"], ["real 10.0.0.9", " inservice"]), ("ip flow-aggregation", ["cache as"], ["cache timeout active 1"]), ("ip flow-top-talkers", [""], ["top 10", "sort-by bytes"]),
    ("ip dhcp pool", ["p"], ["network 10.0.0.0 255.255.255.0", "default-router 10.0.0.9", "domain-name x", "dns-server 10.0.0.9 10.0.0.8"]), ("ipv6 ipv6", ["x"], ["y"]),
]
COMMENTS = ["!", ":"]
# lines of interfaces
IFLINES = {
    "asa": ["no ip address", "no nameif", "shutdown", "no shutdown", "security-level 50", "speed 100", "duplex full", "ospf cost 10", "ip address dhcp setroute", "ip address pppoe", "no description x", "mac-address 0000.0c07.ac01",
            "ipv6 enable", "ipv6 nd suppress-ra", "ipv6 address autoconfig", "management-only", "vlan 5", "switchport access vlan 5", "channel-group 1 mode active", "rip send version 2", "no access-list a extended permit ip any any",
            "no ipv6 address 2001:db8::9/64", "no ip address 10.0.0.9 255.255.255.0", "nameifx y", "ip access-group a in", "!"],
    "ios": ["no ip address", "shutdown", "no shutdown", "duplex auto", "speed 100", "ip nat inside", "ip virtual-reassembly", "no ip redirects", "ip helper-address 10.0.0.9", "ip address dhcp", "ip address negotiated", "no ip access-group a in",
            "crypto map m", "service-policy input p", "ip inspect x in", "ipv6 enable", "ipv6 nd ra suppress", "switchport", "switchport access vlan 5", "switchport nonegotiate", "spanning-tree portfast", "encapsulation dot1Q 5", "standby 1 ip 10.0.0.9",
            "no description x", "ip ospf cost 5", "channel-group 1 mode active", "no switchport trunk allowed vlan 7", "ip access-group", "no ip address 10.0.0.9 255.255.255.0", "nameif x", "access-list 101 permit ip any any", "!"],
}


def one(key, arg):
    return key + (" " + arg if arg and not arg.startswith((" ", "-")) else arg)


def commands(dia):
    """(its name, the lines) of every form of an ignored command: alone, with what looks like a definition as argument and as body"""
    lines, blocks, looks = (ASA_LINES, ASA_BLOCKS, LOOKS_ASA) if dia == "asa" else (IOS_LINES, IOS_BLOCKS, LOOKS_IOS)
    k = 0
    for c in COMMENTS:
        for x in ["", " Saved"] + looks:
            yield c, [c + (" " + x if x else "")]
        yield c, [c + looks[0]]
    yield "", [""]
    for key, args in lines:
        for a in args if args is not None else [""]:
            yield key, [one(key, a)]
    for key, args, body in blocks:
        for a in args if args is not None else [""]:
            yield key, [one(key, a)]
            yield key, [one(key, a)] + [" " + x for x in body]
            # blank lines end a body, or separate the command from the next one
            k += 1
            yield key, [one(key, a)] + [" " + x for x in body[:k % 3]] + [""] * (1 + k % 4)
            # bodies are text
            yield key, [one(key, a)] + [" " + looks[(k + j) % len(looks)] for j in range(3)]
            k += 3
    if dia == "asa":
        return
    for start, stop in (("^C", "^C"), ("#", "#"), ("$", "$"), ("@", "@"), ("%", "%"), ("x", "x"), ("^", "^"), ("]", "]"), ("\\", "\\"), ("\xa7", "\xa7"), (".", ".")):
        if start == "^C":
            for x in ("a^", "^^^", "x ^\n^", "C^ C"):
                yield "banner", ("banner motd ^C" + x + "^C").split("\n")
        for x in (["welcome"], ["", "welcome", ""], ["access-list 100 permit ip any any", "!", "ip access-list extended a", " permit ip any any", "end", "line vty 0 4"], ["a", "", "", "banner motd"]):
            if start == "x" and any("x" in y for y in x):
                continue
            t = x[:]
            yield "banner", ("banner motd " + start + "\n".join(t) + stop).split("\n")
            if start != "x":
                yield "banner", ("banner motd " + start + "\n" + "\n".join(t) + "\n" + stop).split("\n")
