-------------------------------- MODULE Proj --------------------------------
(* The observable projection of a configuration: token sequences, as recorded  *)
(* from the implementation.                                                    *)
EXTENDS Groups

PortTok(p) == IF p.t = "op" THEN p.op \o " " \o p.p.s ELSE "range " \o p.a.s \o " " \o p.b.s

RECURSIVE Toks(_, _), MemToks(_, _)
Toks(H, x) ==
    CASE x.t \in {"none", "any", "any4", "any6"} -> << x.t >>
      [] x.t = "if" -> << "if", x.n >>
      [] x.t = "url" -> << "url", x.n >>
      [] x.t = "pat" -> IF x.nm = "" THEN << PatStr(x.p) >> ELSE << PatStr(x.p), "@" \o x.nm >>
      [] x.t = "p" -> << "proto", x.s >>
      [] x.t \in {"op", "range"} -> << "port", PortTok(x) >>
      [] x.t = "ic" -> IF "cs" \in DOMAIN x THEN << "icmp", x.s, x.cs >> ELSE << "icmp", x.s, "" >>
      [] x.t = "svc" -> << "svc", x.p >> \o Toks(H, x.src) \o Toks(H, x.dst) \o << x.it, x.ic >>
      [] x.t \in {"obj", "grp", "sobj"} ->
            << H[x.h].k, H[x.h].n, "{" >> \o MemToks(H, H[x.h].m) \o << "}" >>
MemToks(H, m) == FoldLeft(LAMBDA a, x : a \o Toks(H, x), <<>>, m)

RuleProj(st, r) ==
    [id |-> << r.id >>, mode |-> << r.mode >>, proto |-> Toks(st.heap, r.proto),
     src |-> Toks(st.heap, r.src), sport |-> Toks(st.heap, r.sport),
     dst |-> Toks(st.heap, r.dst), dport |-> Toks(st.heap, r.dport),
     icmp |-> Toks(st.heap, r.icmp), rem |-> r.rem]

Listing(st, k) ==
    {LET e == st.heap[st.lst[k][n]]
     IN  << n, e.d, e.x >> \o (IF k = "time" THEN e.m ELSE MemToks(st.heap, e.m)) : n \in DOMAIN st.lst[k]}
NamesProj(st) == MapSeq(LAMBDA h : << st.heap[h].n, AddrStr(st.heap[h].m), st.heap[h].d >>, st.names)

SideToks(H, s) == Toks(H, s.src) \o << "->" >> \o Toks(H, s.dst)
NatProj(st, n) ==
    [ifs |-> << n.ri, n.mi >>, type |-> << n.ty >>, real |-> SideToks(st.heap, n.real),
     mapped |-> SideToks(st.heap, n.mapped), fb |-> << n.fb >>,
     rsvc |-> Toks(st.heap, n.rsvc), msvc |-> Toks(st.heap, n.msvc), desc |-> << n.desc >>]

IfProj(st, k) ==
    LET i == st.ifs[k]
    IN  [alias |-> << i.alias >>, nameif |-> << i.nameif >>, desc |-> << i.desc >>,
         addrs |-> MapSeq(LAMBDA x : AddrStr(x.a) \o "/" \o ToString(x.n), i.addrs),
         mode |-> << i.mode >>, vlans |-> i.vlans]
IfBind(st, k) == {<< key, st.ifs[k].ags[key][1], st.ifs[k].ags[key][2] >> : key \in DOMAIN st.ifs[k].ags}
RouteTok(st, r) == << PatStr(r.p), IF r.gw # "" THEN st.ifs[st.iftab[r.gw]].alias ELSE AddrStr(r.gwa) >>
IfRoutes(st, k) == {ToString(j) : j \in {j \in 1..Len(st.routes) : k \in RouteIfs(st, st.routes[j])}}

-----------------------------------------------------------------------------
(* What a selection of rules (indices) and NAT rules (section, index) refers to *)
TimeTok(st, h) == << "time", st.heap[h].n >> \o st.heap[h].m
NameTok(st, n) == << "name", n, AddrStr(st.heap[Ref(st, "name", n)].m) >>

\* an item with all its members and the names behind them
RECURSIVE Reach(_, _)
Reach(st, x) ==
    CASE x.t = "none" -> {}
      [] x.t = "pat" /\ x.nm # "" -> {Toks(st.heap, x), NameTok(st, x.nm)}
      [] x.t = "grp" -> {Toks(st.heap, x)}
                        \cup UNION {Reach(st, st.heap[x.h].m[i]) : i \in 1..Len(st.heap[x.h].m)}
      [] OTHER -> {Toks(st.heap, x)}
RuleReach(st, k) ==
    LET r == st.rules[k]
    IN  {<< "rule", ToString(k) >>, << "id", r.id >>}
        \cup Reach(st, r.proto) \cup Reach(st, r.src) \cup Reach(st, r.sport)
        \cup Reach(st, r.dst) \cup Reach(st, r.dport) \cup Reach(st, r.icmp)
        \cup {TimeTok(st, h) : h \in r.times}
        \cup {<< "iface", b[2] >> : b \in {st.agrp[i] : i \in {i \in 1..Len(st.agrp) : st.agrp[i][1] = r.id}}}
NatReach(st, sec, k) ==
    LET n == st.nats[sec][k]
    IN  {<< "nat", ToString(sec) \o "." \o ToString(k) >>, << "if", n.ri >>, << "if", n.mi >>}
        \cup Reach(st, n.real.src) \cup Reach(st, n.real.dst)
        \cup Reach(st, n.mapped.src) \cup Reach(st, n.mapped.dst)
        \cup Reach(st, n.rsvc) \cup Reach(st, n.msvc)
\* the names of the kinds of definitions among it
KindNames == [ngrp |-> "NetworkGroup", pgrp |-> "PortGroup", sgrp |-> "ServiceGroup", igrp |-> "ICMPGroup", rgrp |-> "ProtocolGroup",
              nobj |-> "NetworkObject", sobj |-> "ServiceObject", time |-> "TimeRange", name |-> "Names", iface |-> "Interface", nat |-> "NAT"]
Marks(X) == {KindNames[t[1]] : t \in {t \in X : t[1] \in DOMAIN KindNames}}
Resolve(st, R, N) == UNION ({RuleReach(st, k) : k \in R} \cup {NatReach(st, x[1], x[2]) : x \in N})
=============================================================================
