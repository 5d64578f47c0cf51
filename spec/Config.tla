------------------------------- MODULE Config -------------------------------
(* A configuration is imported command by command: Step(st, c) is the state    *)
(* after the (abstract) command c, or a rejected state (ok = FALSE).           *)
(* Definitions go to a heap; the name tables say what a name denotes now.      *)
EXTENDS Caf

NoFn == [x \in {} |-> 0]
Kinds == {"name", "nobj", "ngrp", "sobj", "sgrp", "pgrp", "igrp", "rgrp", "time"}

EmptyCfg(dia) ==
    [ok |-> TRUE, dia |-> dia, host |-> "", dom |-> "", ver |-> "",
     heap |-> <<>>,
     tab |-> [k \in Kinds |-> NoFn],      \* what a reference of this kind and name denotes
     lst |-> [k \in Kinds |-> NoFn],      \* what the finished configuration lists
     names |-> <<>>,
     ifs |-> <<>>, iftab |-> NoFn,
     rules |-> <<>>, pend |-> <<>>,
     agrp |-> <<>>, nats |-> << <<>>, <<>>, <<>> >>, routes |-> <<>>,
     row |-> NoFn, seps |-> <<>>]

Reject(st) == [st EXCEPT !.ok = FALSE]
Has(st, k, n) == n \in DOMAIN st.tab[k]
Ref(st, k, n) == st.tab[k][n]
Put(f, n, h) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN h ELSE f[x]]

\* a new definition; first: an earlier definition of the name stays
Define(st, e, keepRef, keepLst) ==
    LET h == Len(st.heap) + 1
    IN  [st EXCEPT !.heap = Append(@, e),
                   !.tab[e.k] = IF keepRef /\ e.n \in DOMAIN @ THEN @ ELSE Put(@, e.n, h),
                   !.lst[e.k] = IF keepLst /\ e.n \in DOMAIN @ THEN @ ELSE Put(@, e.n, h)]
Entry(k, n, d, m) == [k |-> k, n |-> n, d |-> d, m |-> m, x |-> ""]

AllSeq(P(_), s) == \A i \in 1..Len(s) : P(s[i])
MapSeq(F(_), s) == TLCEval([i \in 1..Len(s) |-> F(s[i])])

-----------------------------------------------------------------------------
(* values: -1 in i is a name known to the language, -2 an unknown one           *)
IntIn(x, hi) == x.i # -2 /\ (x.i = -1 \/ (x.i >= 0 /\ x.i <= hi))

PortOK(st, j) ==
    CASE j.t = "none" -> TRUE
      [] j.t = "op" -> IntIn(j.p, 65535)
      [] j.t = "range" -> /\ IntIn(j.a, 65535) /\ IntIn(j.b, 65535)
                          /\ (j.a.i >= 0 /\ j.b.i >= 0) => j.a.i < j.b.i
      [] j.t = "grp" -> ~Has(st, "sgrp", j.n) /\ Has(st, "pgrp", j.n)
PortOf(st, j) ==
    CASE j.t = "none" -> NoneT
      [] j.t = "op" -> [t |-> "op", op |-> j.op, p |-> j.p]
      [] j.t = "range" -> [t |-> "range", a |-> j.a, b |-> j.b]
      [] j.t = "grp" -> [t |-> "grp", h |-> Ref(st, "pgrp", j.n)]

\* the length denoted by the mask or the prefix of a network of family v, -1: none
NetLen(v, j) ==
    IF j.p >= 0 THEN IF j.p <= Width(v) THEN j.p ELSE -1
    ELSE IF j.m.v = v /\ v = 4 /\ AddrOK(j.m) THEN MaskLen(j.m) ELSE -1

NameAddr(st, n) == st.heap[Ref(st, "name", n)].m

TermOK(st, j) ==
    CASE j.t \in {"any", "any4", "any6", "if"} -> TRUE
      [] j.t = "url" -> TRUE
      [] j.t = "host" -> AddrOK(j.a)
      [] j.t = "net" -> AddrOK(j.a) /\ NetLen(j.a.v, j) >= 0
      [] j.t = "wild" -> AddrOK(j.a) /\ AddrOK(j.w)
      [] j.t = "nhost" -> Has(st, "name", j.n)
      [] j.t = "nnet" -> Has(st, "name", j.n) /\ NetLen(NameAddr(st, j.n).v, j) >= 0
      [] j.t = "obj" -> Has(st, "nobj", j.n)
      [] j.t = "grp" -> Has(st, "ngrp", j.n)
      [] j.t = "ref" -> Has(st, "nobj", j.n) \/ Has(st, "ngrp", j.n)
TermOf(st, j) ==
    CASE j.t \in {"any", "any4", "any6"} -> [t |-> j.t]
      [] j.t = "if" -> [t |-> "if", n |-> j.n]
      [] j.t = "url" -> [t |-> "url", n |-> j.n]
      [] j.t = "host" -> PatT(HostPat(j.a), "")
      [] j.t = "net" -> PatT(NetPat(j.a, NetLen(j.a.v, j)), "")
      [] j.t = "wild" -> PatT(WildPat(j.a, j.w), "")
      [] j.t = "nhost" -> PatT(HostPat(NameAddr(st, j.n)), j.n)
      [] j.t = "nnet" -> LET a == NameAddr(st, j.n) IN PatT(NetPat(a, NetLen(a.v, j)), j.n)
      [] j.t = "obj" -> [t |-> "obj", h |-> Ref(st, "nobj", j.n)]
      [] j.t = "grp" -> [t |-> "grp", h |-> Ref(st, "ngrp", j.n)]
      [] j.t = "ref" -> IF Has(st, "nobj", j.n) THEN [t |-> "obj", h |-> Ref(st, "nobj", j.n)]
                        ELSE [t |-> "grp", h |-> Ref(st, "ngrp", j.n)]

IcOK(j) == (j.s = "" \/ IntIn(j, 255)) /\ j.c <= 255
SvcOK(st, j) == IntIn(j.p, 255) /\ PortOK(st, j.src) /\ PortOK(st, j.dst) /\ IcOK(j.ic)
SvcOf(st, j) == [t |-> "svc", p |-> j.p.s, src |-> PortOf(st, j.src), dst |-> PortOf(st, j.dst),
                 it |-> j.ic.s, ic |-> j.ic.cs,
                 pc |-> j.pc, itc |-> j.itc, icc |-> j.icc]

-----------------------------------------------------------------------------
(* objects and groups                                                          *)
ObjOK(st, b) ==
    CASE b.t \in {"none", "fqdn"} -> TRUE
      [] b.t = "host" -> AddrOK(b.a)
      [] b.t = "subnet" -> AddrOK(b.a) /\ NetLen(b.a.v, b) >= 0
      [] b.t = "range" -> AddrOK(b.a) /\ AddrOK(b.b) /\ b.a.v = b.b.v /\ ~Less(b.b.l, b.a.l)
ObjTerms(st, b) ==
    CASE b.t = "none" -> <<>>
      [] b.t = "host" -> << PatT(HostPat(b.a), "") >>
      [] b.t = "subnet" -> << PatT(NetPat(b.a, NetLen(b.a.v, b)), "") >>
      [] b.t = "range" -> MapSeq(LAMBDA p : PatT(p, ""), RangePats(b.a, b.b))
      [] b.t = "fqdn" -> << IF b.lim = "v4" THEN Any4T ELSE IF b.lim = "v6" THEN Any6T ELSE AnyT >>

GrpMemOK(st, k, j) ==
    CASE k = "ngrp" -> TermOK(st, j)
      [] k = "pgrp" -> IF j.t = "grp" THEN Has(st, "pgrp", j.n) ELSE PortOK(st, j)
      [] k = "sgrp" -> IF j.t = "grp" THEN Has(st, "sgrp", j.n)
                       ELSE IF j.t = "sobj" THEN Has(st, "sobj", j.n) ELSE SvcOK(st, j)
      [] k = "igrp" -> IF j.t = "grp" THEN Has(st, "igrp", j.n) ELSE IntIn(j, 255)
      [] k = "rgrp" -> IF j.t = "grp" THEN Has(st, "rgrp", j.n) ELSE j.i = -1 \/ j.i <= 255
GrpMemOf(st, k, j) ==
    IF j.t = "grp" THEN [t |-> "grp", h |-> Ref(st, k, j.n)]
    ELSE CASE k = "ngrp" -> TermOf(st, j)
           [] k = "pgrp" -> PortOf(st, j)
           [] k = "sgrp" -> IF j.t = "sobj" THEN [t |-> "sobj", h |-> Ref(st, "sobj", j.n)]
                            ELSE SvcOf(st, j)
           [] k = "igrp" -> [t |-> "ic", s |-> j.s, i |-> j.i]
           [] k = "rgrp" -> [t |-> "p", s |-> j.s, i |-> j.i]

TimeToks(x) ==
    LET T(y) == ToString(y.h) \o ":" \o ToString(y.m)
        D(y) == ToString(y.y) \o "-" \o ToString(y.mo) \o "-" \o ToString(y.d) \o " " \o T(y)
    IN  IF x.t = "abs"
        THEN << "abs", IF x.s.y = 0 THEN "" ELSE D(x.s), IF x.e.y = 0 THEN "" ELSE D(x.e) >>
        ELSE << "per" >> \o x.days \o << T(x.s), x.ed, T(x.e) >>

-----------------------------------------------------------------------------
(* NAT                                                                         *)
IfOK(st, n) == n = "any" \/ n \in DOMAIN st.iftab
IfName(st, n) == IF n = "any" THEN "any"
                 ELSE LET i == st.ifs[st.iftab[n]] IN IF i.nameif # "" THEN i.nameif ELSE i.alias
\* mapped nodes may be the mapped interface
MapOK(st, j) == j.t \in {"none", "interface"} \/ TermOK(st, j)
MapOf(st, mi, j) == CASE j.t = "none" -> NoneT
                      [] j.t = "interface" -> [t |-> "if", n |-> IfName(st, mi)]
                      [] OTHER -> TermOf(st, j)
Fallback(st, mi, fb) == IF fb = "" THEN "" ELSE IfName(st, mi) \o (IF fb = "ipv6" THEN " ipv6" ELSE "")

HasPort(p) == p.t # "none"
SObj(st, n) == st.heap[Ref(st, "sobj", n)].m[1]
\* which of the two service objects of a twice NAT is the real one: 1, 2, 0: not representable
RealSvc(st, ty, a, b) ==
    LET x == SObj(st, a)  y == SObj(st, b)
    IN  IF ty = "dynamic" THEN 2
        ELSE IF HasPort(x.src) /\ ~HasPort(x.dst) /\ HasPort(y.src) /\ ~HasPort(y.dst) THEN 1
        ELSE IF ~HasPort(x.src) /\ HasPort(x.dst) /\ ~HasPort(y.src) /\ HasPort(y.dst) THEN 2
        ELSE 0

NatOK(st, c) ==
    /\ IfOK(st, c.ri) /\ IfOK(st, c.mi)
    /\ TermOK(st, c.rs) /\ MapOK(st, c.ms)
    /\ MapOK(st, c.md) /\ (c.rd.t = "none" \/ (c.rd.t = "ref" /\ TermOK(st, c.rd)))
    /\ c.svc # <<>> => /\ Has(st, "sobj", c.svc[1]) /\ Has(st, "sobj", c.svc[2])
                       /\ RealSvc(st, c.ty, c.svc[1], c.svc[2]) # 0
SvcRef(st, n) == [t |-> "sobj", h |-> Ref(st, "sobj", n)]
NatOf(st, c) ==
    LET w == IF c.svc = <<>> THEN 0 ELSE RealSvc(st, c.ty, c.svc[1], c.svc[2])
    IN  [kind |-> "nat", ri |-> IfName(st, c.ri), mi |-> IfName(st, c.mi), ty |-> c.ty,
         real |-> [src |-> TermOf(st, c.rs), dst |-> IF c.rd.t = "none" THEN NoneT ELSE TermOf(st, c.rd)],
         mapped |-> [src |-> MapOf(st, c.mi, c.ms), dst |-> MapOf(st, c.mi, c.md)],
         fb |-> Fallback(st, c.mi, c.fb),
         rsvc |-> IF w = 0 THEN NoneT ELSE SvcRef(st, c.svc[w]),
         msvc |-> IF w = 0 THEN NoneT ELSE SvcRef(st, c.svc[3 - w]),
         desc |-> c.desc,
         opts |-> {c.opts[i] : i \in 1..Len(c.opts)} \cup (IF c.pos THEN {"after-auto"} ELSE {})]

\* object NAT: [ri, mi, ty, ms, fb, svc: <<proto, real, mapped>> or <<>>, opts]
ObjNatOK(st, c) ==
    /\ IfOK(st, c.ri) /\ IfOK(st, c.mi) /\ MapOK(st, c.ms)
    /\ c.svc # <<>> => IntIn(c.svc[2], 65535) /\ IntIn(c.svc[3], 65535)
NatSvc(c, i) ==
    IF c.svc = <<>> THEN NoneT
    ELSE [t |-> "svc", p |-> c.svc[1].s, src |-> NoneT, dst |-> [t |-> "op", op |-> "eq", p |-> c.svc[i]],
          it |-> "", ic |-> "", pc |-> <<>>, itc |-> <<>>, icc |-> <<>>]
ObjNatOf(st, c, h) ==
    [kind |-> "nat", ri |-> IfName(st, c.ri), mi |-> IfName(st, c.mi), ty |-> c.ty,
     real |-> [src |-> [t |-> "obj", h |-> h], dst |-> AnyT],
     mapped |-> [src |-> MapOf(st, c.mi, c.ms), dst |-> AnyT],
     fb |-> Fallback(st, c.mi, c.fb), rsvc |-> NatSvc(c, 2), msvc |-> NatSvc(c, 3), desc |-> "",
     opts |-> {c.opts[i] : i \in 1..Len(c.opts)} \cup {"auto"}]

-----------------------------------------------------------------------------
(* access lists                                                                *)
ProtoOK(st, j) == CASE j.t = "p" -> IntIn(j, 255)
                    [] j.t = "grp" -> Has(st, "sgrp", j.n) \/ Has(st, "rgrp", j.n)
                    [] j.t = "sobj" -> Has(st, "sobj", j.n)
ProtoOf(st, j) == CASE j.t = "p" -> [t |-> "p", s |-> j.s, i |-> j.i]
                    [] j.t = "grp" -> IF Has(st, "sgrp", j.n) THEN [t |-> "grp", h |-> Ref(st, "sgrp", j.n)]
                                      ELSE [t |-> "grp", h |-> Ref(st, "rgrp", j.n)]
                    [] j.t = "sobj" -> [t |-> "sobj", h |-> Ref(st, "sobj", j.n)]
IcmpOK(st, j) == CASE j.t = "none" -> TRUE
                   [] j.t = "ic" -> IcOK(j)
                   [] j.t = "grp" -> Has(st, "igrp", j.n)
IcmpOf(st, j) == CASE j.t = "none" -> NoneT
                   [] j.t = "ic" -> [t |-> "ic", s |-> j.s, cs |-> j.cs]
                   [] j.t = "grp" -> [t |-> "grp", h |-> Ref(st, "igrp", j.n)]
\* options: [k, v (strings), n (a time range which is looked up, or "")]
OptOK(st, o) == o.n = "" \/ Has(st, "time", o.n)
OptOf(st, o) == <<o.k>> \o o.v \o (IF o.n = "" THEN <<>> ELSE <<o.n>> \o st.heap[Ref(st, "time", o.n)].m)

RuleOK(st, r) ==
    /\ ProtoOK(st, r.proto) /\ TermOK(st, r.src) /\ TermOK(st, r.dst)
    /\ PortOK(st, r.sport) /\ PortOK(st, r.dport) /\ IcmpOK(st, r.icmp)
    /\ AllSeq(LAMBDA o : OptOK(st, o), r.opts)
RuleOf(st, c, r) ==
    [kind |-> "rule", id |-> c.id, idc |-> c.idc, mode |-> r.mode,
     proto |-> ProtoOf(st, r.proto), src |-> TermOf(st, r.src), sport |-> PortOf(st, r.sport),
     dst |-> TermOf(st, r.dst), dport |-> PortOf(st, r.dport), icmp |-> IcmpOf(st, r.icmp),
     opts |-> {OptOf(st, r.opts[i]) : i \in 1..Len(r.opts)},
     times |-> {Ref(st, "time", r.opts[i].n) : i \in {x \in 1..Len(r.opts) : r.opts[x].n # ""}},
     rem |-> LET R == SelectSeq(st.pend, LAMBDA x : x.id = c.id) IN [i \in 1..Len(R) |-> R[i].text],
     head |-> <<>>]

\* one line of an access list: a remark, an ethertype line, or a rule
LineStep(st, c, r) ==
    IF ~st.ok THEN st
    ELSE IF r.t = "remark" THEN [st EXCEPT !.pend = Append(@, [id |-> r.id, text |-> r.text])]
    ELSE IF r.t = "ethertype" THEN [st EXCEPT !.pend = <<>>]
    ELSE IF ~RuleOK(st, r) THEN Reject(st)
    ELSE [st EXCEPT !.rules = Append(@, RuleOf(st, c, r)), !.pend = <<>>]

-----------------------------------------------------------------------------
(* interfaces                                                                  *)
IfLine(i, x) ==
    CASE x.t = "nameif" -> [i EXCEPT !.nameif = x.v]
      [] x.t = "desc" -> [i EXCEPT !.desc = x.v]
      [] x.t = "addr" -> [i EXCEPT !.addrs = Append(@, [a |-> x.a, n |-> NetLen(x.a.v, x)])]
      [] x.t = "ag" -> [i EXCEPT !.ags = Put(@, x.key, <<x.n, x.dir>>)]
      [] x.t = "mode" -> [i EXCEPT !.mode = x.v]
      [] x.t = "vlan" -> [i EXCEPT !.vlans = IF x.op = "set" THEN x.v ELSE @ \o x.v]
      [] OTHER -> i
EmptyIf(alias) == [alias |-> alias, nameif |-> "", desc |-> "", addrs |-> <<>>, ags |-> NoFn,
                   mode |-> "", vlans |-> <<>>, routes |-> {}, ac |-> <<>>]
IfStep(st, c) ==
    LET i == FoldLeft(IfLine, EmptyIf(c.alias), c.lines)
        k == Len(st.ifs) + 1
        t == Put(st.iftab, c.alias, k)
    IN  [st EXCEPT !.ifs = Append(@, i),
                   !.iftab = IF i.nameif = "" THEN t ELSE Put(t, i.nameif, k),
                   !.agrp = @ \o MapSeq(LAMBDA key : <<i.ags[key][1], c.alias, i.ags[key][2]>>,
                                        SetToSeq(DOMAIN i.ags))]
AgrpStep(st, c) ==
    LET I == {k \in 1..Len(st.ifs) : st.ifs[k].nameif = c.ifn}
    IN  IF I = {} THEN st
        ELSE LET k == Min(I)
             IN  [st EXCEPT !.ifs[k].ags = Put(@, c.dir, <<c.n, c.dir>>),
                            \* the list bound to it before is not any more
                            !.agrp = Append(SelectSeq(@, LAMBDA b : b[2] # st.ifs[k].alias \/ b[3] # c.dir), <<c.n, st.ifs[k].alias, c.dir>>)]
RouteStep(st, c) ==
    IF c.gw # "" /\ c.gw \notin DOMAIN st.iftab THEN st     \* to an interface which is not defined (before): ignored
    ELSE IF ~(AddrOK(c.a) /\ AddrOK(c.m)) THEN Reject(st)
    ELSE LET n == MaskLen(c.m)
         IN  IF n < 0 \/ NetPat(c.a, n).x # c.a.l THEN Reject(st)
             ELSE [st EXCEPT !.routes = Append(@, [p |-> NetPat(c.a, n), gw |-> c.gw, gwa |-> c.gwa])]
\* the routes of the finished configuration belong to the named interface, or to
\* those with a network which contains the gateway
RouteIfs(st, r) ==
    IF r.gw # "" THEN {st.iftab[r.gw]}
    ELSE {k \in 1..Len(st.ifs) :
            \E j \in 1..Len(st.ifs[k].addrs) :
                LET x == st.ifs[k].addrs[j]
                IN  x.a.v = r.gwa.v /\ Covers(NetPat(x.a, x.n), r.gwa.l)}

-----------------------------------------------------------------------------
(* pfSense                                                                     *)
\* aliases: host (a text which is no address stands for any), network, port
PfAliasTerm(j) == IF j.t = "host" THEN IF AddrOK(j.a) THEN PatT(HostPat(j.a), "") ELSE AnyT
                  ELSE IF j.t = "any" THEN AnyT
                  ELSE PatT(NetPat(j.a, j.p), "")
\* URL tables (c.u: "ok", "fail": fetched or not to be reached, "off": not to be fetched): each line
\* which is an address or a network without bits behind its length; without fetching any address
TableLine(j) == \/ j.t = "host" /\ AddrOK(j.a)
                \/ j.t = "net" /\ AddrOK(j.a) /\ j.p >= 0 /\ j.p <= Width(j.a.v) /\ NetPat(j.a, j.p).x = j.a.l
PfMembers(st, c) ==
    IF c.k = "pgrp" THEN MapSeq(LAMBDA j : PortOf(st, j), c.m)
    ELSE CASE c.u = "" -> MapSeq(PfAliasTerm, c.m)
           [] c.u = "off" -> << AnyT >>
           [] c.u = "fail" -> <<>>
           [] c.u = "ok" -> MapSeq(PfAliasTerm, SelectSeq(c.m, TableLine))
PfIf(st, n) ==     \* the name under which an interface is known: optN by its description
    LET I == {k \in 1..Len(st.ifs) : st.ifs[k].desc = n}
    IN  IF I = {} THEN n ELSE st.ifs[Max(I)].alias
FloatingCodes == <<102, 108, 111, 97, 116, 105, 110, 103>>
PfIdCodes(st, c) ==
    LET I == {k \in 1..Len(st.ifs) : st.ifs[k].desc = c.ifs[1]}
    IN  IF c.floating THEN FloatingCodes ELSE IF I = {} THEN c.ic ELSE st.ifs[Max(I)].ac
PfTermOK(st, j) ==
    CASE j.t = "any" -> TRUE
      [] j.t = "addr" -> j.n \in DOMAIN st.tab["ngrp"] \/ (j.a.v # 0 /\ AddrOK(j.a) /\ j.p <= Width(j.a.v))
      [] j.t = "net" -> LET a == IF j.n \in DOMAIN st.iftab THEN j.n ELSE PfIf(st, j.n)
                        IN  a \in DOMAIN st.iftab
      [] OTHER -> FALSE
PfTermOf(st, j) ==
    CASE j.t = "any" -> AnyT
      [] j.t = "addr" -> IF j.n \in DOMAIN st.tab["ngrp"] THEN [t |-> "grp", h |-> Ref(st, "ngrp", j.n)]
                         ELSE PatT(IF j.p < 0 THEN HostPat(j.a) ELSE NetPat(j.a, j.p), "")
      [] j.t = "net" -> [t |-> "if", n |-> IF j.n \in DOMAIN st.iftab THEN j.n ELSE PfIf(st, j.n)]
PfPortOf(st, j) ==
    CASE j.t = "none" -> NoneT
      [] j.t = "op" -> IF j.p.s \in DOMAIN st.tab["pgrp"] THEN [t |-> "grp", h |-> Ref(st, "pgrp", j.p.s)]
                       ELSE [t |-> "op", op |-> "eq", p |-> j.p]
      [] j.t = "range" -> [t |-> "range", a |-> j.a, b |-> j.b]
PfPortOK(j) == j.t = "range" /\ j.a.i >= 0 /\ j.b.i >= 0 => j.a.i < j.b.i
PfIfStep(st, c) ==
    LET k == Len(st.ifs) + 1
        i == [EmptyIf(c.alias) EXCEPT !.desc = c.desc, !.nameif = c.nameif, !.ac = c.ac,
                                      !.addrs = MapSeq(LAMBDA x : [a |-> x.a, n |-> x.p], c.addrs)]
    IN  IF ~AllSeq(LAMBDA x : AddrOK(x.a) /\ x.p <= Width(x.a.v), c.addrs) THEN Reject(st) ELSE [st EXCEPT !.ifs = Append(@, i), !.iftab = Put(@, c.alias, k)]
PfRuleStep(st, c) ==
    IF ~(PfTermOK(st, c.src) /\ PfTermOK(st, c.dst) /\ PfPortOK(c.sport) /\ PfPortOK(c.dport) /\ ~c.bad)
    THEN Reject(st)
    ELSE LET id == IF c.floating THEN "floating" ELSE PfIf(st, c.ifs[1])
         IN  [st EXCEPT !.rules = Append(@,
               [kind |-> "rule", id |-> id, idc |-> PfIdCodes(st, c), mode |-> IF c.type = "pass" THEN "permit" ELSE "deny",
                proto |-> [t |-> "p", s |-> IF c.proto = "" THEN "any" ELSE c.proto, i |-> -1],
                src |-> PfTermOf(st, c.src), sport |-> PfPortOf(st, c.sport),
                dst |-> PfTermOf(st, c.dst), dport |-> PfPortOf(st, c.dport),
                icmp |-> IF c.icmp = "" THEN NoneT ELSE [t |-> "ic", s |-> c.icmp, cs |-> ""],
                opts |-> (IF c.tracker = "" THEN {<<"xref", "-1">>} ELSE {<<"xref", c.tracker>>})
                         \cup (IF c.floating THEN {<<"floating", c.dir>> \o MapSeq(LAMBDA n : PfIf(st, n), c.ifs)} ELSE {})
                         \cup (IF c.disabled THEN {<<"inactive">>} ELSE {})
                         \cup (IF c.log THEN {<<"log">>} ELSE {})
                         \cup (IF c.state \in {"", "keep state"} THEN {} ELSE {<<"statetype", c.state>>}),
                times |-> {}, rem |-> <<c.descr>>, head |-> <<>>])]
\* separators head the rule at their row of their interface; rows count the rules of one interface
PfSepStep(st, c) ==
    LET ifn == IF c.ifn = "floatingrules" THEN "floating" ELSE PfIf(st, c.ifn)
    IN  [st EXCEPT !.seps = Append(@, [ifn |-> ifn, row |-> c.row, text |-> c.text, bg |-> c.bg])]
RowOf(st, k) == Cardinality({j \in 1..(k - 1) : st.rules[j].id = st.rules[k].id})
PfHead(st, k) ==
    LET S == SelectSeq(st.seps, LAMBDA s : s.ifn = st.rules[k].id /\ s.row = RowOf(st, k))
    IN  FlattenSeq(MapSeq(LAMBDA s : <<s.text, s.bg>>, S))

-----------------------------------------------------------------------------
Step0(st, c) ==
    CASE c.c = "noise" -> st
      [] c.c = "junk" -> Reject(st)
      [] c.c = "hostname" -> [st EXCEPT !.host = c.v]
      [] c.c = "domain" -> [st EXCEPT !.dom = c.v]
      [] c.c = "version" -> [st EXCEPT !.ver = c.v]
      [] c.c = "name" ->
            IF ~AddrOK(c.a) THEN Reject(st)
            ELSE LET s == Define(st, [k |-> "name", n |-> c.n, d |-> c.d, m |-> c.a, x |-> ""], FALSE, FALSE)
                 IN  [s EXCEPT !.names = Append(@, Len(s.heap))]
      [] c.c = "if" -> IfStep(st, c)
      [] c.c = "nobj" ->
            IF ~ObjOK(st, c.b) \/ (c.nat.t = "nat" /\ ~ObjNatOK(st, c.nat)) THEN Reject(st)
            ELSE LET s == Define(st, Entry("nobj", c.n, c.d, ObjTerms(st, c.b)), TRUE, TRUE)
                 IN  IF c.nat.t = "none" THEN s
                     ELSE [s EXCEPT !.nats[2] = Append(@, ObjNatOf(s, c.nat, Ref(s, "nobj", c.n)))]
      [] c.c = "sobj" ->
            IF ~SvcOK(st, c.s) THEN Reject(st)
            ELSE Define(st, Entry("sobj", c.n, c.d, << SvcOf(st, c.s) >>), TRUE, FALSE)
      [] c.c = "grp" ->
            IF ~AllSeq(LAMBDA j : GrpMemOK(st, c.k, j), c.m) THEN Reject(st)
            ELSE Define(st, [Entry(c.k, c.n, c.d, MapSeq(LAMBDA j : GrpMemOf(st, c.k, j), c.m)) EXCEPT !.x = c.x],
                        FALSE, FALSE)
      [] c.c = "time" -> Define(st, Entry("time", c.n, "", FlattenSeq(MapSeq(TimeToks, c.m))), FALSE, FALSE)
      [] c.c = "acl" -> FoldLeft(LAMBDA s, r : LineStep(s, c, r), st, c.lines)
      [] c.c = "agrp" -> AgrpStep(st, c)
      [] c.c = "nat" ->
            IF ~NatOK(st, c) THEN Reject(st)
            ELSE [st EXCEPT !.nats[IF c.pos THEN 3 ELSE 1] = Append(@, NatOf(st, c))]
      [] c.c = "route" -> RouteStep(st, c)
      [] c.c = "pfalias" ->
            IF c.k = "pgrp" /\ ~AllSeq(PfPortOK, c.m) THEN Reject(st)
            ELSE Define(st, [Entry(c.k, c.n, c.d,
                              PfMembers(st, c)) EXCEPT !.x = IF c.k = "pgrp" THEN "any" ELSE ""],
                   FALSE, FALSE)
      [] c.c = "pfif" -> PfIfStep(st, c)
      [] c.c = "pfrule" -> PfRuleStep(st, c)
      [] c.c = "pfsep" -> PfSepStep(st, c)

\* the same text may be different commands of the dialects, and junk of some of them
Variant(dia, c) == IF c.c = "alt" THEN c[dia] ELSE c

\* remarks wait for the next access-list line, which has those of its own list;
\* every other command drops them, and those of a block belong to its lines only
Step(st, cv) ==
    LET c == Variant(st.dia, cv) IN
    IF ~st.ok THEN st
    ELSE IF c.c = "acl" /\ ~c.blk THEN TLCEval(Step0(st, c))
    ELSE IF c.c = "acl" THEN TLCEval([Step0([st EXCEPT !.pend = <<>>], c) EXCEPT !.pend = <<>>])
    ELSE TLCEval([Step0(st, c) EXCEPT !.pend = <<>>])

Import(dia, cmds) == FoldLeft(Step, EmptyCfg(dia), cmds)

\* a text of which the dialect is not told is of the first one in which it is valid
Dialects == << "asa", "ios", "pfsense" >>
Detect(cmds) == LET D == SelectSeq(Dialects, LAMBDA d : Import(d, cmds).ok) IN IF D = <<>> THEN "none" ELSE D[1]
Load(dia, cmds) == IF dia # "auto" THEN Import(dia, cmds)
                   ELSE LET d == Detect(cmds) IN IF d = "none" THEN Reject(EmptyCfg(d)) ELSE Import(d, cmds)
=============================================================================
