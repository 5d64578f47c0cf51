------------------------------ MODULE MC_Import ------------------------------
(* Every sequence of commands over a small alphabet up to a bound is imported.  *)
(* The invariants say what the configuration is by looking at the whole history *)
(* of commands - declaratively, not command by command as Config.tla does.      *)
(* Every behaviour is written down and replayed into the implementation.        *)
EXTENDS Proj, Json, IOUtils, CSV

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
\* [c |-> command, o |-> order, u |-> what only one command of the history may be about, "": nothing,
\*  w |-> "in": all values are within their bounds, "out": one is not, "": nothing is said]
Alpha == ndJsonDeserialize(IOEnv.ALPHA)
Pre == ndJsonDeserialize(IOEnv.PRE)          \* the commands before
Bound == Num(IOEnv.BOUND)
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Dia == IOEnv.DIA
\* every rejection of this alphabet is one of a reference
OnlyRefs == IOEnv.ONLYREFS = "1"

VARIABLES hist, now
vars == << hist, now >>

St0 == Import(Dia, Pre)
Init == \/ hist = <<>> /\ now = St0 /\ Part = 0
        \/ \E i \in 1..Len(Alpha) :
              /\ i % Parts = Part
              /\ hist = <<i>>
              /\ now = Step(St0, Alpha[i].c)
Next == /\ Len(hist) \in 1..(Bound - 1)
        /\ \E i \in 1..Len(Alpha) :
              /\ Alpha[i].o >= Alpha[hist[Len(hist)]].o
              /\ Alpha[i].u = "" \/ \A j \in 1..Len(hist) : Alpha[hist[j]].u # Alpha[i].u
              /\ hist' = Append(hist, i)
              /\ now' = Step(now, Alpha[i].c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Cmd(i) == IF i <= Len(Pre) THEN Pre[i] ELSE Alpha[hist[i - Len(Pre)]].c
N == Len(Pre) + Len(hist)
DefKind(c) == CASE c.c \in {"name", "nobj", "sobj", "time"} -> c.c
                [] c.c \in {"grp", "pfalias"} -> c.k
                [] OTHER -> ""
Defs(k, n, i) == {j \in 1..i : DefKind(Cmd(j)) = k /\ Cmd(j).n = n}
\* what the name denotes to the command i: of objects the first definition counts, of all others the last
Denoted(k, n, i) == IF k \in {"nobj", "sobj"} THEN Min(Defs(k, n, i)) ELSE Max(Defs(k, n, i))
HeapOf(j) == Cardinality({x \in 1..j : DefKind(Cmd(x)) # ""})
Is(t, kind, k, n, i) == Defs(k, n, i) # {} /\ t.t = kind /\ t.h = HeapOf(Denoted(k, n, i))
IfDefs(n, i) == {j \in 1..i : Cmd(j).c = "if" /\ (Cmd(j).alias = n \/ \E x \in 1..Len(Cmd(j).lines) : Cmd(j).lines[x].t = "nameif" /\ Cmd(j).lines[x].v = n)}

\* the lines of all access lists; anything else in between is a gap
RECURSIVE LinesFrom(_)
LinesFrom(i) ==
    IF i > N THEN <<>>
    ELSE LET gap == << [i |-> i, l |-> [t |-> "gap"]] >>
             own == [x \in 1..Len(Cmd(i).lines) |-> [i |-> i, l |-> Cmd(i).lines[x]]]
         IN  (IF Cmd(i).c # "acl" THEN gap ELSE IF Cmd(i).blk THEN gap \o own \o gap ELSE own) \o LinesFrom(i + 1)
\* positions of the rules in the lines
RuleAt(L) == SelectSeq([p \in 1..Len(L) |-> p], LAMBDA p : L[p].l.t = "rule")

\* the remarks of its own list directly before the line p
Before(L, p) ==
    LET q == Min({q \in 1..p : \A x \in q..(p - 1) : L[x].l.t = "remark"})
        B == SelectSeq(SubSeq(L, q, p - 1), LAMBDA y : y.l.id = Cmd(L[p].i).id)
    IN  [x \in 1..Len(B) |-> B[x].l.text]

\* the reference j of the command i denotes t
TermRef(j, i, t) ==
    CASE j.t = "obj" -> Is(t, "obj", "nobj", j.n, i - 1)
      [] j.t = "grp" -> Is(t, "grp", "ngrp", j.n, i - 1)
      [] j.t = "ref" -> IF Defs("nobj", j.n, i - 1) # {} THEN Is(t, "obj", "nobj", j.n, i - 1)
                        ELSE Is(t, "grp", "ngrp", j.n, i - 1)
      [] j.t \in {"nhost", "nnet"} ->
            /\ Defs("name", j.n, i - 1) # {}
            /\ t.t = "pat" /\ t.nm = j.n
            /\ Covers(t.p, Cmd(Denoted("name", j.n, i - 1)).a.l)
      [] OTHER -> TRUE
PortRef(j, i, t) == j.t = "grp" => Is(t, "grp", "pgrp", j.n, i - 1)
ProtoRef(j, i, t) ==
    CASE j.t = "sobj" -> Is(t, "sobj", "sobj", j.n, i - 1)
      [] j.t = "grp" -> IF Defs("sgrp", j.n, i - 1) # {} THEN Is(t, "grp", "sgrp", j.n, i - 1)
                        ELSE Is(t, "grp", "rgrp", j.n, i - 1)
      [] OTHER -> TRUE
IcmpRef(j, i, t) == j.t = "grp" => Is(t, "grp", "igrp", j.n, i - 1)
MemRef(k, j, i, t) ==
    CASE j.t = "grp" -> Is(t, "grp", k, j.n, i - 1)
      [] j.t = "sobj" -> Is(t, "sobj", "sobj", j.n, i - 1)
      [] k = "ngrp" -> TermRef(j, i, t)
      [] OTHER -> TRUE

\* C06, C07: one rule per line, in order, with the values and the remarks of its own
RuleInv ==
    (now.ok /\ Dia # "pfsense") =>
        LET L == LinesFrom(1)
            R == RuleAt(L)
        IN  /\ Len(now.rules) = Len(R)
            /\ \A k \in 1..Len(R) :
                  LET x == L[R[k]]  r == now.rules[k]
                  IN  /\ r.id = Cmd(x.i).id /\ r.mode = x.l.mode
                      /\ r.rem = Before(L, R[k])
                      /\ x.l.src.t \in {"any", "any4", "any6", "if"} => r.src.t = x.l.src.t
                      /\ x.l.dport.t \in {"op", "range"} => r.dport.t = x.l.dport.t
                      /\ Cardinality(r.opts) = Len(x.l.opts)
                      \* C08
                      /\ TermRef(x.l.src, x.i, r.src) /\ TermRef(x.l.dst, x.i, r.dst)
                      /\ PortRef(x.l.sport, x.i, r.sport) /\ PortRef(x.l.dport, x.i, r.dport)
                      /\ ProtoRef(x.l.proto, x.i, r.proto) /\ IcmpRef(x.l.icmp, x.i, r.icmp)
                      /\ \A o \in 1..Len(x.l.opts) :
                            x.l.opts[o].n # "" => HeapOf(Denoted("time", x.l.opts[o].n, x.i - 1)) \in r.times

\* C17: one rule per rule of the filter, in order; a separator heads one of them or none
PfInv ==
    (now.ok /\ Dia = "pfsense") =>
        LET R == SelectSeq([i \in 1..N |-> i], LAMBDA i : Cmd(i).c = "pfrule")
            Tag(t) == LET I == {i \in 1..N : Cmd(i).c = "pfif" /\ Cmd(i).desc = t} IN IF I = {} THEN t ELSE Cmd(Max(I)).alias
            Of(c) == IF c.floating THEN "floating" ELSE Tag(c.ifs[1])
            At(s) == {k \in 1..Len(R) : /\ Of(Cmd(R[k])) = (IF s.ifn = "floatingrules" THEN "floating" ELSE Tag(s.ifn))
                                       /\ s.row = Cardinality({j \in 1..(k - 1) : Of(Cmd(R[j])) = Of(Cmd(R[k]))})}
            S == SelectSeq([i \in 1..N |-> i], LAMBDA i : Cmd(i).c = "pfsep")
        IN  /\ Len(now.rules) = Len(R)
            /\ \A k \in 1..Len(R) :
                  LET c == Cmd(R[k])  r == now.rules[k]
                  IN  /\ r.id = Of(c) /\ r.mode = (IF c.type = "pass" THEN "permit" ELSE "deny")
                      /\ (\E o \in r.opts : o[1] = "floating" /\ Len(o) = 2 + Len(c.ifs)) <=> c.floating
                      /\ (<<"inactive">> \in r.opts) <=> c.disabled
                      /\ (<<"log">> \in r.opts) <=> c.log
                      /\ r.rem = << c.descr >>
                      /\ c.src.t = "addr" => IF Defs("ngrp", c.src.n, R[k]) # {} THEN Is(r.src, "grp", "ngrp", c.src.n, R[k]) ELSE r.src.t = "pat"
                      /\ (c.dport.t = "op" /\ Defs("pgrp", c.dport.p.s, R[k]) # {}) => Is(r.dport, "grp", "pgrp", c.dport.p.s, R[k])
            /\ \A x \in 1..Len(S) :
                  /\ Cardinality(At(Cmd(S[x]))) <= 1
                  /\ \A k \in 1..Len(R) : (k \in At(Cmd(S[x]))) <=> (\E h \in 1..Len(PfHead(now, k)) : PfHead(now, k)[h] = Cmd(S[x]).text)

\* C23: a URL table has the addresses and networks of its lines, or none, or any
TableInv ==
    now.ok =>
        \A i \in {i \in 1..N : Cmd(i).c = "pfalias" /\ Cmd(i).u # ""} :
            LET c == Cmd(i)
                m == now.heap[HeapOf(i)].m
                Line(j) == c.m[j].t \in {"host", "net"} /\ AddrOK(c.m[j].a)
                Good(j) == Line(j) /\ (c.m[j].t = "net" => /\ c.m[j].p \in 0..Width(c.m[j].a.v)
                                                            /\ \A n \in (c.m[j].p + 1)..Width(c.m[j].a.v) : ~Bit(c.m[j].a.v, c.m[j].a.l, n))
                G == SelectSeq([j \in 1..Len(c.m) |-> j], Good)
            IN  CASE c.u = "off" -> Len(m) = 1 /\ m[1].t = "any"
                  [] c.u = "fail" -> m = <<>>
                  [] c.u = "ok" -> /\ Len(m) = Len(G)
                                   /\ \A k \in 1..Len(m) : m[k].t = "pat" /\ Covers(m[k].p, c.m[G[k]].a.l)

\* C08, C20: definitions with the members written, in order, which denote what they denoted there
DefInv ==
    now.ok =>
        \A i \in {i \in 1..N : DefKind(Cmd(i)) # ""} :
            LET e == now.heap[HeapOf(i)]
            IN  /\ e.k = DefKind(Cmd(i)) /\ e.n = Cmd(i).n
                /\ Cmd(i).c = "grp" => /\ Len(e.m) = Len(Cmd(i).m)
                                       /\ \A x \in 1..Len(e.m) : MemRef(e.k, Cmd(i).m[x], i, e.m[x])

\* what the names of the finished configuration denote
NameInv ==
    now.ok =>
        \A k \in Kinds : \A n \in UNION {{Cmd(i).n : i \in {i \in 1..N : DefKind(Cmd(i)) = k}}} :
            /\ n \in DOMAIN now.lst[k]
            /\ now.tab[k][n] = HeapOf(Denoted(k, n, N))
            /\ now.lst[k][n] = HeapOf(IF k = "nobj" THEN Min(Defs(k, n, N)) ELSE Max(Defs(k, n, N)))

\* C14: every NAT once, in order, in its section
Nats(s) == SelectSeq([i \in 1..N |-> i],
             LAMBDA i : CASE Cmd(i).c = "nat" -> s = IF Cmd(i).pos THEN 3 ELSE 1
                          [] Cmd(i).c = "nobj" -> s = 2 /\ Cmd(i).nat.t = "nat"
                          [] OTHER -> FALSE)
NatInv ==
    now.ok =>
        \A s \in 1..3 :
            LET S == Nats(s)
            IN  /\ Len(now.nats[s]) = Len(S)
                /\ \A k \in 1..Len(S) :
                      LET c == IF s = 2 THEN Cmd(S[k]).nat ELSE Cmd(S[k])
                          n == now.nats[s][k]
                      IN  /\ n.ty = c.ty
                          /\ c.ri # "any" => IfDefs(c.ri, S[k] - 1) # {}
                          /\ c.mi # "any" => IfDefs(c.mi, S[k] - 1) # {}
                          /\ s = 2 => Is(n.real.src, "obj", "nobj", Cmd(S[k]).n, S[k])
                          /\ s # 2 => /\ TermRef(c.rs, S[k], n.real.src)
                                      /\ n.real.dst.t = "none" <=> c.rd.t = "none"
                                      /\ c.rd.t # "none" => TermRef(c.rd, S[k], n.real.dst)
                                      /\ c.md.t \notin {"none", "interface"} => TermRef(c.md, S[k], n.mapped.dst)
                                      /\ c.svc # <<>> =>
                                            {n.rsvc.h, n.msvc.h} = {HeapOf(Denoted("sobj", c.svc[x], S[k] - 1)) : x \in 1..2}
                          /\ c.ms.t = "interface" => n.mapped.src.t = "if"
                          /\ c.ms.t # "interface" => TermRef(c.ms, S[k], n.mapped.src)

\* C16: interfaces, bindings
IfInv ==
    now.ok =>
        LET I == SelectSeq([i \in 1..N |-> i], LAMBDA i : Cmd(i).c \in {"if", "pfif"})
        IN  /\ Len(now.ifs) = Len(I)
            /\ \A k \in 1..Len(I) : now.ifs[k].alias = Cmd(I[k]).alias
            /\ \A b \in 1..Len(now.agrp) : \E k \in 1..Len(now.ifs) :
                  /\ now.ifs[k].alias = now.agrp[b][2]
                  /\ \E key \in DOMAIN now.ifs[k].ags : now.ifs[k].ags[key] = << now.agrp[b][1], now.agrp[b][3] >>
            /\ \A r \in 1..Len(now.routes) :
                  /\ now.routes[r].gw # "" => Cardinality(RouteIfs(now, now.routes[r])) = 1
                  /\ now.routes[r].gw = "" =>
                        \A k \in 1..Len(now.ifs) :
                            (k \in RouteIfs(now, now.routes[r])) <=>
                            \E x \in 1..Len(Cmd(I[k]).lines) :
                                LET a == Cmd(I[k]).lines[x]
                                IN  a.t = "addr" /\ Overlap(NetPat(a.a, NetLen(a.a.v, a)), HostPat(now.routes[r].gwa))
            \* the routes in order; those to interfaces which are not defined before are none
            /\ LET Q == SelectSeq([i \in 1..N |-> i], LAMBDA i : Cmd(i).c = "route" /\ (Cmd(i).gw = "" \/ IfDefs(Cmd(i).gw, i - 1) # {}))
               IN  /\ Len(now.routes) = Len(Q)
                   /\ \A r \in 1..Len(Q) : now.routes[r].p = NetPat(Cmd(Q[r]).a, MaskLen(Cmd(Q[r]).m)) /\ now.routes[r].gwa = Cmd(Q[r]).gwa
            \* a binding is known at the interface and at the list
            /\ \A i \in 1..N : (Cmd(i).c = "agrp" /\ \E j \in 1..(i - 1) : Cmd(j).c = "if" /\ \E x \in 1..Len(Cmd(j).lines) :
                                    Cmd(j).lines[x].t = "nameif" /\ Cmd(j).lines[x].v = Cmd(i).ifn)
                             \* the last one of the interface and the direction
                             /\ ~ (\E j \in (i + 1)..N : Cmd(j).c = "agrp" /\ Cmd(j).ifn = Cmd(i).ifn /\ Cmd(j).dir = Cmd(i).dir) =>
                  \E b \in 1..Len(now.agrp) : now.agrp[b][1] = Cmd(i).n /\ now.agrp[b][3] = Cmd(i).dir
            \* what the lines of the interface say
            /\ Dia # "pfsense" =>
                  \A k \in 1..Len(I) :
                      LET L == Cmd(I[k]).lines
                          V == SelectSeq(L, LAMBDA x : x.t = "vlan")
                          K == {j \in 1..Len(V) : V[j].op = "set"}
                          from == IF K = {} THEN 1 ELSE Max(K)
                      IN  /\ Len(now.ifs[k].addrs) = Len(SelectSeq(L, LAMBDA x : x.t = "addr"))
                          /\ now.ifs[k].vlans = FlattenSeq([j \in 1..(Len(V) - from + 1) |-> V[from + j - 1].v])

\* C08: rejected exactly for a reference to what is not defined before
RefsOf(c) ==
    LET T(j) == CASE j.t = "obj" -> {<< {"nobj"}, j.n >>}
                  [] j.t = "grp" -> {<< {"ngrp"}, j.n >>}
                  [] j.t = "ref" -> {<< {"nobj", "ngrp"}, j.n >>}
                  [] j.t \in {"nhost", "nnet"} -> {<< {"name"}, j.n >>}
                  [] OTHER -> {}
        P(j) == IF j.t = "grp" THEN {<< {"pgrp"}, j.n >>} ELSE {}
        R(l) == IF l.t # "rule" THEN {}
                ELSE T(l.src) \cup T(l.dst) \cup P(l.sport) \cup P(l.dport)
                     \cup (IF l.proto.t = "sobj" THEN {<< {"sobj"}, l.proto.n >>}
                           ELSE IF l.proto.t = "grp" THEN {<< {"sgrp", "rgrp"}, l.proto.n >>} ELSE {})
                     \cup (IF l.icmp.t = "grp" THEN {<< {"igrp"}, l.icmp.n >>} ELSE {})
                     \cup {<< {"time"}, l.opts[o].n >> : o \in {o \in 1..Len(l.opts) : l.opts[o].n # ""}}
        M(k, j) == CASE j.t = "grp" -> {<< {k}, j.n >>}
                     [] j.t = "sobj" -> {<< {"sobj"}, j.n >>}
                     [] k = "ngrp" -> T(j)
                     [] OTHER -> {}
        I(n) == IF n = "any" THEN {} ELSE {<< {"if"}, n >>}
    IN  CASE c.c = "acl" -> UNION {R(c.lines[x]) : x \in 1..Len(c.lines)}
          [] c.c = "grp" -> UNION {M(c.k, c.m[x]) : x \in 1..Len(c.m)}
          [] c.c = "nat" -> I(c.ri) \cup I(c.mi) \cup T(c.rs) \cup T(c.ms) \cup T(c.md) \cup T(c.rd)
                            \cup {<< {"sobj"}, c.svc[x] >> : x \in 1..Len(c.svc)}
          [] c.c = "nobj" -> IF c.nat.t = "nat" THEN I(c.nat.ri) \cup I(c.nat.mi) \cup T(c.nat.ms) ELSE {}
          [] OTHER -> {}
Undefined(i) ==
    \E x \in RefsOf(Cmd(i)) : \A k \in x[1] : IF k = "if" THEN IfDefs(x[2], i - 1) = {} ELSE Defs(k, x[2], i - 1) = {}
RejectInv ==
    /\ now.ok => \A i \in 1..N : ~Undefined(i)
    /\ OnlyRefs => (~now.ok => \E i \in 1..N : Undefined(i))

\* C09: accepted exactly if all values are within their bounds
BoundInv ==
    (hist # <<>> /\ \A j \in 1..Len(hist) : Alpha[hist[j]].w # "") => (now.ok <=> \A j \in 1..Len(hist) : Alpha[hist[j]].w = "in")

\* C10: expanding flattens, is idempotent and keeps what the terms of the rules cover
FlatInv ==
    now.ok =>
        LET e == ExpandAll(now)
            P == {[v |-> 4, x |-> <<0, 0, 0, 0>>, c |-> <<0, 0, 0, 0>>], HostPat([v |-> 4, l |-> <<10, 0, 0, 1>>]),
                  HostPat([v |-> 4, l |-> <<10, 0, 0, 9>>]), HostPat([v |-> 6, l |-> <<8193, 3512, 0, 0, 0, 0, 0, 1>>])}
        IN  /\ ExpandAll(e).heap = e.heap
            /\ \A h \in Listed(e) : \A x \in 1..Len(e.heap[h].m) : e.heap[h].m[x].t \notin {"grp", "obj", "sobj"}
            /\ \A k \in 1..Len(now.rules) : \A p \in P :
                  HitsPat(now.heap, p, now.rules[k].src) = HitsPat(e.heap, p, now.rules[k].src)

\* C24: without what is ignored the configuration is the same (remarks which it cuts off from their rule aside)
Quiet(c) == IF c.c = "if" THEN [c EXCEPT !.lines = SelectSeq(@, LAMBDA l : l.t # "noise")] ELSE c
Loud(i) == Cmd(i).c = "noise" \/ (Cmd(i).c = "if" /\ \E x \in 1..Len(Cmd(i).lines) : Cmd(i).lines[x].t = "noise")
Pending(i) == Cmd(i).c = "acl" /\ ~Cmd(i).blk /\ Cmd(i).lines[Len(Cmd(i).lines)].t = "remark"
NoiseInv ==
    ((\E i \in 1..N : Loud(i)) /\ \A i \in 2..N : Cmd(i).c = "noise" => ~Pending(i - 1) /\ Cmd(i - 1).c # "noise") =>
        now = Import(Dia, MapSeq(Quiet, SelectSeq([i \in 1..N |-> Cmd(i)], LAMBDA c : c.c # "noise")))

\* C25: host, domain and version are those given last, and nothing else speaks about them
Told(k) == LET S == {i \in 1..N : Cmd(i).c = k} IN IF S = {} THEN "" ELSE Cmd(Max(S)).v
IdentInv == now.ok => /\ now.host = Told("hostname") /\ now.dom = Told("domain") /\ now.ver = Told("version")

\* definitions, rules and NATs are never changed by later commands
Frozen ==
    [][/\ ~now.ok => ~now'.ok
       /\ IsPrefix(now.heap, now'.heap)
       /\ IsPrefix(now.rules, now'.rules)
       /\ \A s \in 1..3 : IsPrefix(now.nats[s], now'.nats[s])
       /\ IsPrefix(now.routes, now'.routes)]_vars

Emit == CSVWrite("%1$s", << ToString(hist) >>, IOEnv.EMIT)
=============================================================================
