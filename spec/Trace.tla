-------------------------------- MODULE Trace -------------------------------
(* Validation of histories recorded from the implementation: every event is    *)
(* an action of the specification (import, filter, expand, sort, ...), and the *)
(* observation recorded with it must be the one the specification determines.  *)
(* The verdict is total: each failing clause is collected with the expected    *)
(* and the observed value, and the history goes on.                            *)
EXTENDS Query, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos, slots, fails, stats
vars == << pos, slots, fails, stats >>

-----------------------------------------------------------------------------
(* clauses: sequences of [c (name), x (expected), o (observed)] that differ     *)
Cl(name, x, o) == IF x = o THEN <<>> ELSE << [c |-> name, i |-> 0, x |-> x, o |-> o] >>
ClB(name, b, x, o) == IF b THEN <<>> ELSE << [c |-> name, i |-> 0, x |-> x, o |-> o] >>
Set(s) == {s[i] : i \in 1..Len(s)}
BagOf(s) == [x \in Set(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
ClSet(name, x, o) == ClB(name, x = Set(o) /\ Cardinality(x) = Len(o), x, o)

RuleClauses(st, r, o) ==
    LET p == RuleProj(st, r)
    IN  Cl("rule.id", p.id, o.id) \o Cl("rule.mode", p.mode, o.mode)
        \o Cl("rule.proto", p.proto, o.proto) \o Cl("rule.src", p.src, o.src)
        \o Cl("rule.sport", p.sport, o.sport) \o Cl("rule.dst", p.dst, o.dst)
        \o Cl("rule.dport", p.dport, o.dport) \o Cl("rule.icmp", p.icmp, o.icmp)
        \o ClSet("rule.opts", r.opts, o.opts)
        \o Cl("rule.rem", p.rem, o.rem)
NatClauses(st, n, o) ==
    LET p == NatProj(st, n)
    IN  Cl("nat.if", p.ifs, o.ifs) \o Cl("nat.type", p.type, o.type) \o Cl("nat.real", p.real, o.real)
        \o Cl("nat.mapped", p.mapped, o.mapped) \o Cl("nat.fb", p.fb, o.fb)
        \o Cl("nat.rsvc", p.rsvc, o.rsvc) \o Cl("nat.msvc", p.msvc, o.msvc)
        \o Cl("nat.desc", p.desc, o.desc) \o ClSet("nat.opts", n.opts, o.opts)
IfClauses(st, k, o) ==
    LET p == IfProj(st, k)
    IN  Cl("if.alias", p.alias, o.alias) \o Cl("if.nameif", p.nameif, o.nameif)
        \o Cl("if.desc", p.desc, o.desc) \o Cl("if.addrs", p.addrs, o.addrs)
        \o Cl("if.mode", p.mode, o.mode) \o Cl("if.vlans", p.vlans, o.vlans)
        \o ClSet("if.ags", IfBind(st, k), o.ags)
        \o ClSet("if.routes", IfRoutes(st, k), o.routes)

\* element by element, if the lengths agree
Each(name, n, o, F(_, _)) ==
    IF n # Len(o) THEN << [c |-> name \o ".count", i |-> 0, x |-> n, o |-> Len(o)] >>
    ELSE FlattenSeq([i \in 1..n |-> MapSeq(LAMBDA c : [c EXCEPT !.i = i], F(i, o[i]))])

GroupClauses(st, o) ==
    ClSet("grp.network", Listing(st, "ngrp"), o.ngrp) \o ClSet("grp.service", Listing(st, "sgrp"), o.sgrp)
    \o ClSet("grp.port", Listing(st, "pgrp"), o.pgrp) \o ClSet("grp.icmp", Listing(st, "igrp"), o.igrp)
    \o ClSet("grp.protocol", Listing(st, "rgrp"), o.rgrp)

\* the whole projection of a finished configuration
FullClauses(st, o) ==
    Cl("cfg.host", << st.host, st.dom >>, << o.host, o.dom >>)
    \o Cl("cfg.name", IF st.dom = "" THEN st.host ELSE st.host \o "." \o st.dom, o.name)
    \o Cl("cfg.ver", st.ver, o.ver)
    \o Each("rules", Len(st.rules), o.rules,
            LAMBDA i, x : RuleClauses(st, st.rules[i], x)
                          \o IF st.dia = "pfsense" THEN Cl("rule.head", PfHead(st, i), x.head) ELSE <<>>)
    \o FlattenSeq([s \in 1..3 |-> Each("nat", Len(st.nats[s]), o.nats[s],
                                       LAMBDA i, x : NatClauses(st, st.nats[s][i], x))])
    \o Each("ifs", Len(st.ifs), o.ifs, LAMBDA i, x : IfClauses(st, i, x))
    \o ClB("agrp", BagOf(st.agrp) = BagOf(o.agrp), st.agrp, o.agrp)
    \o Each("routes", Len(st.routes), o.routes, LAMBDA i, x : Cl("route", RouteTok(st, st.routes[i]), x))
    \o Cl("names", NamesProj(st), o.names)
    \o ClSet("obj.network", Listing(st, "nobj"), o.nobj)
    \o ClSet("obj.service", Listing(st, "sobj"), o.sobj)
    \o ClSet("obj.time", Listing(st, "time"), o.time)
    \o GroupClauses(st, o)

LoadClauses(st, o) ==
    IF ~st.ok THEN Cl("load.reject", "reject", IF o.ok THEN "accept" ELSE "reject")
    ELSE IF ~o.ok THEN << [c |-> "load.accept", i |-> 0, x |-> "accept", o |-> o.err] >>
    ELSE Cl("load.dialect", st.dia, o.dia) \o FullClauses(st, o)

\* without fetching nothing is asked for
AskedClauses(e) ==
    IF \E i \in 1..Len(e.cmds) : e.cmds[i].c = "pfalias" /\ e.cmds[i].u \in {"ok", "fail"} THEN <<>>
    ELSE Cl("load.asked", 0, e.asked)

-----------------------------------------------------------------------------
FilterClauses(st, toks, o) ==
    LET e == Parse(MapSeq(Tok, toks))
    IN  IF ~e.ok THEN Cl("caf.reject", "reject", IF o.st = "parse" THEN "reject" ELSE "accept")
        ELSE IF o.st = "parse" THEN << [c |-> "caf.accept", i |-> 0, x |-> "accept", o |-> "reject"] >>
        ELSE IF o.st # "ok" THEN << [c |-> "filter.run", i |-> 0, x |-> "ok", o |-> o.st] >>
        ELSE ClSet("filter.rules", FilterRules(st, e.x), o.r) \o ClSet("filter.nats", FilterNats(st, e.x), o.n)

\* [via, q, ops, obs]; NAT rules are found through filters only
HandClauses(st, e) ==
    LET x == HandExpr(st, e.q, e.ops, Len(e.q))
        o == e.obs
    IN  IF ~AllSeq(LAMBDA q : HandKnown(st, q), e.q) THEN <<>>
        ELSE IF o.st # "ok" THEN << [c |-> "hand.run", i |-> 0, x |-> "ok", o |-> o.st] >>
        ELSE ClSet("hand.rules", FilterRules(st, x), o.r)
             \o ClSet("hand.nats", IF e.via = "caf" THEN FilterNats(st, x) ELSE {}, o.n)

-----------------------------------------------------------------------------
(* group operations: [op, ins (in place), k, n, ok, ret (the members returned)]  *)
MemberToks(H, m) == MapSeq(LAMBDA x : Toks(H, x), m)
\* the indices of m in the order of the observed members o, <<>> if o is no permutation of m
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(T, o, i, acc) ==
    IF i > Len(o) THEN acc
    ELSE LET C == {j \in 1..Len(T) : T[j] = o[i] /\ \A a \in 1..Len(acc) : acc[a] # j}
         IN  IF C = {} THEN <<>> ELSE MatchFrom(T, o, i + 1, Append(acc, Min(C)))
Match(T, o) == IF Len(T) # Len(o) THEN <<>> ELSE MatchFrom(T, o, 1, <<>>)

OpResult(st, e) ==     \* [ok, cl (failing clauses), m (members of the result)]
    LET H == st.heap
        h == st.lst[e.k][e.n]
        m == IF e.ins THEN H[h].m ELSE Flat(H, H[h].m)
        name == "gop." \o e.op
    IN  CASE e.op = "expand" ->
               LET x == Flat(H, H[h].m)
               IN  [ok |-> TRUE, m |-> x, cl |-> Cl(name, MemberToks(H, x), e.ret)]
          [] e.op = "sort" ->
               LET T == MemberToks(H, m)
                   s == Match(T, e.ret)
               IN  IF s = <<>> /\ m # <<>> THEN [ok |-> TRUE, m |-> m, cl |-> << [c |-> name \o ".perm", i |-> 0, x |-> T, o |-> e.ret] >>]
                   ELSE [ok |-> TRUE, m |-> [i \in 1..Len(s) |-> m[s[i]]],
                         cl |-> ClB(name \o ".order", SortedPerm(e.k, m, s), T, e.ret)]
          [] e.op = "collapse" ->
               IF e.ins /\ Nested(m) THEN [ok |-> FALSE, m |-> m, cl |-> <<>>]
               ELSE LET x == Collapsed(m)
                        s == Match(MemberToks(H, x), e.ret)
                    IN  [ok |-> TRUE,
                         m |-> IF s = <<>> THEN x ELSE [i \in 1..Len(s) |-> x[s[i]]],
                         cl |-> ClB(name, s # <<>> \/ (x = <<>> /\ e.ret = <<>>), MemberToks(H, x), e.ret)]
GopClauses(st, e, r) ==
    IF ~e.ok THEN Cl("gop." \o e.op \o ".refused", r.ok, FALSE)
    ELSE IF ~r.ok THEN << [c |-> "gop." \o e.op \o ".accepted", i |-> 0, x |-> "refused", o |-> "ok"] >>
    ELSE r.cl
GopNext(st, e, r) == IF e.ins /\ r.ok /\ e.ok THEN [st EXCEPT !.heap[st.lst[e.k][e.n]].m = r.m] ELSE st

-----------------------------------------------------------------------------
ResolveClauses(st, e) ==
    LET x == Resolve(st, Set(e.r), {<< e.n[i][1], e.n[i][2] >> : i \in 1..Len(e.n)})
        o == Set(e.obs)
    IN  IF ~e.ok THEN << [c |-> "resolve.run", i |-> 0, x |-> "ok", o |-> e.err] >>
        ELSE ClB("resolve.missing", x \subseteq o, x \ o, {}) \o ClB("resolve.extra", o \subseteq x, {}, o \ x)
             \o ClSet("resolve.kinds", Marks(x), e.marks)

-----------------------------------------------------------------------------
Usable(s) == s \in DOMAIN slots /\ slots[s].ok
Verdict(e) ==       \* [cl, cfg]
    CASE e.e = "begin" -> [cl |-> <<>>, cfg |-> NoFn]
      [] e.e = "load" -> LET st == Load(e.dia, e.cmds)
                         IN  [cl |-> LoadClauses(st, e.obs) \o AskedClauses(e),
                              cfg |-> Put(slots, e.s, IF e.obs.ok THEN st ELSE Reject(st))]
      [] e.e = "same" ->   \* another way to load the same content
                         LET st == Load(e.dia, e.cmds)
                         IN  [cl |-> MapSeq(LAMBDA c : [c EXCEPT !.c = "same." \o @], LoadClauses(st, e.obs)), cfg |-> slots]
      [] e.e = "check" -> [cl |-> << >>, cfg |-> slots]
      [] ~Usable(e.s) -> [cl |-> <<>>, cfg |-> slots]
      [] e.e = "filter" -> [cl |-> FilterClauses(slots[e.s], e.f, e.obs), cfg |-> slots]
      [] e.e = "hand" -> [cl |-> HandClauses(slots[e.s], e), cfg |-> slots]
      [] e.e = "copy" -> \* a copy, or one which was stored and loaded again
                         [cl |-> IF ~e.ok THEN << [c |-> "copy.run", i |-> 0, x |-> "ok", o |-> e.err] >>
                                 ELSE MapSeq(LAMBDA c : [c EXCEPT !.c = "copy." \o @], FullClauses(slots[e.s], e.obs)),
                          cfg |-> IF e.ok THEN Put(slots, e.t, slots[e.s]) ELSE slots]
      [] e.e = "look" -> [cl |-> MapSeq(LAMBDA c : [c EXCEPT !.c = "look." \o @], FullClauses(slots[e.s], e.obs)), cfg |-> slots]
      [] e.e = "groups" -> [cl |-> MapSeq(LAMBDA c : [c EXCEPT !.c = "look." \o @], GroupClauses(slots[e.s], e.obs)), cfg |-> slots]
      [] e.e = "expand" -> [cl |-> IF e.ok THEN <<>> ELSE << [c |-> "expand.run", i |-> 0, x |-> "ok", o |-> e.err] >>,
                            cfg |-> IF e.ok THEN [slots EXCEPT ![e.s] = ExpandAll(@)] ELSE slots]
      [] e.e = "gop" -> LET r == OpResult(slots[e.s], e)
                        IN  [cl |-> GopClauses(slots[e.s], e, r), cfg |-> [slots EXCEPT ![e.s] = GopNext(@, e, r)]]
      [] e.e = "resolve" -> [cl |-> ResolveClauses(slots[e.s], e), cfg |-> slots]

Bump(s, e) ==
    LET b == s.blocked + (IF e.e \notin {"begin", "load", "same", "check"} /\ ~Usable(e.s) THEN 1 ELSE 0)
        h == s.hits + (IF e.e \in {"filter", "hand"} THEN Len(e.obs.r) + Len(e.obs.n) ELSE 0)
        rj == s.rejects + (IF e.e = "load" /\ ~e.obs.ok THEN 1 ELSE 0)
    IN  [events |-> s.events + 1, blocked |-> b, hits |-> h, rejects |-> rj]

Init == pos = 1 /\ slots = NoFn /\ fails = <<>> /\ stats = [events |-> 0, blocked |-> 0, hits |-> 0, rejects |-> 0]
Consume ==
    /\ pos <= Len(Log)
    /\ LET v == Verdict(Log[pos])
       IN  /\ slots' = v.cfg
           /\ fails' = fails \o MapSeq(LAMBDA c : [l |-> pos, c |-> c.c, i |-> c.i, x |-> c.x, o |-> c.o], v.cl)
    /\ stats' = Bump(stats, Log[pos])
    /\ pos' = pos + 1
Finish ==
    /\ pos = Len(Log) + 1
    /\ ndJsonSerialize(IOEnv.OUT, << [fails |-> fails, stats |-> stats] >>)
    /\ pos' = pos + 1
    /\ UNCHANGED << slots, fails, stats >>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
