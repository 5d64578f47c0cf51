------------------------------- MODULE Query --------------------------------
(* What is asked of a configuration: filters and selections.                   *)
EXTENDS Proj

-----------------------------------------------------------------------------
(* filters                                                                     *)
\* recorded tokens to tokens of the language; an invalid address is no token
CritOK(n) == n.k \notin {"host", "net"} \/ (AddrOK(n.a) /\ (n.k = "net" => n.p <= Width(n.a.v)))
Crit(n) == CASE n.k = "host" -> [k |-> "pat", p |-> HostPat(n.a)]
             [] n.k = "net" -> [k |-> "pat", p |-> NetPat(n.a, n.p)]
             [] OTHER -> [k |-> n.k]
Tok(t) == IF t.k = "ip" THEN IF AllSeq(CritOK, t.n) /\ t.n # <<>>
                             THEN [k |-> "ip", d |-> t.d, n |-> MapSeq(Crit, t.n)] ELSE [k |-> "junk"]
          ELSE t
FilterRules(st, x) == {k \in 1..Len(st.rules) : EChain(st.heap, x, st.rules[k])}
FilterNats(st, x) ==
    UNION {{ToString(s) \o "." \o ToString(k) : k \in {k \in 1..Len(st.nats[s]) : EChain(st.heap, x, st.nats[s][k])}}
           : s \in 1..3}

-----------------------------------------------------------------------------
(* criteria made by hand: of terms, of objects and groups of the configuration, *)
(* or rules of the configuration themselves                                     *)
\* q: [k |-> "rule", i] or [k |-> "set", id (codes), src, dst (terms as in commands)]
HandTerm(st, j) ==
    CASE j.t = "obj" -> [t |-> "obj", h |-> st.lst["nobj"][j.n]]
      [] j.t = "grp" -> [t |-> "grp", h |-> st.lst["ngrp"][j.n]]
      [] OTHER -> TermOf(st, j)
HandSet(st, q) ==
    LET one(x) == << [k |-> "term", x |-> x] >>
    IN  IF q.k = "rule" THEN [EmptySet EXCEPT !.id = st.rules[q.i].idc, !.src = one(st.rules[q.i].src), !.dst = one(st.rules[q.i].dst)]
        ELSE [EmptySet EXCEPT !.id = q.id, !.src = one(HandTerm(st, q.src)), !.dst = one(HandTerm(st, q.dst))]
\* joined from the left, each operator to all before it
RECURSIVE HandExpr(_, _, _, _)
HandExpr(st, qs, ops, k) ==
    IF k = 1 THEN << HandSet(st, qs[1]) >>
    ELSE << [EmptySet EXCEPT !.bl = << HandExpr(st, qs, ops, k - 1) >>], ops[k - 1], HandSet(st, qs[k]) >>
HandKnown(st, q) ==
    IF q.k = "rule" THEN q.i \in 1..Len(st.rules)
    ELSE \A j \in {q.src, q.dst} : /\ j.t = "obj" => j.n \in DOMAIN st.lst["nobj"]
                                  /\ j.t = "grp" => j.n \in DOMAIN st.lst["ngrp"]
=============================================================================
