------------------------------- MODULE Groups -------------------------------
(* Operations on the groups of an imported configuration.                      *)
EXTENDS Config

\* members with every group and object replaced by what it stands for, in order
RECURSIVE Flat(_, _)
Flat(H, m) ==
    FoldLeft(LAMBDA a, x : a \o (CASE x.t = "grp" -> Flat(H, H[x.h].m)
                                   [] x.t \in {"obj", "sobj"} -> H[x.h].m
                                   [] OTHER -> <<x>>), <<>>, m)

GroupKinds == {"ngrp", "sgrp", "pgrp", "igrp", "rgrp"}
Listed(st) == UNION {{st.lst[k][n] : n \in DOMAIN st.lst[k]} : k \in GroupKinds}
ExpandAll(st) ==
    LET L == Listed(st)
    IN  [st EXCEPT !.heap = [h \in 1..Len(@) |-> IF h \in L THEN [@[h] EXCEPT !.m = Flat(st.heap, @)] ELSE @[h]]]
ExpandOne(st, h) == [st EXCEPT !.heap[h].m = Flat(st.heap, @)]

-----------------------------------------------------------------------------
(* Sorting.  The order is given on members with a number: addresses of one     *)
(* family, ports (ranges by their first port), protocol numbers, services.     *)
PortKey(p) == IF p.t = "none" THEN 0 ELSE IF p.t = "op" THEN p.p.i ELSE IF p.t = "range" THEN p.a.i ELSE -1
\* members of one class compare; "" is no class
Class(k, x) ==
    CASE x.t = "pat" -> "v" \o ToString(x.p.v)
      [] x.t \in {"op", "range"} -> IF PortKey(x) >= 0 THEN "port" ELSE ""
      [] x.t = "p" -> IF x.i >= 0 THEN "proto" ELSE ""
      [] x.t = "svc" -> IF PortKey(x.src) >= 0 /\ PortKey(x.dst) >= 0 THEN "svc" ELSE ""
      [] OTHER -> ""
RECURSIVE LexLess(_, _)
LexLess(a, b) ==    \* strings of character codes
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF a[1] # b[1] THEN a[1] < b[1]
    ELSE LexLess(Tail(a), Tail(b))
KeyLess(x, y) ==
    CASE x.t = "pat" -> Less(x.p.x, y.p.x)
      [] x.t \in {"op", "range"} -> PortKey(x) < PortKey(y)
      [] x.t = "p" -> x.i < y.i
      [] x.t = "svc" ->
            IF x.pc # y.pc THEN LexLess(x.pc, y.pc)
            ELSE IF PortKey(x.src) # PortKey(y.src) THEN PortKey(x.src) < PortKey(y.src)
            ELSE IF PortKey(x.dst) # PortKey(y.dst) THEN PortKey(x.dst) < PortKey(y.dst)
            ELSE IF x.icc # y.icc THEN LexLess(x.icc, y.icc)
            ELSE LexLess(x.itc, y.itc)
\* the permutation s (of indices into m) is a stable ascending order of m
SortedPerm(k, m, s) ==
    \A i \in 1..Len(s) : \A j \in (i + 1)..Len(s) :
        LET x == m[s[i]]  y == m[s[j]]
        IN  (Class(k, x) # "" /\ Class(k, x) = Class(k, y)) =>
               (~KeyLess(y, x) /\ (KeyLess(x, y) \/ s[i] < s[j]))

-----------------------------------------------------------------------------
(* Collapsing                                                                  *)
Nested(m) == \E i \in 1..Len(m) : m[i].t \in {"grp", "obj"}
Collapsed(m) ==
    LET P == {m[i].p : i \in {x \in 1..Len(m) : m[x].t = "pat"}}
    IN  SelectSeq(m, LAMBDA x : x.t # "pat")
        \o MapSeq(LAMBDA p : PatT(p, ""), CollapsePats(4, P) \o CollapsePats(6, P))

-----------------------------------------------------------------------------
\* the operation on the members m of a group of kind k: [ok, m]; of the orders allowed one
GroupOp(H, k, m, op, ins) ==
    LET f == IF ins THEN m ELSE Flat(H, m)
    IN  CASE op = "expand" -> [ok |-> TRUE, m |-> Flat(H, m)]
          [] op = "sort" ->
               [ok |-> TRUE,
                m |-> FoldLeft(LAMBDA acc, x :
                          LET I == {i \in 1..Len(acc) : /\ Class(k, x) # "" /\ Class(k, acc[i]) = Class(k, x)
                                                         /\ KeyLess(x, acc[i])}
                          IN  IF I = {} THEN Append(acc, x)
                              ELSE SubSeq(acc, 1, Min(I) - 1) \o << x >> \o SubSeq(acc, Min(I), Len(acc)), <<>>, f)]
          [] op = "collapse" -> IF ins /\ Nested(f) THEN [ok |-> FALSE, m |-> m]
                                ELSE [ok |-> TRUE, m |-> Collapsed(f)]
=============================================================================
