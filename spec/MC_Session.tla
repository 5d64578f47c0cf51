----------------------------- MODULE MC_Session ------------------------------
(* Every sequence of actions (loads, filters, selections, operations on groups) *)
(* over a small alphabet up to a bound, on several configurations.              *)
(* The invariants compare a configuration with what its own last load made of   *)
(* it, whatever was done in between to it or to others.                         *)
EXTENDS Query, Json, IOUtils, CSV

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
\* [x |-> action, o |-> order, u |-> what only one action of the history may be about, "": nothing]
Alpha == ndJsonDeserialize(IOEnv.ALPHA)
Points == ndJsonDeserialize(IOEnv.POINTS)       \* addresses
Bound == Num(IOEnv.BOUND)
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)

VARIABLES hist, slots,
          org       \* where a configuration is from: [i (its load), all (expanded), g (groups operated on)]
vars == << hist, slots, org >>

A(i) == Alpha[i].x
Usable(c, s) == s \in DOMAIN c /\ c[s].ok
Known(st, a) == a.n \in DOMAIN st.lst[a.k]
Gop(st, a) ==
    LET h == st.lst[a.k][a.n]
        r == GroupOp(st.heap, a.k, st.heap[h].m, a.op, a.ins)
    IN  IF a.ins /\ r.ok THEN [st EXCEPT !.heap[h].m = r.m] ELSE st
Do(c, a) ==
    CASE a.a = "load" -> Put(c, a.s, Load(a.dia, a.cmds))
      [] a.a = "expand" -> [c EXCEPT ![a.s] = ExpandAll(@)]
      [] a.a = "gop" -> [c EXCEPT ![a.s] = Gop(@, a)]
      [] a.a = "copy" -> Put(c, a.t, c[a.s])
      [] OTHER -> c
Came(o, i) ==
    LET a == A(i)
    IN  CASE a.a = "load" -> Put(o, a.s, [i |-> i, all |-> FALSE, g |-> {}])
          [] a.a = "copy" -> Put(o, a.t, o[a.s])
          [] a.a = "expand" -> [o EXCEPT ![a.s].all = TRUE]
          [] a.a = "gop" -> IF a.ins THEN [o EXCEPT ![a.s].g = @ \cup {<< a.k, a.n >>}] ELSE o
          [] OTHER -> o
\* an action is about what is there
Possible(c, a) ==
    IF a.a = "load" THEN TRUE
    ELSE Usable(c, a.s) /\ (a.a = "gop" => Known(c[a.s], a))

Init == \E i \in 1..Len(Alpha) :
           /\ A(i).a = "load"
           /\ hist = <<i>>
           /\ slots = Do(NoFn, A(i))
           /\ org = Came(NoFn, i)
Next == /\ Len(hist) < Bound
        /\ \E i \in 1..Len(Alpha) :
              /\ Len(hist) = 1 => (hist[1] + i) % Parts = Part
              /\ Alpha[i].o >= Alpha[hist[Len(hist)]].o
              /\ Alpha[i].u = "" \/ \A j \in 1..Len(hist) : Alpha[hist[j]].u # Alpha[i].u
              /\ Possible(slots, A(i))
              /\ hist' = Append(hist, i)
              /\ slots' = Do(slots, A(i))
              /\ org' = Came(org, i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Base(s) == LET a == A(org[s].i) IN Load(a.dia, a.cmds)
Slots == {s \in DOMAIN slots : slots[s].ok}
Bag(m) == [x \in {m[i] : i \in 1..Len(m)} |-> Cardinality({i \in 1..Len(m) : m[i] = x})]

\* C18: only the operations on the groups change a configuration, and these only the members of groups
SameInv ==
    \A s \in DOMAIN slots :
        LET b == Base(s)
        IN  /\ slots[s].ok = b.ok
            /\ b.ok => /\ [slots[s] EXCEPT !.heap = <<>>] = [b EXCEPT !.heap = <<>>]
                       /\ Len(slots[s].heap) = Len(b.heap)
                       /\ \A h \in 1..Len(b.heap) :
                             /\ [slots[s].heap[h] EXCEPT !.m = <<>>] = [b.heap[h] EXCEPT !.m = <<>>]
                             /\ slots[s].heap[h] = b.heap[h]
                                \/ org[s].all
                                \/ \E g \in org[s].g : b.lst[g[1]][g[2]] = h

\* C10, C11, C12: groups stand for what they stood for
CoverInv ==
    \A s \in Slots :
        LET b == Base(s)
            c == slots[s]
        IN  \A h \in Listed(b) :
               IF b.heap[h].k = "ngrp"
               THEN \A i \in 1..Len(Points) : LET p == HostPat(Points[i])  g == [t |-> "grp", h |-> h] IN HitsPat(c.heap, p, g) = HitsPat(b.heap, p, g)
               ELSE Bag(Flat(c.heap, c.heap[h].m)) = Bag(Flat(b.heap, b.heap[h].m))

\* C10, C18: so filters select what they selected
Filters == {i \in 1..Len(Alpha) : A(i).a = "filter"}
FilterInv ==
    \A s \in Slots : \A i \in Filters :
        LET e == Parse(MapSeq(Tok, A(i).f))
        IN  e.ok => /\ FilterRules(slots[s], e.x) = FilterRules(Base(s), e.x)
                    /\ FilterNats(slots[s], e.x) = FilterNats(Base(s), e.x)

-----------------------------------------------------------------------------
Now == A(hist[Len(hist)])
GroupOf(c, a) == c[a.s].heap[c[a.s].lst[a.k][a.n]].m
Siblings(p, q) ==
    LET n == MaskLen([v |-> p.v, l |-> p.c])
    IN  p.v = q.v /\ p.c = q.c /\ p.x # q.x /\ n > 0 /\ LAnd(p.v, p.x, Mask(p.v, n - 1)) = LAnd(p.v, q.x, Mask(p.v, n - 1))
\* what the last action has made of the group
AfterInv ==
    Len(hist) > 0 =>
        LET a == Now
        IN  /\ (a.a = "expand" /\ Usable(slots, a.s)) =>
                  \A h \in Listed(slots[a.s]) : \A x \in 1..Len(slots[a.s].heap[h].m) : slots[a.s].heap[h].m[x].t \notin {"grp", "obj", "sobj"}
            /\ (a.a = "gop" /\ a.ins) =>
                  LET m == GroupOf(slots, a)
                  IN  CASE a.op = "expand" -> \A x \in 1..Len(m) : m[x].t \notin {"grp", "obj", "sobj"}
                        [] a.op = "sort" -> \A x \in 1..(Len(m) - 1) : (Class(a.k, m[x]) # "" /\ Class(a.k, m[x]) = Class(a.k, m[x + 1])) => ~KeyLess(m[x + 1], m[x])
                        [] a.op = "collapse" ->
                              Nested(m) \/ \A x, y \in 1..Len(m) :
                                  (x # y /\ m[x].t = "pat" /\ m[y].t = "pat") => ~Overlap(m[x].p, m[y].p) /\ ~Siblings(m[x].p, m[y].p)

\* one configuration at a time; the same again changes nothing
Frame ==
    [][LET a == A(hist'[Len(hist')])
       IN  /\ \A s \in DOMAIN slots : s # (IF a.a = "copy" THEN a.t ELSE a.s) => slots'[s] = slots[s]
           /\ a.a = "copy" => slots'[a.t] = slots[a.s]
           /\ a.a \in {"filter", "look", "groups", "resolve"} => slots' = slots
           /\ (a.a = "gop" /\ ~a.ins) => slots' = slots
           /\ (Len(hist) > 0 /\ hist[Len(hist)] = hist'[Len(hist')]) => slots' = slots]_vars

Emit == CSVWrite("%1$s", << ToString(hist) >>, IOEnv.EMIT)
=============================================================================
