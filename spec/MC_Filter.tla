------------------------------ MODULE MC_Filter ------------------------------
(* Every sequence of filter tokens over a small alphabet up to a bound.         *)
(* Caf.tla parses and evaluates from the left; here the language and what a     *)
(* filter denotes are defined once more on the whole token sequence, as a set   *)
(* algebra: by splitting it at its last operator of the lowest precedence.      *)
EXTENDS Proj, Json, IOUtils, CSV

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
Pre == ndJsonDeserialize(IOEnv.PRE)
Bound == Num(IOEnv.BOUND)
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Crit(n) == CASE n.k = "host" -> [k |-> "pat", p |-> HostPat(n.a)]
             [] n.k = "net" -> [k |-> "pat", p |-> NetPat(n.a, n.p)]
             [] OTHER -> [k |-> n.k]
Tok(t) == IF t.k = "ip" THEN [k |-> "ip", d |-> t.d, n |-> MapSeq(Crit, t.n)] ELSE t
Alpha == LET A == ndJsonDeserialize(IOEnv.ALPHA) IN MapSeq(Tok, A)
St == Import(IOEnv.DIA, Pre)
Items == {St.rules[k] : k \in 1..Len(St.rules)}
         \cup UNION {{St.nats[s][k] : k \in 1..Len(St.nats[s])} : s \in 1..3}

VARIABLES hist
Init == \/ hist = <<>> /\ Part = 0
        \/ \E i \in 1..Len(Alpha) : i % Parts = Part /\ hist = <<i>>
-----------------------------------------------------------------------------
T(h) == MapSeq(LAMBDA i : Alpha[i], h)
Step1(d, k) == CASE k = "(" -> d + 1 [] k = ")" -> d - 1 [] OTHER -> d
\* depth before the token i
Depth(t, i) == Cardinality({j \in 1..(i - 1) : t[j].k = "("}) - Cardinality({j \in 1..(i - 1) : t[j].k = ")"})
SetStart(t, i) == IF i = 1 THEN TRUE ELSE t[i - 1].k \in {"(", "op"}
\* the sequence is the begin of a filter
Viable(t) == /\ \A i \in 1..Len(t) : Depth(t, i + 1) >= 0
             /\ \A i \in 1..Len(t) : t[i].k = "id" => SetStart(t, i)
             /\ \A i \in 1..Len(t) : t[i].k # "junk"
Valid(t) == Viable(t) /\ Depth(t, Len(t) + 1) = 0

\* a sequence which can not be completed any more is extended by one token only
Next == /\ Len(hist) \in 1..(Bound - 1)
        /\ Viable(T(hist))
        /\ \E i \in 1..Len(Alpha) : hist' = Append(hist, i)
Spec == Init /\ [][Next]_hist

\* the set of items a valid sequence denotes
TopOps(t, O) == {i \in 1..Len(t) : t[i].k = "op" /\ t[i].o \in O /\ Depth(t, i) = 0}
\* the tokens of a set: criteria, and the groups in parentheses [a, b] at the top
Groups_(t) == {<<a, b>> \in (1..Len(t)) \X (1..Len(t)) :
                 a < b /\ t[a].k = "(" /\ Depth(t, a) = 0 /\ t[b].k = ")" /\ Depth(t, b + 1) = 0
                 /\ \A x \in (a + 1)..b : Depth(t, x) > 0}
RECURSIVE Den(_)
DenSet(t) ==
    LET top == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : Depth(t, i) = 0)
        Of(d) == FlattenSeq(MapSeq(LAMBDA i : IF t[i].k = "ip" /\ t[i].d = d THEN t[i].n ELSE <<>>, top))
        ids == SelectSeq(top, LAMBDA i : t[i].k = "id")
        crit == [id |-> IF ids = <<>> THEN <<>> ELSE t[ids[1]].s, src |-> Of("src"), dst |-> Of("dst")]
    IN  {u \in Items : ItemSel(St.heap, crit, u)
                       /\ \A g \in Groups_(t) : u \in Den(SubSeq(t, g[1] + 1, g[2] - 1))}
Den(t) ==
    LET U == TopOps(t, {"union", "except"})
        X == TopOps(t, {"intersect"})
    IN  IF U # {} THEN LET i == Max(U)
                           l == Den(SubSeq(t, 1, i - 1))
                           r == Den(SubSeq(t, i + 1, Len(t)))
                       IN  IF t[i].o = "union" THEN l \cup r ELSE l \ r
        ELSE IF X # {} THEN LET i == Max(X)
                            IN  Den(SubSeq(t, 1, i - 1)) \cap Den(SubSeq(t, i + 1, Len(t)))
        ELSE DenSet(t)

\* C04: accepted are exactly the valid sequences, and they denote the set algebra
AcceptInv == Parse(T(hist)).ok = Valid(T(hist))
DenoteInv ==
    Valid(T(hist)) =>
        LET e == Parse(T(hist)).x IN Den(T(hist)) = {u \in Items : EChain(St.heap, e, u)}
\* C05: the order of neighbouring address lines is irrelevant
SwapInv ==
    Valid(T(hist)) =>
        \A i \in 1..(Len(hist) - 1) :
            (Alpha[hist[i]].k = "ip" /\ Alpha[hist[i + 1]].k = "ip") =>
                LET h == [hist EXCEPT ![i] = hist[i + 1], ![i + 1] = hist[i]]
                    e == Parse(T(hist)).x
                    f == Parse(T(h)).x
                IN  \A u \in Items : EChain(St.heap, e, u) = EChain(St.heap, f, u)

Emit == CSVWrite("%1$s", << ToString(hist) >>, IOEnv.EMIT)
=============================================================================
