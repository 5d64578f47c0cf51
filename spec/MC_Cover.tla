------------------------------ MODULE MC_Cover -------------------------------
(* All patterns of a universe of a few addresses: what overlaps, what a range   *)
(* and a wildcard cover, and what collapsing yields, against the addresses      *)
(* themselves.                                                                   *)
EXTENDS Terms, CSV, IOUtils

V == {4, 6}
Addrs(v) == [1..NL(v) -> 0..LMax(v)]
NetsOf == TLCEval([v \in V |-> {NetPat([v |-> v, l |-> a], n) : a \in Addrs(v), n \in 0..Width(v)}])
Nets(v) == NetsOf[v]
Wilds == {WildPat([v |-> 4, l |-> a], [v |-> 4, l |-> w]) : a \in Addrs(4), w \in Addrs(4)}
Ranges(v) == {<<a, b>> \in Addrs(v) \X Addrs(v) : ~Less(b, a)}
Of0(p) == {a \in Addrs(p.v) : Covers(p, a)}
OfMap == TLCEval([p \in Nets(4) \cup Nets(6) \cup Wilds |-> Of0(p)])
Of(p) == OfMap[p]
\* pairs of networks which make up one
Pairs == TLCEval(UNION {{<<p, q>> \in Nets(v) \X Nets(v) : p.c = q.c /\ \E n \in Nets(v) : Of(n) = Of(p) \cup Of(q) /\ p # q} : v \in V})
NetLenOf(p) == MaskLen([v |-> p.v, l |-> p.c])
RECURSIVE Val(_, _)
Val(v, a) == IF a = <<>> THEN 0 ELSE Val(v, SubSeq(a, 1, Len(a) - 1)) * 2^LB(v) + a[Len(a)]

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Sets == IOEnv.SETS = "1"      \* the sets, or the other terms
Mine(S) == SumSet({Val(p.v, p.x) * 7 + NetLenOf(p) : p \in S}) % Parts = Part

VARIABLES term       \* a term of the universe: [k |-> "net"|"wild"|"range"|"set", ...]
Init == \/ /\ ~Sets
           /\ \/ \E v \in V : \E p \in Nets(v) : Mine({p}) /\ term = [k |-> "net", p |-> p]
              \/ \E p \in Wilds : Val(4, p.c) % Parts = Part /\ term = [k |-> "wild", p |-> p]
              \/ \E v \in V : \E r \in Ranges(v) : (Val(v, r[1]) * 3 + Val(v, r[2])) % Parts = Part /\ term = [k |-> "range", v |-> v, r |-> r]
        \/ /\ Sets
           /\ \E v \in V : \E p, q, r \in Nets(v) : Mine({p, q, r}) /\ term = [k |-> "set", v |-> v, s |-> {p, q, r}]
Next == FALSE /\ UNCHANGED term
Spec == Init /\ [][Next]_term

\* a pattern covers the addresses which agree with it on the bits it cares about; overlap is a common address
NetInv ==
    term.k \in {"net", "wild"} =>
        \A v \in V : \A q \in Nets(v) :
            /\ Overlap(term.p, q) = (term.p.v = q.v /\ Of(term.p) \cap Of(q) # {})
            /\ Overlap(q, term.p) = Overlap(term.p, q)
CountInv == term.k = "net" => /\ NetLenOf(term.p) \in 0..Width(term.p.v)
                           /\ Cardinality(Of(term.p)) = 2^(Width(term.p.v) - NetLenOf(term.p))
\* a range is made of disjoint prefixes in order which cover exactly it, and no two of them make up one
Joinable(p, q) == <<p, q>> \in Pairs
ExactMinimal(v, s, A) ==
    /\ UNION {Of(s[i]) : i \in 1..Len(s)} = A
    /\ \A i \in 1..Len(s) : \A j \in (i + 1)..Len(s) :
          Of(s[i]) \cap Of(s[j]) = {} /\ Less(s[i].x, s[j].x) /\ ~Joinable(s[i], s[j])
RangeInv ==
    term.k = "range" => ExactMinimal(term.v, RangePats([v |-> term.v, l |-> term.r[1]], [v |-> term.v, l |-> term.r[2]]),
                                  {a \in Addrs(term.v) : ~Less(a, term.r[1]) /\ ~Less(term.r[2], a)})
CollapseInv == term.k = "set" => ExactMinimal(term.v, CollapsePats(term.v, term.s), UNION {Of(p) : p \in term.s})

PatEm(p) == << p.v, Val(p.v, p.x), Val(p.v, p.c) >>
Emit == CSVWrite("%1$s", << ToString(
            CASE term.k = "net" -> << 1 >> \o PatEm(term.p)
              [] term.k = "wild" -> << 2 >> \o PatEm(term.p)
              [] term.k = "range" -> << 3, term.v, Val(term.v, term.r[1]), Val(term.v, term.r[2]) >>
              [] term.k = "set" -> << 4, term.v >> \o FlattenSeq(SetToSeq({<< Val(term.v, p.x), NetLenOf(p) >> : p \in term.s}))) >>, IOEnv.EMIT)
=============================================================================
