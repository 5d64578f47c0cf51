----------------------------- MODULE MC_Overlap ------------------------------
(* All terms of a universe of a few addresses: networks, wildcards, ranges,     *)
(* groups, any, any4 and any6, each against all others: that they overlap is    *)
(* that there is an address which both of them cover.                           *)
EXTENDS Terms, CSV, IOUtils

V == {4, 6}
Addrs(v) == [1..NL(v) -> 0..LMax(v)]
RECURSIVE Val(_, _)
Val(v, a) == IF a = <<>> THEN 0 ELSE Val(v, SubSeq(a, 1, Len(a) - 1)) * 2^LB(v) + a[Len(a)]
A(v, k) == CHOOSE a \in Addrs(v) : Val(v, a) = k
AddrOf == TLCEval([v \in V |-> [k \in 0..(2^Width(v) - 1) |-> A(v, k)]])
AllA == TLCEval(UNION {{<< v, a >> : a \in Addrs(v)} : v \in V})

\* a term is given by numbers: 1 network, 2 wildcard, 3 range, 4 group of two networks, 5 any, any4, any6, 6 group of a range and a group
Nets == {<< 1, v, k, n >> : v \in V, k \in 0..15, n \in 0..4}
IsNet(x) == x[3] < 2^Width(x[2]) /\ x[4] <= Width(x[2]) /\ x[3] % 2^(Width(x[2]) - x[4]) = 0
Wilds == {x \in {<< 2, k, w >> : k \in 0..15, w \in 0..15} : \A b \in 0..3 : (x[3] \div 2^b) % 2 = 1 => (x[2] \div 2^b) % 2 = 0}
Ranges == {x \in {<< 3, v, a, b >> : v \in V, a \in 0..15, b \in 0..15} : x[3] <= x[4] /\ x[4] < 2^Width(x[2])}
Pairs == {<< 4, k, n, m >> : k \in {0, 6, 8, 15}, n \in {0, 2, 5, 8}, m \in {0, 5}}   \* hosts k and n (IPv4) and m (IPv6)
Anys == {<< 5, v >> : v \in {0, 4, 6}}
Deep == {<< 6, a, b, k >> : a \in {1, 5}, b \in {6, 14}, k \in {0, 7, 15}}             \* a range and a group with a host
Universe == TLCEval({x \in Nets : IsNet(x)} \cup Wilds \cup Ranges \cup Pairs \cup Anys \cup Deep)

Host(v, k) == PatT(HostPat([v |-> v, l |-> AddrOf[v][k]]), "")
RangeM(v, a, b) == LET R == TLCEval(RangePats([v |-> v, l |-> AddrOf[v][a]], [v |-> v, l |-> AddrOf[v][b]]))
                   IN  TLCEval([i \in 1..Len(R) |-> PatT(R[i], "")])
\* [t (term), h (what it refers to, from a place of the heap on)]
Term(x, at) ==
    CASE x[1] = 1 -> [t |-> PatT(NetPat([v |-> x[2], l |-> AddrOf[x[2]][x[3]]], x[4]), ""), h |-> <<>>]
      [] x[1] = 2 -> [t |-> PatT(WildPat([v |-> 4, l |-> AddrOf[4][x[2]]], [v |-> 4, l |-> AddrOf[4][x[3]]]), ""), h |-> <<>>]
      [] x[1] = 3 -> [t |-> [t |-> "obj", h |-> at + 1], h |-> << [m |-> RangeM(x[2], x[3], x[4])] >>]
      [] x[1] = 4 -> [t |-> [t |-> "grp", h |-> at + 1], h |-> << [m |-> << Host(4, x[2]), Host(4, x[3]), Host(6, x[4]) >>] >>]
      [] x[1] = 5 -> [t |-> [t |-> CASE x[2] = 0 -> "any" [] x[2] = 4 -> "any4" [] x[2] = 6 -> "any6"], h |-> <<>>]
      [] x[1] = 6 -> [t |-> [t |-> "grp", h |-> at + 1],
                      h |-> << [m |-> << [t |-> "obj", h |-> at + 2], [t |-> "grp", h |-> at + 3] >>],
                               [m |-> RangeM(4, x[2], x[3])], [m |-> << Host(4, x[4]) >>] >>]
\* the addresses, from the numbers alone
Bits(k, w) == {a \in 0..15 : \A b \in 0..3 : (w \div 2^b) % 2 = 1 \/ (a \div 2^b) % 2 = (k \div 2^b) % 2}
In(x) ==
    CASE x[1] = 1 -> {<< x[2], a >> : a \in x[3]..(x[3] + 2^(Width(x[2]) - x[4]) - 1)}
      [] x[1] = 2 -> {<< 4, a >> : a \in Bits(x[2], x[3])}
      [] x[1] = 3 -> {<< x[2], a >> : a \in x[3]..x[4]}
      [] x[1] = 4 -> {<< 4, x[2] >>, << 4, x[3] >>, << 6, x[4] >>}
      [] x[1] = 5 -> UNION {{<< v, a >> : a \in 0..(2^Width(v) - 1)} : v \in IF x[2] = 0 THEN V ELSE {x[2]}}
      [] x[1] = 6 -> {<< 4, a >> : a \in x[2]..x[3]} \cup {<< 4, x[4] >>}
InMap == TLCEval([x \in Universe |-> TLCEval(In(x))])
Terms0 == TLCEval([at \in 0..3 |-> [x \in Universe |-> Term(x, at)]])

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)

VARIABLES cur
Init == cur \in {y \in Universe : (IF Len(y) > 2 THEN y[3] * 5 + y[Len(y)] + y[2] ELSE y[2]) % Parts = Part}
Next == FALSE /\ UNCHANGED cur
Spec == Init /\ [][Next]_cur

OverlapInv ==
    LET c == Terms0[0][cur]
    IN  \A y \in Universe :
           LET t == Terms0[Len(c.h)][y]
               H == c.h \o t.h
           IN  /\ Overlaps(H, c.t, t.t) = (InMap[cur] \cap InMap[y] # {})
               /\ Overlaps(H, t.t, c.t) = Overlaps(H, c.t, t.t)
Emit == CSVWrite("%1$s", << ToString(cur) >>, IOEnv.EMIT)
=============================================================================
