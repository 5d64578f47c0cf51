-------------------------------- MODULE Addr --------------------------------
(* Addresses of both families as limb sequences (TLC integers are 32 bit),   *)
(* masks, and address patterns: a pattern is a value with a "care" mask, so   *)
(* hosts, prefixes and (non-contiguous) wildcards are all patterns.           *)
(* The limb geometry is a parameter: the conformance runs use 4x8 and 8x16    *)
(* bits, the exhaustive models use universes of a few bits.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Bitwise, TLC

CONSTANTS LB4, N4, LB6, N6      \* bits per limb and limbs per address

LB(v) == IF v = 4 THEN LB4 ELSE LB6
NL(v) == IF v = 4 THEN N4 ELSE N6
Width(v) == LB(v) * NL(v)
LMax(v) == 2^LB(v) - 1

\* an address is [v |-> 4 or 6, l |-> limbs]; out of range limbs are representable
AddrOK(a) == Len(a.l) = NL(a.v) /\ \A i \in 1..Len(a.l) : a.l[i] >= 0 /\ a.l[i] <= LMax(a.v)

\* TLCEval: the value now, not a function which computes it again at every use
Mask(v, n) ==
    TLCEval([i \in 1..NL(v) |->
        LET k == n - (i - 1) * LB(v)
        IN  IF k <= 0 THEN 0
            ELSE IF k >= LB(v) THEN LMax(v)
            ELSE LMax(v) - (2^(LB(v) - k) - 1)])

LAnd(v, a, b) == TLCEval([i \in 1..NL(v) |-> a[i] & b[i]])
LInv(v, a) == TLCEval([i \in 1..NL(v) |-> LMax(v) - a[i]])

\* prefix length of a netmask; the inverse of a netmask is read as its inverse; -1: neither
MaskLen(m) ==
    LET N == {n \in 0..Width(m.v) : Mask(m.v, n) = m.l}
        I == {n \in 0..Width(m.v) : LInv(m.v, Mask(m.v, n)) = m.l}
    IN  IF N # {} THEN CHOOSE n \in N : TRUE
        ELSE IF I # {} THEN CHOOSE n \in I : TRUE
        ELSE -1

Pat(v, x, c) == [v |-> v, x |-> LAnd(v, x, c), c |-> c]
HostPat(a) == [v |-> a.v, x |-> a.l, c |-> Mask(a.v, Width(a.v))]
NetPat(a, n) == Pat(a.v, a.l, Mask(a.v, n))
WildPat(a, w) == Pat(a.v, a.l, LInv(a.v, w.l))

\* two patterns have an address in common
Overlap(p, q) ==
    /\ p.v = q.v
    /\ \A i \in 1..Len(p.x) : ((p.x[i] ^^ q.x[i]) & p.c[i] & q.c[i]) = 0

\* the address (as limbs) is covered by the pattern
Covers(p, x) == \A i \in 1..Len(p.x) : (x[i] & p.c[i]) = p.x[i]

RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessAt(a, b, i + 1)
Less(a, b) == LessAt(a, b, 1)

\* the n-th bit (from 1) of an address set
BitLimbs(v, n) ==
    TLCEval([i \in 1..NL(v) |->
        LET k == n - (i - 1) * LB(v) IN IF k >= 1 /\ k <= LB(v) THEN 2^(LB(v) - k) ELSE 0])
LAdd(v, a, b) == TLCEval([i \in 1..NL(v) |-> a[i] + b[i]])
\* the n-th bit of an address (n at least 1)
Bit(v, x, n) ==
    LET i == (n - 1) \div LB(v) + 1 IN (x[i] & 2^(i * LB(v) - n)) # 0

\* the prefixes which make up the range lo..hi, in order
RECURSIVE RangeRec(_, _, _, _, _)
RangeRec(v, base, n, lo, hi) ==
    LET top == LAdd(v, base, LInv(v, Mask(v, n)))
    IN  IF Less(top, lo) \/ Less(hi, base) THEN <<>>
        ELSE IF ~Less(base, lo) /\ ~Less(hi, top) THEN << Pat(v, base, Mask(v, n)) >>
        ELSE RangeRec(v, base, n + 1, lo, hi)
             \o RangeRec(v, LAdd(v, base, BitLimbs(v, n + 1)), n + 1, lo, hi)
RangePats(a, b) == TLCEval(RangeRec(a.v, [i \in 1..NL(a.v) |-> 0], 0, a.l, b.l))

\* the fewest prefixes which cover exactly what the prefixes S (a set of [x, n]) cover, in order
RECURSIVE CollRec(_, _, _, _)
CollRec(v, base, n, S) ==
    IF S = {} THEN <<>>
    ELSE IF \E p \in S : p.n <= n THEN << Pat(v, base, Mask(v, n)) >>
    ELSE IF Cardinality(S) = 1 THEN LET p == CHOOSE p \in S : TRUE IN << Pat(v, p.x, Mask(v, p.n)) >>
    ELSE LET S1 == TLCEval({p \in S : Bit(v, p.x, n + 1)})
             b1 == LAdd(v, base, BitLimbs(v, n + 1))
             l == CollRec(v, base, n + 1, S \ S1)
             r == CollRec(v, b1, n + 1, S1)
         IN  IF l = << Pat(v, base, Mask(v, n + 1)) >> /\ r = << Pat(v, b1, Mask(v, n + 1)) >>
             THEN << Pat(v, base, Mask(v, n)) >>
             ELSE l \o r
CollapsePats(v, P) ==
    CollRec(v, [i \in 1..NL(v) |-> 0], 0,
            TLCEval({[x |-> p.x, n |-> MaskLen([v |-> v, l |-> p.c])] : p \in {q \in P : q.v = v}}))

LimbStr(l) == FoldLeft(LAMBDA s, x : s \o (IF s = "" THEN "" ELSE ".") \o ToString(x), "", l)
PatStr(p) == "p" \o ToString(p.v) \o ":" \o LimbStr(p.x) \o "/" \o LimbStr(p.c)
AddrStr(a) == "a" \o ToString(a.v) \o ":" \o LimbStr(a.l)
=============================================================================
