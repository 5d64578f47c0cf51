------------------------------- MODULE MC_Glob -------------------------------
(* Every pattern over a small alphabet up to a bound, against every name over   *)
(* another one.  Glob.tla matches character by character; here a pattern is a   *)
(* sequence of elements, and a name matches if its end is reached by all of     *)
(* them.                                                                         *)
EXTENDS Glob, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, CSV

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
Alpha == ndJsonDeserialize(IOEnv.ALPHA)        \* characters
Names == ndJsonDeserialize(IOEnv.NAMES)        \* sequences of characters
Bound == Num(IOEnv.BOUND)
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)

VARIABLES hist
Init == \E i \in 1..Len(Alpha) : i % Parts = Part /\ hist = <<i>>
Next == Len(hist) < Bound /\ \E i \in 1..Len(Alpha) : hist' = Append(hist, i)
Spec == Init /\ [][Next]_hist

P == [i \in 1..Len(hist) |-> Alpha[hist[i]]]
\* elements: [n (characters of the pattern), star, set (of characters)]
Univ == UNION {{Names[i][j] : j \in 1..Len(Names[i])} : i \in 1..Len(Names)}
RECURSIVE ClassOf(_)
ClassOf(s) ==      \* the characters of Univ which a set s contains
    IF s = <<>> THEN {}
    ELSE IF Len(s) >= 3 /\ s[2] = Dash THEN {c \in Univ : s[1] <= c /\ c <= s[3]} \cup ClassOf(SubSeq(s, 4, Len(s)))
    ELSE ({s[1]} \cap Univ) \cup ClassOf(Tail(s))
RECURSIVE Elements(_)
Elements(p) ==
    IF p = <<>> THEN <<>>
    ELSE LET neg == Len(p) > 1 /\ p[2] = Bang
             a == IF neg THEN 3 ELSE 2      \* the first element of a set
             ends == {j \in (a + 1)..Len(p) : p[j] = Close}
             close == IF p[1] # Open \/ ends = {} THEN 0 ELSE Min(ends)
         IN  CASE p[1] = Star -> << [star |-> TRUE, set |-> {}] >> \o Elements(Tail(p))
               [] p[1] = Quest -> << [star |-> FALSE, set |-> Univ] >> \o Elements(Tail(p))
               [] p[1] = Open /\ close # 0 ->
                     LET c == ClassOf(SubSeq(p, a, close - 1))
                     IN  << [star |-> FALSE, set |-> IF neg THEN Univ \ c ELSE c] >> \o Elements(SubSeq(p, close + 1, Len(p)))
               [] OTHER -> << [star |-> FALSE, set |-> {p[1]}] >> \o Elements(Tail(p))
\* the positions of the name which the first k elements can reach
RECURSIVE Reach(_, _, _)
Reach(e, s, k) ==
    IF k = 0 THEN {0}
    ELSE LET R == Reach(e, s, k - 1)
         IN  IF e[k].star THEN {j \in 0..Len(s) : \E i \in R : i <= j}
             ELSE {i + 1 : i \in {i \in R : i < Len(s) /\ s[i + 1] \in e[k].set}}
Decl(e, s) == Len(s) \in Reach(e, s, Len(e))

GlobInv == LET e == Elements(P) IN \A i \in 1..Len(Names) : GlobMatch(P, Names[i]) = Decl(e, Names[i])
Emit == CSVWrite("%1$s", << ToString(hist) >>, IOEnv.EMIT)
=============================================================================
