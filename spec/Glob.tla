-------------------------------- MODULE Glob --------------------------------
(* Shell patterns over character codes: * ? [set] [!set], whole name.         *)
EXTENDS Integers, Sequences, TLC

Star == 42  Quest == 63  Open == 91  Close == 93  Bang == 33  Dash == 45  Slash == 47

\* index of the ] which ends the set opened at i, 0: none ( a ] right behind [ or [! is an element )
RECURSIVE FindClose(_, _)
FindClose(p, j) == IF j > Len(p) THEN 0 ELSE IF p[j] = Close THEN j ELSE FindClose(p, j + 1)
SetEnd(p, i) ==
    LET a == IF i + 1 <= Len(p) /\ p[i + 1] = Bang THEN i + 2 ELSE i + 1
        b == IF a <= Len(p) /\ p[a] = Close THEN a + 1 ELSE a
    IN  FindClose(p, b)

RECURSIVE InSet(_, _, _, _)
InSet(p, i, e, ch) ==      \* elements p[i..e-1]
    IF i >= e THEN FALSE
    ELSE IF i + 2 < e /\ p[i + 1] = Dash
         THEN (p[i] <= ch /\ ch <= p[i + 2]) \/ InSet(p, i + 3, e, ch)
         ELSE p[i] = ch \/ InSet(p, i + 1, e, ch)

RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, i, s, j) ==
    IF i > Len(p) THEN j > Len(s)
    ELSE IF p[i] = Star THEN \E k \in j..(Len(s) + 1) : GlobAt(p, i + 1, s, k)
    ELSE IF j > Len(s) THEN FALSE
    ELSE IF p[i] = Quest THEN GlobAt(p, i + 1, s, j + 1)
    ELSE IF p[i] = Open /\ SetEnd(p, i) # 0
         THEN LET e == SetEnd(p, i)
                  neg == p[i + 1] = Bang
              IN  InSet(p, IF neg THEN i + 2 ELSE i + 1, e, s[j]) # neg /\ GlobAt(p, e + 1, s, j + 1)
    ELSE p[i] = s[j] /\ GlobAt(p, i + 1, s, j + 1)

GlobMatch(p, s) == GlobAt(p, 1, s, 1)

\* an id criterion selects a list name: exactly, or by a pattern between slashes
IdMatches(crit, name) ==
    IF Len(crit) > 2 /\ crit[1] = Slash /\ crit[Len(crit)] = Slash
    THEN GlobMatch(SubSeq(crit, 2, Len(crit) - 1), name)
    ELSE crit = name
=============================================================================
