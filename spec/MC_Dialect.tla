----------------------------- MODULE MC_Dialect ------------------------------
(* Every sequence of pieces of text over a small alphabet up to a bound is      *)
(* loaded without being told its dialect.  A piece is a command of one of the   *)
(* dialects, of several (perhaps not the same command), or of none.             *)
EXTENDS Proj, Json, IOUtils, CSV

Num(s) == CHOOSE k \in 0..64 : ToString(k) = s
\* [c |-> command, u |-> what only one piece may be about, def, ref |-> the name it defines, refers to]
Alpha == ndJsonDeserialize(IOEnv.ALPHA)
Bound == Num(IOEnv.BOUND)
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)

VARIABLES hist
Init == \/ hist = <<>> /\ Part = 0
        \/ \E i \in 1..Len(Alpha) : i % Parts = Part /\ hist = <<i>>
Next == /\ Len(hist) \in 1..(Bound - 1)
        /\ \E i \in 1..Len(Alpha) :
              /\ Alpha[i].u = "" \/ \A j \in 1..Len(hist) : Alpha[hist[j]].u # Alpha[i].u
              /\ hist' = Append(hist, i)
Spec == Init /\ [][Next]_hist

-----------------------------------------------------------------------------
Cmds == MapSeq(LAMBDA i : Alpha[i].c, hist)
St == Load("auto", Cmds)
N == Len(hist)
\* the piece is one of the dialect, and what it refers to is defined before
Fits(d, j) == /\ Variant(d, Cmds[j]).c # "junk"
              /\ Alpha[hist[j]].ref # "" => \E k \in 1..(j - 1) : Alpha[hist[k]].def = Alpha[hist[j]].ref
Valid(d) == \A j \in 1..N : Fits(d, j)

\* C19: of the first dialect all pieces are of; rejected if there is none
DialectInv ==
    CASE Valid("asa") -> St.ok /\ St.dia = "asa"
      [] ~Valid("asa") /\ Valid("ios") -> St.ok /\ St.dia = "ios"
      [] ~Valid("asa") /\ ~Valid("ios") /\ Valid("pfsense") -> St.ok /\ St.dia = "pfsense"
      [] OTHER -> ~St.ok
\* nothing is left out
WholeInv ==
    St.ok =>
        LET C(k) == SelectSeq([j \in 1..N |-> j], LAMBDA j : Variant(St.dia, Cmds[j]).c = k)
        IN  /\ St.host = (IF C("hostname") = <<>> THEN "" ELSE Variant(St.dia, Cmds[Max(ToSet(C("hostname")))]).v)
            /\ St.dom = (IF C("domain") = <<>> THEN "" ELSE Variant(St.dia, Cmds[Max(ToSet(C("domain")))]).v)
            /\ Len(St.ifs) = Len(C("if"))
            /\ Len(St.heap) = Len(C("grp")) + Len(C("nobj")) + Len(C("name"))
            /\ Len(St.rules) = FoldLeft(LAMBDA a, j : a + Len(SelectSeq(Variant(St.dia, Cmds[j]).lines, LAMBDA x : x.t = "rule")), 0, C("acl"))

Emit == CSVWrite("%1$s", << ToString(hist) >>, IOEnv.EMIT)
=============================================================================
