------------------------------- MODULE Terms --------------------------------
(* What address terms and rules cover, and what filter criteria select.       *)
(* A term is [t |-> "any"|"any4"|"any6"|"if"|"pat"|"obj"|"grp", ...]; objects *)
(* and groups live in a heap and are referred to by their index h.            *)
EXTENDS Addr, Glob

AnyT == [t |-> "any"]
Any4T == [t |-> "any4"]
Any6T == [t |-> "any6"]
NoneT == [t |-> "none"]
PatT(p, nm) == [t |-> "pat", p |-> p, nm |-> nm]

\* the term covers some address of pattern p
RECURSIVE HitsPat(_, _, _)
HitsPat(H, p, t) ==
    CASE t.t \in {"any", "if", "url"} -> TRUE
      [] t.t = "any4" -> p.v = 4
      [] t.t = "any6" -> p.v = 6
      [] t.t = "pat" -> Overlap(p, t.p)
      [] t.t \in {"obj", "grp"} -> \E i \in 1..Len(H[t.h].m) : HitsPat(H, p, H[t.h].m[i])

\* the term covers some address of family v
RECURSIVE HitsFamily(_, _, _)
HitsFamily(H, v, t) ==
    CASE t.t \in {"any", "if", "url"} -> TRUE
      [] t.t = "any4" -> v = 4
      [] t.t = "any6" -> v = 6
      [] t.t = "pat" -> t.p.v = v
      [] t.t \in {"obj", "grp"} -> \E i \in 1..Len(H[t.h].m) : HitsFamily(H, v, H[t.h].m[i])

\* the term is written as this any keyword, or is a group which contains it;
\* an URL (of a webtype rule) stands for any
RECURSIVE HitsLiteral(_, _, _)
HitsLiteral(H, k, t) ==
    IF t.t = "grp" THEN \E i \in 1..Len(H[t.h].m) : HitsLiteral(H, k, H[t.h].m[i])
    ELSE t.t = k \/ (t.t = "url" /\ k = "any")

\* two terms share an address
RECURSIVE Overlaps(_, _, _)
Overlaps(H, c, t) ==
    CASE c.t \in {"any", "if", "url"} -> TRUE
      [] c.t = "any4" -> HitsFamily(H, 4, t)
      [] c.t = "any6" -> HitsFamily(H, 6, t)
      [] c.t = "pat" -> HitsPat(H, c.p, t)
      [] c.t \in {"obj", "grp"} -> \E i \in 1..Len(H[c.h].m) : Overlaps(H, H[c.h].m[i], t)

\* criteria: [k |-> "any"|"any4"|"any6"|"ANY"|"ANY4"|"ANY6"|"pat"|"term", p, x]
Hits(H, c, t) ==
    CASE c.k = "any" -> TRUE
      [] c.k = "any4" -> HitsFamily(H, 4, t)
      [] c.k = "any6" -> HitsFamily(H, 6, t)
      [] c.k = "ANY" -> HitsLiteral(H, "any", t)
      [] c.k = "ANY4" -> HitsLiteral(H, "any4", t)
      [] c.k = "ANY6" -> HitsLiteral(H, "any6", t)
      [] c.k = "pat" -> HitsPat(H, c.p, t)
      [] c.k = "term" -> Overlaps(H, c.x, t)      \* a criterion made by hand

\* the criteria of one direction are alternatives, none is no constraint
DirHits(H, cs, t) == cs = <<>> \/ \E i \in 1..Len(cs) : Hits(H, cs[i], t)

\* a set of criteria [id, src, dst] selects a rule [idc, src, dst]
RuleSel(H, s, r) ==
    /\ s.id = <<>> \/ IdMatches(s.id, r.idc)
    /\ DirHits(H, s.src, r.src)
    /\ DirHits(H, s.dst, r.dst)

\* a NAT rule [real |-> [src, dst], mapped |-> [src, dst]] is selected by one of its sides;
\* a side without destination matches any destination, "none" is an absent node
SideSel(H, s, side) ==
    /\ side.src.t # "none" \/ side.dst.t # "none"
    /\ side.src.t = "none" \/ DirHits(H, s.src, side.src)
    /\ side.dst.t = "none" \/ DirHits(H, s.dst, side.dst)
NatSel(H, s, n) == SideSel(H, s, n.real) \/ SideSel(H, s, n.mapped)

ItemSel(H, s, u) == IF u.kind = "nat" THEN NatSel(H, s, u) ELSE RuleSel(H, s, u)
=============================================================================
