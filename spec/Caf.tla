-------------------------------- MODULE Caf ---------------------------------
(* The filter language: a token list is parsed (or rejected) and denotes the  *)
(* selection of a set of items.  Tokens:                                       *)
(*   [k |-> "id", s |-> codes]          [k |-> "ip", d |-> "src"|"dst", n |-> criteria]  *)
(*   [k |-> "op", o |-> "union"|"intersect"|"except"]  "("  ")"  "junk"                  *)
EXTENDS Terms

Bad == [ok |-> FALSE, i |-> 0, x |-> <<>>]

\* parse results are [ok, i (next token), x (syntax tree)]
\* set  ::= [id] { ip | "(" expr ")" }         expr ::= set { op set }
RECURSIVE PSet(_, _, _), PExpr(_, _, _)
PSet(T, i, s) ==
    IF i > Len(T) THEN [ok |-> TRUE, i |-> i, x |-> s]
    ELSE CASE T[i].k = "ip" ->
                PSet(T, i + 1, IF T[i].d = "src" THEN [s EXCEPT !.src = @ \o T[i].n, !.first = FALSE]
                                                 ELSE [s EXCEPT !.dst = @ \o T[i].n, !.first = FALSE])
           [] T[i].k = "id" ->
                IF s.first THEN PSet(T, i + 1, [s EXCEPT !.id = T[i].s, !.first = FALSE])
                ELSE [ok |-> TRUE, i |-> i, x |-> s]
           [] T[i].k = "(" ->
                LET e == PExpr(T, i + 1, <<>>)
                IN  IF ~e.ok \/ e.i > Len(T) THEN Bad
                    ELSE IF T[e.i].k # ")" THEN Bad
                    ELSE PSet(T, e.i + 1, [s EXCEPT !.bl = Append(@, e.x), !.first = FALSE])
           [] OTHER -> [ok |-> TRUE, i |-> i, x |-> s]
EmptySet == [id |-> <<>>, src |-> <<>>, dst |-> <<>>, bl |-> <<>>, first |-> TRUE]
\* an expression is kept as a flat chain: set op set op set ...
PExpr(T, i, chain) ==
    LET s == PSet(T, i, EmptySet)
    IN  IF ~s.ok THEN Bad
        ELSE IF s.i <= Len(T) /\ T[s.i].k = "op"
             THEN PExpr(T, s.i + 1, chain \o <<s.x, T[s.i].o>>)
             ELSE [ok |-> TRUE, i |-> s.i, x |-> Append(chain, s.x)]

Parse(T) ==
    LET e == PExpr(T, 1, <<>>)
    IN  IF e.ok /\ e.i = Len(T) + 1 THEN e ELSE Bad

\* the item u is selected by a chain of sets; the plain criteria of a set are decided by ItemSel.
\* acc is the result so far, o the operator which will join it with cur, and cur the product
\* of the operands joined by intersect up to here
Join(acc, o, cur) == IF o = "union" THEN acc \/ cur ELSE acc /\ ~cur
RECURSIVE EChain(_, _, _), ESet(_, _, _), EFold(_, _, _, _, _, _, _)
ESet(H, s, u) == ItemSel(H, s, u) /\ \A i \in 1..Len(s.bl) : EChain(H, s.bl[i], u)
EFold(H, c, u, i, acc, o, cur) ==
    IF i > Len(c) THEN Join(acc, o, cur)
    ELSE LET v == ESet(H, c[i + 1], u)
         IN  IF c[i] = "intersect" THEN EFold(H, c, u, i + 2, acc, o, cur /\ v)
             ELSE EFold(H, c, u, i + 2, Join(acc, o, cur), c[i], v)
EChain(H, c, u) == EFold(H, c, u, 2, FALSE, "union", ESet(H, c[1], u))
=============================================================================
