----------------------------- MODULE Structure -----------------------------
(***************************************************************************)
(* Structures (ground sets), inclusion, canonical unions, ground sets of   *)
(* values, membership of values in structures, power-set level.            *)
(*   <<"e">>  the empty structure     <<"g","A"|"N"|"M">> generators       *)
(*   <<"cp", l, r>>  product    <<"p", b>>  power set                      *)
(*   <<"un", {..}>>  union of at least two incomparable structures         *)
(***************************************************************************)
EXTENDS Values

SE == <<"e">>
SA == <<"g", "A">>
SN == <<"g", "N">>
SM == <<"g", "M">>
CP(l, r) == <<"cp", l, r>>
PS(b)    == <<"p", b>>
UN(X)    == <<"un", X>>

\* Inclusion of structures, defined on their shape.
RECURSIVE Le(_, _)
Le(S, T) ==
  CASE S[1] = "e"  -> TRUE
    [] S[1] = "un" -> \A x \in S[2] : Le(x, T)
    [] T[1] = "un" -> \E y \in T[2] : Le(S, y)
    [] T = SM      -> S # SN
    [] S[1] = "g"  -> S = T
    [] S[1] = "cp" -> T[1] = "cp" /\ Le(S[2], T[2]) /\ Le(S[3], T[3])
    [] S[1] = "p"  -> T[1] = "p" /\ Le(S[2], T[2])
    [] OTHER -> FALSE

\* Canonical union of a set of structures: flatten, keep the maximal members.
Members(S) == IF S[1] = "un" THEN S[2] ELSE {S}
Join(X) ==
  LET F == UNION {Members(x) : x \in X}
      T == {x \in F : ~\E y \in F : y # x /\ Le(x, y)}
  IN  IF Cardinality(T) = 1 THEN CHOOSE x \in T : TRUE ELSE UN(T)

\* The ground set of a value.
RECURSIVE Ground(_)
Ground(v) ==
  CASE v[1] = "a" -> SA
    [] v[1] = "c" -> CP(Ground(v[2]), Ground(v[3]))
    [] v[1] = "s" -> IF v[2] = {} THEN SE ELSE PS(Join({Ground(e) : e \in v[2]}))
    [] v[1] = "m" -> IF v[2] = {} THEN SE
                     ELSE PS(CP(Join({Ground(p[1]) : p \in v[2]}), SN))

\* v is an element of (the family denoted by) structure T.  The library's
\* empty set and empty multiset belong to every structure.
RECURSIVE In(_, _)
In(v, T) ==
  CASE v[1] \in {"s", "m"} /\ v[2] = {} -> TRUE
    [] T[1] = "e"  -> FALSE
    [] T[1] = "un" -> \E y \in T[2] : In(v, y)
    [] T = SM      -> TRUE
    [] T = SN      -> FALSE
    [] T = SA      -> v[1] = "a"
    [] T[1] = "cp" -> v[1] = "c" /\ In(v[2], T[2]) /\ In(v[3], T[3])
    [] T[1] = "p"  ->
         \/ v[1] = "s" /\ \A e \in v[2] : In(e, T[2])
         \* a multiset is a set of pairs (element, natural number)
         \/ v[1] = "m" /\ \E D \in Members(T[2]) :
                \/ D = SM
                \/ D[1] = "cp" /\ Le(SN, D[3]) /\ \A p \in v[2] : In(p[1], D[2])
    [] OTHER -> FALSE

\* How many power sets separate structure G from a structure included in base
\* (0: it is not a power set of such a structure).  A union has the level that
\* all of its members have.
RECURSIVE Level(_, _)
Level(G, base) ==
  IF G[1] = "un" THEN LET X == {Level(x, base) : x \in G[2]}
                      IN  IF Cardinality(X) = 1 THEN CHOOSE n \in X : TRUE ELSE 0
  ELSE IF G[1] # "p" THEN 0
  ELSE IF Le(G[2], base) THEN 1
  ELSE LET n == Level(G[2], base) IN IF n = 0 THEN 0 ELSE n + 1

CoupletsGS == CP(SM, SM)
RelationsGS == PS(CoupletsGS)
ClansGS == PS(RelationsGS)
SetsGS == PS(SM)
MultisetsGS == PS(CP(SM, SN))
MulticlansGS == PS(CP(RelationsGS, SN))
AbsCoupletsGS == CP(SA, SA)
AbsRelationsGS == PS(AbsCoupletsGS)
AbsClansGS == PS(AbsRelationsGS)
AbsSetsGS == PS(SA)
AbsMultisetsGS == PS(CP(SA, SN))
AbsMulticlansGS == PS(CP(AbsRelationsGS, SN))

RECURSIVE SDec(_)
SDec(j) == CASE j[1] = "cp" -> CP(SDec(j[2]), SDec(j[3]))
             [] j[1] = "p"  -> PS(SDec(j[2]))
             [] j[1] = "un" -> UN({SDec(j[2][i]) : i \in DOMAIN j[2]})
             [] OTHER -> j
=============================================================================
