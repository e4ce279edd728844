---------------------------- MODULE Predicates -----------------------------
(***************************************************************************)
(* Memberships and properties of values, by definition.  Truth(p, v) is    *)
(* the set of acceptable answers ("IS", "NOT", "NA") to property p of v:   *)
(* a singleton, except for higher power sets that contain an empty         *)
(* (multi)set at some depth, where the documentation leaves open whether   *)
(* the empty collection counts as a power-set tower.                       *)
(***************************************************************************)
EXTENDS Algebra, Structure

AllAtoms(X) == \A e \in X : IsAtom(e)
AbsCpl(c)   == IsAtom(L(c)) /\ IsAtom(R(c))
AbsRel(r)   == \A c \in El(r) : AbsCpl(c)

Reflexive(r) == \A x \in Lefts(r) \cup Rights(r) : Cpl(x, x) \in El(r)
Symmetric(r) == \A c \in El(r) : CplTranspose(c) \in El(r)
Transitive(r) == \A c, d \in El(r) : R(c) = L(d) => Cpl(L(c), R(d)) \in El(r)

RelProp(p, r) ==
  CASE p = "functional"       -> IsFunctionalR(r)
    [] p = "right_functional" -> IsRightFunctionalR(r)
    [] p = "reflexive"        -> Reflexive(r)
    [] p = "symmetric"        -> Symmetric(r)
    [] p = "transitive"       -> Transitive(r)

\* X: the relations of a clan or multiclan
RegularX(X) == /\ \A r \in X : IsFunctionalR(r)
               /\ Cardinality({Lefts(r) : r \in X}) <= 1
RightRegularX(X) == /\ \A r \in X : IsRightFunctionalR(r)
                    /\ Cardinality({Rights(r) : r \in X}) <= 1
ClanProp(p, X) ==
  CASE p = "regular"       -> RegularX(X)
    [] p = "right_regular" -> RightRegularX(X)
    [] OTHER -> \A r \in X : RelProp(p, r)

\* an empty set or multiset occurs somewhere inside v
RECURSIVE HasEmpty(_)
HasEmpty(v) == CASE v[1] = "a" -> FALSE
                 [] v[1] = "c" -> HasEmpty(v[2]) \/ HasEmpty(v[3])
                 [] v[1] = "s" -> v[2] = {} \/ \E e \in v[2] : HasEmpty(e)
                 [] v[1] = "m" -> v[2] = {} \/ \E e \in v[2] : HasEmpty(e[1])

\* Left (side = "l") or right sets; the values a lookup may answer with.
Side(side, r) == SetV(IF side = "l" THEN Lefts(r) ELSE Rights(r))
RECURSIVE TowerLefts(_, _)       \* union of all left sets below v
TowerLefts(side, v) ==
  IF IsRel(v) THEN El(Side(side, v))
  ELSE IF IsSet(v) THEN UNION {TowerLefts(side, e) : e \in El(v)} ELSE {}
LeftSet(side, v) ==              \* set of acceptable answers
  IF IsRel(v) THEN {Side(side, v)}
  ELSE IF IsMClan(v) THEN
         {IF side = "l" THEN MClanLefts(v) ELSE MClanRights(v)}
  ELSE IF ~IsSet(v) THEN {Undef(1)}
  ELSE LET lat == IF Level(Ground(v), RelationsGS) > 0
                  THEN {SetV(TowerLefts(side, v))} ELSE {Undef(1)}
       IN  IF HasEmpty(v) /\ ~IsClan(v)
           THEN lat \cup {Undef(1), Undef(2), SetV(TowerLefts(side, v))}
                    \cup (IF TowerLefts(side, v) = {} THEN {MEmpty} ELSE {})
            ELSE lat

B2T(b) == IF b THEN "IS" ELSE "NOT"
RECURSIVE PropTruth(_, _)
PropTruth(p, v) ==
  CASE IsAtom(v) -> {"NA"}
    [] IsCpl(v)  -> IF p = "reflexive" THEN {B2T(L(v) = R(v))} ELSE {"NA"}
    [] IsRel(v)  -> IF El(v) = {} THEN {"IS"}
                    ELSE IF p \in {"regular", "right_regular"} THEN {"NA"}
                    ELSE {B2T(RelProp(p, v))}
    [] IsClan(v) -> {B2T(ClanProp(p, El(v)))}
    [] IsMClan(v) -> {B2T(ClanProp(p, Keys(v)))}
    [] IsMSet(v) -> {"NA"}
    [] OTHER ->
        LET base == IF p \in {"symmetric", "transitive"} THEN RelationsGS ELSE ClansGS
            tower == Level(Ground(v), base) > 0
            sub == {PropTruth(p, e) : e \in El(v)}
            side == IF p = "regular" THEN "l" ELSE "r"
            common == Cardinality({TowerLefts(side, e) : e \in El(v)}) = 1
            allIs == \A t \in sub : "IS" \in t
            noneNA == \A t \in sub : t # {"NA"}
            ans == IF p \in {"regular", "right_regular"} THEN B2T(allIs /\ common)
                   ELSE B2T(allIs)
            exact == IF tower THEN (IF noneNA THEN {ans} ELSE {"NA"}) ELSE {"NA"}
        IN  IF HasEmpty(v)
            THEN exact \cup {"NA"} \cup (IF noneNA THEN {ans, "NOT"} ELSE {})
            ELSE exact

Props == {"functional", "right_functional", "reflexive", "symmetric",
          "transitive", "regular", "right_regular"}

AbsTruth(v) ==
  B2T(CASE IsAtom(v)  -> TRUE
        [] IsCpl(v)   -> AbsCpl(v)
        [] IsRel(v)   -> AbsRel(v)
        [] IsClan(v)  -> \A r \in El(v) : AbsRel(r)
        [] IsMClan(v) -> \A r \in Keys(v) : AbsRel(r)
        [] IsSet(v)   -> AllAtoms(El(v))
        [] IsMSet(v)  -> AllAtoms(Keys(v)))

Truth(p, v) ==
  CASE p = "relation"  -> {B2T(IsRel(v))}
    [] p = "clan"      -> {B2T(IsClan(v))}
    [] p = "multiclan" -> {B2T(IsMClan(v))}
    [] p = "absolute"  -> {AbsTruth(v)}
    [] OTHER           -> PropTruth(p, v)

(***************************************************************************)
(* Flags: what an object remembers about itself, in this order.            *)
(***************************************************************************)
FlagNames == <<"relation", "clan", "multiclan", "absolute", "functional",
               "right_functional", "reflexive", "symmetric", "transitive",
               "regular", "right_regular">>
FlagIdx == 1..11
FlagVal(f) == <<"UNKNOWN", "IS", "NOT", "NA">>[f + 1]
FlagSound(v, i, f) == f = 0 \/ FlagVal(f) \in Truth(FlagNames[i], v)
FlagsSound(v, F) == \A i \in FlagIdx : FlagSound(v, i, F[i])
FlagsGrow(F, G) == \A i \in FlagIdx : F[i] = 0 \/ F[i] = G[i]

(* Memberships *)
IsMember(alg, v) ==
  CASE alg = "couplets" -> IsCpl(v)
    [] alg = "sets" -> IsSet(v)
    [] alg = "relations" -> IsRel(v)
    [] alg = "clans" -> IsClan(v)
    [] alg = "multisets" -> IsMSet(v)
    [] alg = "multiclans" -> IsMClan(v)
IsAbsMember(alg, v) ==
  CASE alg = "couplets" -> IsCpl(v) /\ AbsCpl(v)
    [] alg = "sets" -> IsSet(v) /\ ~IsRel(v) /\ ~IsClan(v) /\ AllAtoms(El(v))
    [] alg = "relations" -> IsRel(v) /\ AbsRel(v)
    [] alg = "clans" -> IsClan(v) /\ \A r \in El(v) : AbsRel(r)
    [] alg = "multisets" -> IsMSet(v) /\ ~IsMClan(v) /\ AllAtoms(Keys(v))
    [] alg = "multiclans" -> IsMClan(v) /\ \A r \in Keys(v) : AbsRel(r)
=============================================================================
