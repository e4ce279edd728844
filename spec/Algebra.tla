------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Denotational definitions of every operation of the algebras of          *)
(* couplets, relations, sets, clans, multisets and multiclans, and of the  *)
(* lifting operators.  Arguments are assumed to be of the right kind; the  *)
(* treatment of wrong and undefined arguments is in Calls.tla.             *)
(***************************************************************************)
EXTENDS Values

\* drop undefined results
Def(X) == {x \in X : ~IsUndef(x)}

(* -------------------------------- couplets ----------------------------- *)
CplTranspose(c) == Cpl(R(c), L(c))
CplCompose(c1, c2) == IF L(c1) = R(c2) THEN Cpl(L(c2), R(c1)) ELSE Undef(2)

(* -------------------------------- lifting ------------------------------ *)
UnaryExtend(s, Op(_)) == SetV(Def({Op(e) : e \in El(s)}))
BinaryExtend(s1, s2, Op(_,_)) ==
    SetV(Def({Op(p[1], p[2]) : p \in El(s1) \X El(s2)}))
\* m is a set of <<result, multiplicity contribution, tag>> with unique tags
SumUp(T) == LET D == {t \in T : ~IsUndef(t[1])}
                K == {t[1] : t \in D}
            IN  MSet({<<k, MapThenSumSet(LAMBDA t : t[2], {t \in D : t[1] = k})>> : k \in K})
AsBag(v) == IF IsSet(v) THEN {<<e, 1>> : e \in El(v)} ELSE Bag(v)
UnaryMultiExtend(v, Op(_)) ==
    SumUp({<<Op(p[1]), p[2], p[1]>> : p \in AsBag(v)})
BinaryMultiExtend(m1, m2, Op(_,_)) ==
    SumUp({<<Op(p[1][1], p[2][1]), p[1][2] * p[2][2], <<p[1][1], p[2][1]>> >>
             : p \in Bag(m1) \X Bag(m2)})

(* ------------------------------- relations ----------------------------- *)
RelTranspose(r) == SetV({CplTranspose(c) : c \in El(r)})
RelCompose(r1, r2) ==
    SetV({Cpl(L(p[2]), R(p[1])) : p \in {q \in El(r1) \X El(r2) : L(q[1]) = R(q[2])}})
IsFunctionalR(r) == Cardinality(Lefts(r)) = Cardinality(El(r))
IsRightFunctionalR(r) == Cardinality(Rights(r)) = Cardinality(El(r))
RUnion(r1, r2) == SetV(El(r1) \cup El(r2))
FunctionalUnion(r1, r2) ==
    LET u == RUnion(r1, r2) IN IF IsFunctionalR(u) THEN u ELSE Undef(2)
RightFunctionalUnion(r1, r2) ==
    LET u == RUnion(r1, r2) IN IF IsRightFunctionalR(u) THEN u ELSE Undef(2)
Diag(X) == SetV({Cpl(x, x) : x \in X})
FillLefts(r, ren) == SetV(El(ren) \cup El(Diag(Lefts(r) \ Rights(ren))))
Rename(r, ren) == RelCompose(r, FillLefts(r, ren))
Swap(r, sw) == Rename(r, SetV(El(sw) \cup El(RelTranspose(sw))))
Unique(X) == IF Cardinality(X) = 1 THEN CHOOSE x \in X : TRUE ELSE Undef(1)
FunctionalAdd(f, c) ==
    IF L(c) \in Lefts(f) THEN Undef(2) ELSE SetV(El(f) \cup {c})
RelDefinedAt(r, x) == IF RightsOf(r, x) = {} THEN Undef(1) ELSE r

(* --------------------------------- sets -------------------------------- *)
SUnion(a, b)     == SetV(El(a) \cup El(b))
SIntersect(a, b) == SetV(El(a) \cap El(b))
SMinus(a, b)     == SetV(El(a) \ El(b))
SSub(a, b)   == El(a) \subseteq El(b)
SSubstrict(a, b)   == IF SSub(a, b) THEN a ELSE Undef(2)
SSuperstrict(a, b) == IF SSub(b, a) THEN a ELSE Undef(2)
Multify(s) == MSet({<<e, 1>> : e \in El(s)})
BigUnion(s) == SetV(UNION {El(e) : e \in El(s)})
BigIntersect(s) == IF El(s) = {} THEN s
                   ELSE LET e0 == CHOOSE e \in El(s) : TRUE
                        IN  SetV({x \in El(e0) : \A e \in El(s) : x \in El(e)})
PowerSet(s) == SetV({SetV(X) : X \in SUBSET El(s)})
PowerUp(s)  == SetV({SetV({e}) : e \in El(s)})

(* --------------------------------- clans ------------------------------- *)
ClanTranspose(c) == UnaryExtend(c, RelTranspose)
ClanCompose(a, b) == BinaryExtend(a, b, RelCompose)
CrossUnion(a, b) == BinaryExtend(a, b, SUnion)
CrossFunctionalUnion(a, b) == BinaryExtend(a, b, FunctionalUnion)
CrossRightFunctionalUnion(a, b) == BinaryExtend(a, b, RightFunctionalUnion)
CrossIntersect(a, b) == BinaryExtend(a, b, SIntersect)
ClanSubstrict(a, b) == BinaryExtend(a, b, SSubstrict)
ClanSuperstrict(a, b) == BinaryExtend(a, b, SSuperstrict)
LhsCrossFunctionalUnion(a, b) ==
    SUnion(CrossFunctionalUnion(a, b),
           SetV({r \in El(a) : El(CrossFunctionalUnion(SetV({r}), b)) = {}}))
ClanLefts(c)  == SetV(UNION {Lefts(r) : r \in El(c)})
ClanRights(c) == SetV(UNION {Rights(r) : r \in El(c)})
ClanProject(c, X) == ClanCompose(c, SetV({Diag(X)}))
ClanDefinedAt(c, x) ==
    LET d == {r \in El(c) : RightsOf(r, x) # {}} IN IF d = {} THEN Undef(1) ELSE SetV(d)
ClanRightsFor(c, x) == SetV(UNION {RightsOf(r, x) : r \in El(c)})

(* ------------------------------- multisets ----------------------------- *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
BothKeys(a, b) == Keys(a) \cup Keys(b)
MUnion(a, b)     == MFrom(BothKeys(a, b), LAMBDA e : Max2(Mult(a, e), Mult(b, e)))
MIntersect(a, b) == MFrom(BothKeys(a, b), LAMBDA e : Min2(Mult(a, e), Mult(b, e)))
MMinus(a, b)     == MFrom(BothKeys(a, b), LAMBDA e : Mult(a, e) - Mult(b, e))
MAdd(a, b)       == MFrom(BothKeys(a, b), LAMBDA e : Mult(a, e) + Mult(b, e))
MSub(a, b) == \A p \in Bag(a) : p[2] <= Mult(b, p[1])
MSubstrict(a, b)   == IF MSub(a, b) THEN a ELSE Undef(2)
MSuperstrict(a, b) == IF MSub(b, a) THEN a ELSE Undef(2)
Demultify(m) == SetV(Keys(m))
MBigUnion(s) == IF El(s) = {} THEN s
                ELSE LET K == UNION {Keys(m) : m \in El(s)}
                     IN  MFrom(K, LAMBDA e : Max({Mult(m, e) : m \in El(s)}))
MBigIntersect(s) == IF El(s) = {} THEN s
                ELSE LET K == UNION {Keys(m) : m \in El(s)}
                     IN  MFrom(K, LAMBDA e : Min({Mult(m, e) : m \in El(s)}))

(* ------------------------------- multiclans ---------------------------- *)
MClanTranspose(c) == UnaryMultiExtend(c, RelTranspose)
MClanCompose(a, b) == BinaryMultiExtend(a, b, RelCompose)
MCrossUnion(a, b) == BinaryMultiExtend(a, b, SUnion)
MCrossFunctionalUnion(a, b) == BinaryMultiExtend(a, b, FunctionalUnion)
MCrossRightFunctionalUnion(a, b) == BinaryMultiExtend(a, b, RightFunctionalUnion)
MCrossIntersect(a, b) == BinaryMultiExtend(a, b, SIntersect)
MClanSubstrict(a, b) ==
    MSet({p \in Bag(a) : \E q \in Bag(b) : SSub(p[1], q[1])})
MClanSuperstrict(a, b) ==
    MSet({p \in Bag(a) : \E q \in Bag(b) : SSub(q[1], p[1])})
\* the library answers an empty multiclan with that multiclan itself (pinned)
MClanLefts(m)  == IF Bag(m) = {} THEN m ELSE SetV(UNION {Lefts(r) : r \in Keys(m)})
MClanRights(m) == IF Bag(m) = {} THEN m ELSE SetV(UNION {Rights(r) : r \in Keys(m)})
MClanProject(m, X) == MClanCompose(m, MSet({<<Diag(X), 1>>}))
MClanRightsFor(m, x) ==
    MFrom(UNION {RightsOf(r, x) : r \in Keys(m)},
          LAMBDA y : MapThenSumSet(LAMBDA p : p[2], {p \in Bag(m) : y \in RightsOf(p[1], x)}))
MClanDefinedAt(m, x) ==
    LET d == {p \in Bag(m) : RightsOf(p[1], x) # {}} IN IF d = {} THEN Undef(1) ELSE MSet(d)
MultirelRightsFor(m, x) ==
    MSet({<<R(p[1]), p[2]>> : p \in {q \in Bag(m) : L(q[1]) = x}})
=============================================================================
