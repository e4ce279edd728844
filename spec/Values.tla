------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The mathematical universe of algebraixlib: atoms, couplets, sets and    *)
(* multisets, plus the outcomes a call may have besides a value.           *)
(*                                                                         *)
(* A value is a tuple whose first component is its kind, so that two       *)
(* values of different kinds are unequal without TLC ever comparing        *)
(* components of different types:                                          *)
(*     <<"a", id>>        an atom (id: the name of its (type, value))      *)
(*     <<"c", l, r>>      the couplet l -> r                               *)
(*     <<"s", {..}>>      a set                                            *)
(*     <<"m", {<<e,n>>}>> a multiset: element e occurs n >= 1 times        *)
(* Outcomes of a call:                                                     *)
(*     a value, <<"b", BOOLEAN>>, <<"n", Int>>, <<"t", STRING>>,           *)
(*     <<"l", sequence of outcomes>>, <<"u", severity>> (undefined;        *)
(*     severity 0 in an observation, where it cannot be seen),             *)
(*     <<"x", exception class>>.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Atom(id)   == <<"a", id>>
Cpl(l, r)  == <<"c", l, r>>
SetV(X)    == <<"s", X>>
MSet(B)    == <<"m", B>>
Bool(b)    == <<"b", b>>
Nat_(n)    == <<"n", n>>
Txt(t)     == <<"t", t>>
Undef(sev) == <<"u", sev>>
Exc(c)     == <<"x", c>>
List(q)    == <<"l", q>>

Kind(v)  == v[1]
IsAtom(v) == v[1] = "a"
IsCpl(v)  == v[1] = "c"
IsSet(v)  == v[1] = "s"
IsMSet(v) == v[1] = "m"
IsUndef(v) == v[1] = "u"
IsExc(v)   == v[1] = "x"
IsMO(v)   == v[1] \in {"a", "c", "s", "m"}
L(c) == c[2]
R(c) == c[3]
El(s) == s[2]                         \* elements of a set value
Bag(m) == m[2]                        \* <<element, multiplicity>> pairs
Keys(m) == {p[1] : p \in m[2]}
Mult(m, e) == LET P == {p \in m[2] : p[1] = e}
              IN  IF P = {} THEN 0 ELSE (CHOOSE p \in P : TRUE)[2]
Card(m) == MapThenSumSet(LAMBDA p : p[2], m[2])
Empty  == SetV({})
MEmpty == MSet({})

\* The multiset over the candidates D in which e occurs F(e) times.
MFrom(D, F(_)) == MSet({<<e, F(e)>> : e \in {d \in D : F(d) > 0}})

IsRel(v)   == IsSet(v) /\ \A e \in v[2] : IsCpl(e)
IsClan(v)  == IsSet(v) /\ \A e \in v[2] : IsRel(e)
IsMClan(v) == IsMSet(v) /\ \A p \in v[2] : IsRel(p[1])

\* Raw-set helpers over a relation value
Lefts(r)  == {c[2] : c \in r[2]}
Rights(r) == {c[3] : c \in r[2]}
RightsOf(r, x) == {c[3] : c \in {d \in r[2] : d[2] = x}}
LeftsOf(r, y)  == {c[2] : c \in {d \in r[2] : d[3] = y}}

(***************************************************************************)
(* JSON -> values.  Sets and multisets arrive as sequences.                *)
(***************************************************************************)
RECURSIVE Dec(_)
Dec(j) ==
  CASE j[1] = "a" -> <<"a", j[2]>>
    [] j[1] = "c" -> <<"c", Dec(j[2]), Dec(j[3])>>
    [] j[1] = "s" -> <<"s", {Dec(j[2][i]) : i \in DOMAIN j[2]}>>
    [] j[1] = "m" -> <<"m", {<<Dec(j[2][i][1]), j[2][i][2]>> : i \in DOMAIN j[2]}>>
    [] j[1] = "l" -> <<"l", [i \in DOMAIN j[2] |-> Dec(j[2][i])]>>
    \* a callable as a finite table: rows of arguments and result
    [] j[1] = "f" -> <<"f", {[k \in DOMAIN j[2][i] |-> Dec(j[2][i][k])] : i \in DOMAIN j[2]}>>
    [] OTHER -> j

(***************************************************************************)
(* Values -> JSON (sets become sequences in TLC's own order).              *)
(***************************************************************************)
RECURSIVE Enc(_)
Enc(v) ==
  CASE v[1] = "c" -> <<"c", Enc(v[2]), Enc(v[3])>>
    [] v[1] = "s" -> LET q == SetToSeq(v[2])
                     IN  <<"s", [i \in DOMAIN q |-> Enc(q[i])]>>
    [] v[1] = "m" -> LET q == SetToSeq(v[2])
                     IN  <<"m", [i \in DOMAIN q |-> <<Enc(q[i][1]), q[i][2]>>]>>
    [] v[1] = "l" -> <<"l", [i \in DOMAIN v[2] |-> Enc(v[2][i])]>>
    [] OTHER -> v
=============================================================================
