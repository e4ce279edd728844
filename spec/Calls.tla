------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* The calling convention: which arguments an operation accepts, what it   *)
(* answers for wrong or undefined ones, and what it answers otherwise.     *)
(* Answers(op, a) is the set of acceptable outcomes, where undefined       *)
(* carries its severity.  Accepts(op, a, lv, r) adds the raise level.      *)
(***************************************************************************)
EXTENDS Predicates

KindOk(k, v) ==
  CASE k = "cpl"   -> IsCpl(v)
    [] k = "rel"   -> IsMO(v) /\ IsRel(v)
    [] k = "func"  -> IsMO(v) /\ IsRel(v) /\ IsFunctionalR(v)
    [] k = "clan"  -> IsMO(v) /\ IsClan(v)
    [] k = "set"   -> IsSet(v)
    [] k = "mset"  -> IsMSet(v)
    [] k = "mclan" -> IsMO(v) /\ IsMClan(v)
    [] k = "coll"  -> IsSet(v) \/ IsMSet(v)
    [] k = "mo"    -> IsMO(v)
    [] k = "def"   -> ~IsUndef(v)
    [] k = "any"   -> TRUE

\* argument kinds of each operation (by module, then name)
Sig(op) ==
  CASE op \in {"couplets.transpose"} -> <<"cpl">>
    [] op \in {"couplets.compose"} -> <<"cpl", "cpl">>
    [] op \in {"couplets.is_reflexive"} -> <<"cpl">>
    [] op \in {"relations.transpose", "relations.get_lefts", "relations.get_rights",
               "relations.is_functional", "relations.is_right_functional",
               "relations.is_reflexive", "relations.is_symmetric",
               "relations.is_transitive"} -> <<"rel">>
    [] op \in {"relations.compose", "relations.functional_union",
               "relations.right_functional_union", "relations.fill_lefts",
               "relations.rename", "relations.swap"} -> <<"rel", "rel">>
    [] op \in {"relations.get_rights_for_left"} -> <<"rel", "any">>
    [] op \in {"relations.get_right", "relations.get_left"} -> <<"rel", "def">>
    [] op \in {"relations.defined_at"} -> <<"rel", "any">>
    [] op \in {"relations.functional_add"} -> <<"func", "cpl">>
    [] op \in {"sets.union", "sets.intersect", "sets.minus", "sets.substrict",
               "sets.superstrict", "sets.is_subset_of", "sets.is_superset_of"} -> <<"set", "set">>
    [] op \in {"sets.multify", "sets.big_union", "sets.big_intersect", "sets.single",
               "sets.some", "sets.power_set", "sets.power_up"} -> <<"set">>
    [] op \in {"sets.restrict", "sets.chain_binary_operation"} -> <<"set", "any", "any">>
    [] op \in {"clans.transpose", "clans.get_lefts", "clans.get_rights", "clans.is_functional",
               "clans.is_right_functional", "clans.is_reflexive", "clans.is_symmetric",
               "clans.is_transitive", "clans.is_regular", "clans.is_right_regular"} -> <<"clan">>
    [] op \in {"clans.compose", "clans.cross_union", "clans.cross_functional_union",
               "clans.lhs_cross_functional_union", "clans.cross_right_functional_union",
               "clans.cross_intersect", "clans.substrict", "clans.superstrict"} -> <<"clan", "clan">>
    [] op = "clans.project" -> <<"clan", "any">>
    [] op = "clans.defined_at" -> <<"clan", "def">>
    [] op \in {"multisets.union", "multisets.intersect", "multisets.minus", "multisets.add",
               "multisets.substrict", "multisets.superstrict", "multisets.is_subset_of",
               "multisets.is_superset_of"} -> <<"mset", "mset">>
    [] op \in {"multisets.demultify", "multisets.single", "multisets.some"} -> <<"mset">>
    [] op \in {"multisets.big_union", "multisets.big_intersect"} -> <<"set">>
    [] op \in {"multiclans.transpose", "multiclans.get_lefts", "multiclans.get_rights",
               "multiclans.is_functional", "multiclans.is_right_functional",
               "multiclans.is_reflexive", "multiclans.is_symmetric", "multiclans.is_transitive",
               "multiclans.is_regular", "multiclans.is_right_regular"} -> <<"mclan">>
    [] op \in {"multiclans.compose", "multiclans.cross_union", "multiclans.cross_functional_union",
               "multiclans.cross_right_functional_union", "multiclans.cross_intersect",
               "multiclans.substrict", "multiclans.superstrict"} -> <<"mclan", "mclan">>
    [] op = "multiclans.project" -> <<"mclan", "any">>
    [] op = "multiclans.get_rights_for_left" -> <<"mclan", "any">>
    [] op = "multiclans.defined_at" -> <<"mclan", "def">>
    [] op = "extension.unary_extend" -> <<"set", "any">>
    [] op = "extension.binary_extend" -> <<"set", "set", "any">>
    [] op = "extension.unary_multi_extend" -> <<"coll", "any">>
    [] op = "extension.binary_multi_extend" -> <<"mset", "mset", "any">>
    [] op \in {"properties.is_functional", "properties.is_right_functional",
               "properties.is_bijective", "properties.is_reflexive", "properties.is_symmetric",
               "properties.is_transitive", "properties.is_equivalence_relation",
               "properties.is_regular", "properties.is_right_regular"} -> <<"mo">>
    [] OTHER -> <<>>

\* severity of the undefined result for a bad argument v
BadSev(op, v) ==
  CASE op \in {"clans.defined_at", "multiclans.defined_at", "multisets.some"} -> 2
    [] op \in {"properties.is_functional", "properties.is_right_functional",
               "properties.is_bijective", "properties.is_reflexive", "properties.is_symmetric",
               "properties.is_transitive", "properties.is_equivalence_relation",
               "properties.is_regular", "properties.is_right_regular"} -> 1
    [] IsUndef(v) -> 2
    [] OTHER -> 1

\* Tri-state answer of a property, as an outcome
T2O(t) == CASE t = "IS" -> Bool(TRUE) [] t = "NOT" -> Bool(FALSE) [] t = "NA" -> Undef(2)
Q(p, v) == {T2O(t) : t \in Truth(p, v)}
\* short-circuit conjunction of properties
RECURSIVE QAll(_, _)
QAll(ps, v) == LET h == Q(Head(ps), v)
               IN  IF Len(ps) = 1 THEN h
                   ELSE (h \ {Bool(TRUE)}) \cup
                        (IF Bool(TRUE) \in h THEN QAll(Tail(ps), v) ELSE {})

\* arguments that are keys of a mapping: <<"l", <<k, v, k, v, ...>>>>
DictPairs(d) == {<<d[2][2 * i - 1], d[2][2 * i]>> : i \in 1..(Len(d[2]) \div 2)}
DictRel(d) == SetV({Cpl(p[1], p[2]) : p \in DictPairs(d)})
SeqSet(l) == {l[2][i] : i \in DOMAIN l[2]}
HasUndef(l) == \E i \in DOMAIN l[2] : IsUndef(l[2][i])

RECURSIVE Value(_, _), App1(_, _), App2(_, _, _)
App1(f, x) == IF f[1] = "o" THEN Value(f[2], <<x>>)
              ELSE LET T == {t \in f[2] : t[1] = x} IN (CHOOSE t \in T : TRUE)[2]
App2(f, x, y) == IF f[1] = "o" THEN Value(f[2], <<x, y>>)
                 ELSE LET T == {t \in f[2] : t[1] = x /\ t[2] = y}
                      IN  (CHOOSE t \in T : TRUE)[3]
Truthy(o) == CASE o[1] = "b" -> o[2] [] o[1] = "n" -> o[2] # 0 [] OTHER -> TRUE

\* The value of a deterministic operation on good arguments
Value(op, a) ==
  CASE op = "couplets.transpose" -> CplTranspose(a[1])
    [] op = "couplets.compose" -> CplCompose(a[1], a[2])
    [] op = "relations.transpose" -> RelTranspose(a[1])
    [] op = "relations.compose" -> RelCompose(a[1], a[2])
    [] op = "relations.functional_union" -> FunctionalUnion(a[1], a[2])
    [] op = "relations.right_functional_union" -> RightFunctionalUnion(a[1], a[2])
    [] op = "relations.get_lefts" -> SetV(Lefts(a[1]))
    [] op = "relations.get_rights" -> SetV(Rights(a[1]))
    [] op = "relations.get_rights_for_left" ->
         IF IsUndef(a[2]) THEN Empty ELSE SetV(RightsOf(a[1], a[2]))
    [] op = "relations.get_right" -> Unique(RightsOf(a[1], a[2]))
    [] op = "relations.get_left" -> Unique(LeftsOf(a[1], a[2]))
    [] op = "relations.fill_lefts" -> FillLefts(a[1], a[2])
    [] op = "relations.rename" -> Rename(a[1], a[2])
    [] op = "relations.swap" -> Swap(a[1], a[2])
    [] op = "relations.functional_add" -> FunctionalAdd(a[1], a[2])
    [] op = "relations.from_dict" -> DictRel(a[1])
    [] op = "relations.diag" -> IF HasUndef(a[1]) THEN Undef(2) ELSE Diag(SeqSet(a[1]))
    [] op = "relations.defined_at" ->
         IF IsUndef(a[2]) THEN Undef(1) ELSE RelDefinedAt(a[1], a[2])
    [] op = "sets.union" -> SUnion(a[1], a[2])
    [] op = "sets.intersect" -> SIntersect(a[1], a[2])
    [] op = "sets.minus" -> SMinus(a[1], a[2])
    [] op = "sets.symmetric_difference" -> SUnion(SMinus(a[1], a[2]), SMinus(a[2], a[1]))
    [] op = "sets.substrict" -> SSubstrict(a[1], a[2])
    [] op = "sets.superstrict" -> SSuperstrict(a[1], a[2])
    [] op = "sets.is_subset_of" -> Bool(SSub(a[1], a[2]))
    [] op = "sets.is_superset_of" -> Bool(SSub(a[2], a[1]))
    [] op = "sets.multify" -> Multify(a[1])
    [] op = "sets.big_union" ->
         IF \E e \in El(a[1]) : ~IsSet(e) THEN Undef(2) ELSE BigUnion(a[1])
    [] op = "sets.big_intersect" ->
         IF \E e \in El(a[1]) : ~IsSet(e) THEN Undef(2) ELSE BigIntersect(a[1])
    [] op = "sets.single" ->
         IF Cardinality(El(a[1])) = 1 THEN CHOOSE e \in El(a[1]) : TRUE ELSE Undef(2)
    [] op = "sets.power_set" -> PowerSet(a[1])
    [] op = "sets.power_up" -> PowerUp(a[1])
    [] op = "sets.restrict" -> SetV({e \in El(a[1]) : Truthy(App1(a[2], e))})
    [] op = "clans.transpose" -> ClanTranspose(a[1])
    [] op = "clans.compose" -> ClanCompose(a[1], a[2])
    [] op = "clans.cross_union" -> CrossUnion(a[1], a[2])
    [] op = "clans.cross_functional_union" -> CrossFunctionalUnion(a[1], a[2])
    [] op = "clans.lhs_cross_functional_union" -> LhsCrossFunctionalUnion(a[1], a[2])
    [] op = "clans.cross_right_functional_union" -> CrossRightFunctionalUnion(a[1], a[2])
    [] op = "clans.cross_intersect" -> CrossIntersect(a[1], a[2])
    [] op = "clans.substrict" -> ClanSubstrict(a[1], a[2])
    [] op = "clans.superstrict" -> ClanSuperstrict(a[1], a[2])
    [] op = "clans.get_lefts" -> ClanLefts(a[1])
    [] op = "clans.get_rights" -> ClanRights(a[1])
    [] op = "clans.project" -> IF HasUndef(a[2]) THEN Undef(2) ELSE ClanProject(a[1], SeqSet(a[2]))
    [] op = "clans.from_set" -> SetV({SetV({Cpl(a[1], x)}) : x \in SeqSet(a[2])})
    [] op = "clans.from_dict" -> SetV({DictRel(a[1])})
    [] op = "clans.diag" -> IF HasUndef(a[1]) THEN Undef(2) ELSE SetV({Diag(SeqSet(a[1]))})
    [] op = "clans.defined_at" -> ClanDefinedAt(a[1], a[2])
    [] op = "multisets.union" -> MUnion(a[1], a[2])
    [] op = "multisets.intersect" -> MIntersect(a[1], a[2])
    [] op = "multisets.minus" -> MMinus(a[1], a[2])
    [] op = "multisets.add" -> MAdd(a[1], a[2])
    [] op = "multisets.substrict" -> MSubstrict(a[1], a[2])
    [] op = "multisets.superstrict" -> MSuperstrict(a[1], a[2])
    [] op = "multisets.is_subset_of" -> Bool(MSub(a[1], a[2]))
    [] op = "multisets.is_superset_of" -> Bool(MSub(a[2], a[1]))
    [] op = "multisets.demultify" -> Demultify(a[1])
    [] op = "multisets.big_union" ->
         IF \E e \in El(a[1]) : ~IsMSet(e) THEN Undef(1) ELSE MBigUnion(a[1])
    [] op = "multisets.big_intersect" ->
         IF \E e \in El(a[1]) : ~IsMSet(e) THEN Undef(1) ELSE MBigIntersect(a[1])
    [] op = "multisets.single" ->
         IF Card(a[1]) = 1 THEN CHOOSE e \in Keys(a[1]) : TRUE ELSE Undef(2)
    [] op = "multiclans.transpose" -> MClanTranspose(a[1])
    [] op = "multiclans.compose" -> MClanCompose(a[1], a[2])
    [] op = "multiclans.cross_union" -> MCrossUnion(a[1], a[2])
    [] op = "multiclans.cross_functional_union" -> MCrossFunctionalUnion(a[1], a[2])
    [] op = "multiclans.cross_right_functional_union" -> MCrossRightFunctionalUnion(a[1], a[2])
    [] op = "multiclans.cross_intersect" -> MCrossIntersect(a[1], a[2])
    [] op = "multiclans.substrict" -> MClanSubstrict(a[1], a[2])
    [] op = "multiclans.superstrict" -> MClanSuperstrict(a[1], a[2])
    [] op = "multiclans.get_lefts" -> MClanLefts(a[1])
    [] op = "multiclans.get_rights" -> MClanRights(a[1])
    [] op = "multiclans.get_rights_for_left" ->
         IF IsUndef(a[2]) THEN Empty ELSE MClanRightsFor(a[1], a[2])
    [] op = "multiclans.project" -> IF HasUndef(a[2]) THEN Undef(2) ELSE MClanProject(a[1], SeqSet(a[2]))
    [] op = "multiclans.from_dict" -> MSet({<<DictRel(a[1]), 1>>})
    [] op = "multiclans.diag" ->
         IF HasUndef(a[1]) THEN Undef(2) ELSE MSet({<<Diag(SeqSet(a[1])), 1>>})
    [] op = "multiclans.defined_at" -> MClanDefinedAt(a[1], a[2])
    [] op = "extension.unary_extend" -> UnaryExtend(a[1], LAMBDA x : App1(a[2], x))
    [] op = "extension.binary_extend" -> BinaryExtend(a[1], a[2], LAMBDA x, y : App2(a[3], x, y))
    [] op = "extension.unary_multi_extend" -> UnaryMultiExtend(a[1], LAMBDA x : App1(a[2], x))
    [] op = "extension.binary_multi_extend" ->
         BinaryMultiExtend(a[1], a[2], LAMBDA x, y : App2(a[3], x, y))
    [] op = "couplets.is_reflexive" -> Bool(L(a[1]) = R(a[1]))
    [] op \in {"relations.is_functional"} -> Bool(IsFunctionalR(a[1]))
    [] op \in {"relations.is_right_functional"} -> Bool(IsRightFunctionalR(a[1]))
    [] op = "relations.is_reflexive" -> Bool(Reflexive(a[1]))
    [] op = "relations.is_symmetric" -> Bool(Symmetric(a[1]))
    [] op = "relations.is_transitive" -> Bool(Transitive(a[1]))
    [] op = "clans.is_functional" -> Bool(ClanProp("functional", El(a[1])))
    [] op = "clans.is_right_functional" -> Bool(ClanProp("right_functional", El(a[1])))
    [] op = "clans.is_reflexive" -> Bool(ClanProp("reflexive", El(a[1])))
    [] op = "clans.is_symmetric" -> Bool(ClanProp("symmetric", El(a[1])))
    [] op = "clans.is_transitive" -> Bool(ClanProp("transitive", El(a[1])))
    [] op = "clans.is_regular" -> Bool(ClanProp("regular", El(a[1])))
    [] op = "clans.is_right_regular" -> Bool(ClanProp("right_regular", El(a[1])))
    [] op = "multiclans.is_functional" -> Bool(ClanProp("functional", Keys(a[1])))
    [] op = "multiclans.is_right_functional" -> Bool(ClanProp("right_functional", Keys(a[1])))
    [] op = "multiclans.is_reflexive" -> Bool(ClanProp("reflexive", Keys(a[1])))
    [] op = "multiclans.is_symmetric" -> Bool(ClanProp("symmetric", Keys(a[1])))
    [] op = "multiclans.is_transitive" -> Bool(ClanProp("transitive", Keys(a[1])))
    [] op = "multiclans.is_regular" -> Bool(ClanProp("regular", Keys(a[1])))
    [] op = "multiclans.is_right_regular" -> Bool(ClanProp("right_regular", Keys(a[1])))
    [] op = "couplets.is_member" -> Bool(IsMO(a[1]) /\ IsMember("couplets", a[1]))
    [] op = "sets.is_member" -> Bool(IsMO(a[1]) /\ IsMember("sets", a[1]))
    [] op = "relations.is_member" -> Bool(IsMO(a[1]) /\ IsMember("relations", a[1]))
    [] op = "clans.is_member" -> Bool(IsMO(a[1]) /\ IsMember("clans", a[1]))
    [] op = "multisets.is_member" -> Bool(IsMO(a[1]) /\ IsMember("multisets", a[1]))
    [] op = "multiclans.is_member" -> Bool(IsMO(a[1]) /\ IsMember("multiclans", a[1]))
    [] op = "couplets.is_member_or_undef" -> Bool(IsUndef(a[1]) \/ IsMember("couplets", a[1]))
    [] op = "sets.is_member_or_undef" -> Bool(IsUndef(a[1]) \/ IsMember("sets", a[1]))
    [] op = "relations.is_member_or_undef" -> Bool(IsUndef(a[1]) \/ IsMember("relations", a[1]))
    [] op = "clans.is_member_or_undef" -> Bool(IsUndef(a[1]) \/ IsMember("clans", a[1]))
    [] op = "multisets.is_member_or_undef" -> Bool(IsUndef(a[1]) \/ IsMember("multisets", a[1]))
    [] op = "multiclans.is_member_or_undef" -> Bool(IsUndef(a[1]) \/ IsMember("multiclans", a[1]))
    [] op = "couplets.is_absolute_member" -> Bool(IsAbsMember("couplets", a[1]))
    [] op = "sets.is_absolute_member" -> Bool(IsAbsMember("sets", a[1]))
    [] op = "relations.is_absolute_member" -> Bool(IsAbsMember("relations", a[1]))
    [] op = "clans.is_absolute_member" -> Bool(IsAbsMember("clans", a[1]))
    [] op = "multisets.is_absolute_member" -> Bool(IsAbsMember("multisets", a[1]))
    [] op = "multiclans.is_absolute_member" -> Bool(IsAbsMember("multiclans", a[1]))
    [] op = "mo.eq" -> Bool(a[1] = a[2])
    [] op = "mo.ne" -> Bool(a[1] # a[2])
    [] op = "mo.is_empty" -> Bool(a[1] \in {Empty, MEmpty})
    [] op \in {"mo.len", "mo.cardinality"} ->
         Nat_(IF IsSet(a[1]) THEN Cardinality(El(a[1])) ELSE Card(a[1]))
    [] op \in {"mo.has_element", "mo.contains"} ->
         Bool(a[2] \in (IF IsSet(a[1]) THEN El(a[1]) ELSE Keys(a[1])))
    [] op = "mo.multiplicity" -> Nat_(Mult(a[1], a[2]))
    [] op = "mo.copy" -> a[1]
    [] op = "mo.left" -> L(a[1])
    [] op = "mo.right" -> R(a[1])
    [] op = "mo.kinds" -> List(<<Bool(IsAtom(a[1])), Bool(IsCpl(a[1])), Bool(IsSet(a[1])), Bool(IsMSet(a[1]))>>)
    [] OTHER -> <<"unknown operation", op>>

\* chain_binary_operation(set, binary op, membership test): defined here when
\* the operation is associative and commutative on the members
RECURSIVE FoldOp(_, _)
FoldOp(f, X) == LET x == CHOOSE y \in X : TRUE
                IN  IF Cardinality(X) = 1 THEN x ELSE App2(f, x, FoldOp(f, X \ {x}))
Chain(s, f, member) ==
  IF El(s) = {} THEN s
  ELSE IF \E e \in El(s) : Value(member, <<e>>) # Bool(TRUE) THEN Undef(1)
  ELSE FoldOp(f, El(s))

Body(op, a) ==
  CASE op = "sets.some" -> IF El(a[1]) = {} THEN {Undef(2)} ELSE El(a[1])
    [] op = "multisets.some" -> IF Keys(a[1]) = {} THEN {Undef(2)} ELSE Keys(a[1])
    [] op = "sets.chain_binary_operation" -> {Chain(a[1], a[2], a[3][2])}
    [] op = "properties.is_functional" -> Q("functional", a[1])
    [] op = "properties.is_right_functional" -> Q("right_functional", a[1])
    [] op = "properties.is_reflexive" -> Q("reflexive", a[1])
    [] op = "properties.is_symmetric" -> Q("symmetric", a[1])
    [] op = "properties.is_transitive" -> Q("transitive", a[1])
    [] op = "properties.is_regular" -> Q("regular", a[1])
    [] op = "properties.is_right_regular" -> Q("right_regular", a[1])
    [] op = "properties.is_bijective" -> QAll(<<"functional", "right_functional">>, a[1])
    [] op = "properties.is_equivalence_relation" ->
         QAll(<<"symmetric", "transitive", "reflexive">>, a[1])
    [] op = "mo.get_left_set" -> LeftSet("l", a[1])
    [] op = "mo.get_right_set" -> LeftSet("r", a[1])
    \* lookups: severity 9 = undefined, whether it also raises is left open
    [] op = "mo.call" ->
         IF IsRel(a[1]) /\ IsFunctionalR(a[1])
         THEN (LET X == RightsOf(a[1], a[2]) IN IF X = {} THEN {Undef(9)} ELSE X)
         ELSE {Undef(9)}
    [] op = "mo.getitem" ->
         {CASE IsRel(a[1])  -> SetV(RightsOf(a[1], a[2]))
            [] IsClan(a[1]) -> ClanRightsFor(a[1], a[2])
            [] IsMSet(a[1]) /\ \A k \in Keys(a[1]) : IsCpl(k) -> MultirelRightsFor(a[1], a[2])
            [] IsMClan(a[1]) -> MClanRightsFor(a[1], a[2])
            [] OTHER -> Undef(9)}
    [] OTHER -> {Value(op, a)}

Answers(op, a) ==
  LET sig == Sig(op)
      bad == {i \in DOMAIN sig : ~KindOk(sig[i], a[i])}
  IN  IF bad # {} THEN {Undef(BadSev(op, a[i])) : i \in bad} ELSE Body(op, a)

\* Operations that lift a partial operation over elements: an undefined
\* partial result may itself raise when the level covers its severity.
LiftSev(op) ==
  CASE op \in {"clans.defined_at", "multiclans.defined_at"} -> 1
    [] op \in {"relations.compose", "relations.rename", "relations.swap",
               "clans.compose", "clans.project", "clans.cross_functional_union",
               "clans.lhs_cross_functional_union", "clans.cross_right_functional_union",
               "clans.substrict", "clans.superstrict",
               "multiclans.compose", "multiclans.project", "multiclans.cross_functional_union",
               "multiclans.cross_right_functional_union", "multiclans.substrict",
               "multiclans.superstrict", "extension.unary_extend", "extension.binary_extend",
               "extension.unary_multi_extend", "extension.binary_multi_extend",
               "sets.chain_binary_operation"} -> 2
    [] op \in {"mo.get_left_set", "mo.get_right_set"} -> 1
    [] op \in {"properties.is_regular", "properties.is_right_regular"} -> 1
    [] OTHER -> 9

Accepts(op, a, lv, r) ==
  LET ans == IF op = "mo.iter" THEN {} ELSE Answers(op, a)
  IN  CASE IsUndef(r) -> \E e \in ans : IsUndef(e) /\ (e[2] > lv)
        [] op = "mo.iter" ->      \* iteration lists every element as often as it occurs
             /\ r[1] = "l"
             /\ {<<x, Cardinality({i \in DOMAIN r[2] : r[2][i] = x})>> : x \in SeqSet(r)} = AsBag(a[1])
        [] r = Exc("UndefException") ->
             \/ \E e \in ans : IsUndef(e) /\ (e[2] <= lv \/ (e[2] = 9 /\ lv >= 1))
             \/ LiftSev(op) <= lv
        [] OTHER -> r \in ans
=============================================================================
