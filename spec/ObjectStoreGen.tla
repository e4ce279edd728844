--------------------------- MODULE ObjectStoreGen ---------------------------
(***************************************************************************)
(* Generation of behaviours of ObjectStore (TLC in simulation mode), which *)
(* the harness replays into the real library.  Every step writes what the  *)
(* library has to do into the log: the call, its outcome, and for a new    *)
(* object the answers that it may ever remember.  Objects of many shapes   *)
(* are made, asked and combined with each other; arguments are mostly of   *)
(* the right kind.  Only calls with exactly one possible outcome are made. *)
(***************************************************************************)
EXTENDS ObjectStore, Json, IOUtils

CONSTANT Depth
VARIABLES log, step
gvars == <<vars, log, step>>

Pick(S) == {RandomElement(S)}
Atoms == {Atom("p"), Atom("q"), Atom("r")}
Cpls == {Cpl(x, y) : x, y \in Atoms}

(* ------------------------------- new objects --------------------------- *)
Themes == {"any", "functional", "right", "diag", "symmetric", "transitive", "equivalence", "full", "few"}
RECURSIVE Close(_)
Close(X) == LET M == {Cpl(L(p[1]), R(p[2])) : p \in {q \in X \X X : R(q[1]) = L(q[2])}}
            IN  IF M \subseteq X THEN X ELSE Close(X \cup M)
Themed(t, X, f) ==
  CASE t = "any"         -> X
    [] t = "functional"  -> {Cpl(x, f[x]) : x \in {L(c) : c \in X}}
    [] t = "right"       -> {Cpl(f[y], y) : y \in {R(c) : c \in X}}
    [] t = "diag"        -> {Cpl(x, x) : x \in {L(c) : c \in X}}
    [] t = "symmetric"   -> X \cup {CplTranspose(c) : c \in X}
    [] t = "transitive"  -> Close(X)
    [] t = "equivalence" -> Close(X \cup {CplTranspose(c) : c \in X})
    [] t = "full"        -> {Cpl(x, y) : x, y \in {L(c) : c \in X}}
    [] t = "few"         -> {c \in X : L(c) = Atom("p")}
\* some relations of one theme
Rels(n) == {SetV(Themed(t, X, f)) : t \in Pick(Themes), X \in {RandomElement(SUBSET Cpls) : k \in 1..n},
                                    f \in Pick([Atoms -> Atoms])}
Shapes == {"atom", "couplet", "rel", "rel2", "rel3", "clan", "clan2", "mclan", "mclan2", "set", "mset", "tower",
           "empty", "mempty", "odd", "table", "table2", "mtable"}
\* rows over the same columns
Rows(n) == {SetV({Cpl(l, f[l]) : l \in C}) : C \in Pick((SUBSET Atoms) \ {{}, Atoms}),
                                             f \in {RandomElement([Atoms -> Atoms]) : k \in 1..n}}
Fresh(shape) ==
  CASE shape = "atom"    -> Pick(Atoms)
    [] shape = "couplet" -> Pick(Cpls)
    [] shape \in {"rel", "rel2", "rel3"} -> Rels(1)
    [] shape \in {"clan", "clan2"} -> {SetV(Rels(RandomElement(1..3)))}
    [] shape \in {"mclan", "mclan2"} -> {MSet({<<r, RandomElement(1..3)>> : r \in Rels(2)})}
    [] shape = "set"     -> {SetV(RandomElement(SUBSET Atoms) \cup RandomElement(SUBSET {Empty, MEmpty, Cpl(Atom("p"), Empty)}))}
    [] shape = "mset"    -> {MSet({<<x, RandomElement(1..3)>> : x \in RandomElement(SUBSET (Atoms \cup {Empty}))})}
    [] shape = "tower"   -> {SetV({SetV(Rels(2)), SetV(Rels(1))})}
    [] shape = "empty"   -> {Empty}
    [] shape = "mempty"  -> {MEmpty}
    [] shape \in {"table", "table2"} -> {SetV(Rows(RandomElement(1..3)))}
    [] shape = "mtable"  -> {MSet({<<r, RandomElement(1..3)>> : r \in Rows(2)})}
    [] shape = "odd"     -> {SetV({x}) : x \in Rels(1)} \cup {MSet({<<SetV({Atom("p")}), 2>>})}

RECURSIVE Size(_)
Size(v) == CASE v[1] = "c" -> 1 + Size(v[2]) + Size(v[3])
             [] v[1] = "s" -> 1 + MapThenSumSet(Size, v[2])
             [] v[1] = "m" -> 1 + MapThenSumSet(LAMBDA p : Size(p[1]), v[2])
             [] OTHER -> 1
MayRemember(v) == [j \in FlagIdx |-> {f \in 1..3 : FlagVal(f) \in Truth(FlagNames[j], v)}]

(* --------------------------------- calls ------------------------------- *)
Algs == {"couplets", "sets", "relations", "clans", "multisets", "multiclans"}
MemberOps == {g \o m : g \in Algs, m \in {".is_member", ".is_absolute_member"}}
Unary == {"couplets.transpose", "relations.transpose", "relations.get_lefts", "relations.get_rights",
          "sets.multify", "sets.big_union", "sets.big_intersect", "sets.single", "sets.power_up",
          "clans.transpose", "clans.get_lefts", "clans.get_rights",
          "multisets.demultify", "multisets.big_union", "multisets.big_intersect", "multisets.single",
          "multiclans.transpose", "multiclans.get_lefts", "multiclans.get_rights"}
Binary == {"couplets.compose", "relations.compose", "relations.functional_union",
           "relations.right_functional_union", "relations.fill_lefts", "relations.rename", "relations.swap",
           "relations.functional_add",
           "sets.union", "sets.intersect", "sets.minus", "sets.substrict", "sets.superstrict",
           "sets.is_subset_of", "sets.is_superset_of",
           "clans.compose", "clans.cross_union", "clans.cross_functional_union",
           "clans.lhs_cross_functional_union", "clans.cross_right_functional_union",
           "clans.cross_intersect", "clans.substrict", "clans.superstrict",
           "multisets.union", "multisets.intersect", "multisets.minus", "multisets.add",
           "multisets.substrict", "multisets.superstrict", "multisets.is_subset_of", "multisets.is_superset_of",
           "multiclans.compose", "multiclans.cross_union", "multiclans.cross_functional_union",
           "multiclans.cross_right_functional_union", "multiclans.cross_intersect",
           "multiclans.substrict", "multiclans.superstrict"}
Lookups == {"relations.get_rights_for_left", "relations.get_right", "relations.get_left", "relations.defined_at",
            "clans.defined_at", "multiclans.get_rights_for_left", "multiclans.defined_at", "mo.call", "mo.getitem"}
Queries == {"properties.is_functional", "properties.is_right_functional", "properties.is_bijective",
            "properties.is_reflexive", "properties.is_symmetric", "properties.is_transitive",
            "properties.is_equivalence_relation", "properties.is_regular", "properties.is_right_regular",
            "mo.get_left_set", "mo.get_right_set", "mo.is_empty", "mo.copy"} \cup MemberOps

Asking == {q \in Queries : q \notin {"mo.get_left_set", "mo.get_right_set", "mo.is_empty", "mo.copy"}}
Cand(op, i) == LET S == {h \in Handles : op \in Queries \/ Sig(op) = <<>> \/ KindOk(Sig(op)[i], heap[h])}
               IN  IF S = {} \/ RandomElement(1..12) = 1 THEN Handles ELSE S
Outcomes(op, a) == {IF IsUndef(e) THEN (IF e[2] <= lvl THEN Exc("UndefException") ELSE Undef(0)) ELSE e : e \in Answers(op, a)}
Settled(op, a) == /\ LiftSev(op) > lvl
                  /\ op \in {"mo.call", "mo.getitem"} => lvl = 0
                  /\ Cardinality(Outcomes(op, a)) = 1

Made(v) == [e |-> "make", v |-> Enc(v), t |-> MayRemember(v)]
Call(op, hs, key, r, fresh) ==
  [e |-> "call", op |-> op, h |-> hs, key |-> key, r |-> Enc(r), new |-> fresh, lv |-> lvl,
   t |-> IF fresh THEN MayRemember(r) ELSE <<>>]

\* call op on the objects hs (and a plain key), if that is settled
Do(op, hs, key) ==
  LET a == [k \in DOMAIN hs |-> heap[hs[k]]] \o key
  IN  IF Settled(op, a)
      THEN \E r \in Outcomes(op, a) : \E fresh \in {IsMO(r) /\ ~IsAtom(r) /\ Size(r) <= 40 /\ Len(heap) < 14
                                                       /\ (r \notin {Empty, MEmpty} \/ RandomElement(1..6) = 1)} :
             /\ Invoke(op, a, r, fresh, Nothing, mem)
             /\ log' = Append(log, Call(op, hs, [k \in DOMAIN key |-> Enc(key[k])], r, fresh))
      ELSE UNCHANGED <<vars, log>>

Key(v) == LET S == CASE IsRel(v) -> Lefts(v)
                     [] IsClan(v) -> UNION {Lefts(r) : r \in El(v)}
                     [] IsMClan(v) -> UNION {Lefts(r) : r \in Keys(v)}
                     [] OTHER -> {}
          IN  Pick(S \cup {Atom("p")})

GMake == IF Len(heap) < 14
         THEN \E s \in Pick(Shapes) : \E v \in Fresh(s) : Make(v, Nothing) /\ log' = Append(log, Made(v))
         ELSE UNCHANGED <<vars, log>>
GUnary == \E op \in Pick(Unary) : \E h \in Pick(Cand(op, 1)) : Do(op, <<h>>, <<>>)
GBinary == \E op \in Pick(Binary) : \E h \in Pick(Cand(op, 1)) : \E k \in Pick(Cand(op, 2)) : Do(op, <<h, k>>, <<>>)
GLookup == \E op \in Pick(Lookups) : \E h \in Pick(Cand(op, 1)) : \E k \in Key(heap[h]) : Do(op, <<h>>, <<k>>)
Solid == LET S == {h \in Handles : ~IsAtom(heap[h]) /\ heap[h] \notin {Empty, MEmpty}} IN IF S = {} THEN Handles ELSE S
GQuery == \E op \in Pick(Queries) : \E h \in Pick(Solid) : Do(op, <<h>>, <<>>)
\* ask one object (nearly) everything
GSurvey == \E h \in Pick(Solid) :
             \E qs \in {SetToSeq({op \in Asking : RandomElement(1..5) > 1 /\ Settled(op, <<heap[h]>>)})} :
               /\ log' = log \o [k \in DOMAIN qs |-> Call(qs[k], <<h>>, <<>>,
                                   CHOOSE r \in Outcomes(qs[k], <<heap[h]>>) : TRUE, FALSE)]
               /\ UNCHANGED vars
GLevel == \E n \in {IF lvl = 0 THEN RandomElement(1..3) ELSE 0} : SetLevel(n) /\ log' = Append(log, [e |-> "level", n |-> n])

GInit == Init /\ log = <<>> /\ step = 0
GNext == /\ step < Depth
         /\ step' = step + 1
         /\ \E k \in Pick(1..40) :
              CASE step < 4 \/ k \in 1..2 -> GMake
                [] k \in 3..8   -> GUnary
                [] k \in 9..22  -> GBinary
                [] k \in 23..26 -> GLookup
                [] k \in 27..33 -> GQuery
                [] k \in 34..38 -> GSurvey
                [] k = 39 \/ (k = 40 /\ lvl > 0) -> GLevel
                [] OTHER -> GMake
GSpec == GInit /\ [][GNext]_gvars

Emit == step = Depth => PrintT("BEH " \o ToJson(log))
GImmutable == [][\A h \in Handles : heap'[h] = heap[h]]_gvars
=============================================================================
