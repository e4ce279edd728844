--------------------------- MODULE ObjectStoreMC ---------------------------
(***************************************************************************)
(* Exhaustive exploration of ObjectStore over a tiny universe: objects are *)
(* made, asked, and combined in every order; each question lets the object *)
(* remember the answer.  Checks the state-machine properties and that an   *)
(* answer given once is the answer given ever after.                       *)
(***************************************************************************)
EXTENDS ObjectStore

CONSTANTS Scope    \* "small" or "large"

P == Atom("p")
Q_ == Atom("q")
PP == Cpl(P, P)
PQ == Cpl(P, Q_)
Seeds == {SetV({PP, PQ}), SetV({SetV({PQ})}), MSet({<<SetV({PQ}), 2>>}), Empty}
         \cup IF Scope = "small" THEN {} ELSE {PQ, SetV({SetV({PQ}), Empty}), MEmpty}
Asked == IF Scope = "small" THEN {"functional", "regular"} ELSE {"functional", "reflexive", "regular"}
MaxObjs == 3
Small(v) == ~IsSet(v) \/ Cardinality(El(v)) <= 2

\* asking question p of object h
Ask(h, p) ==
  \E t \in Truth(p, heap[h]) :
    LET j == CHOOSE k \in FlagIdx : FlagNames[k] = p
        f == CASE t = "IS" -> 1 [] t = "NOT" -> 2 [] t = "NA" -> 3
        G == [mem EXCEPT ![h][j] = IF @ = 0 THEN f ELSE @]
        r == LET ex == T2O(t) IN IF IsUndef(ex) THEN (IF lvl >= 2 THEN Exc("UndefException") ELSE Undef(0)) ELSE ex
    IN  /\ p \in Props
        /\ mem[h][j] \in {0, f}
        /\ Invoke("properties.is_" \o p, <<heap[h]>>, r, FALSE, Nothing, G)

Unary == {"relations.transpose", "clans.transpose", "sets.multify", "multisets.demultify"}
         \cup IF Scope = "small" THEN {} ELSE {"multiclans.transpose", "sets.power_up", "relations.get_lefts"}
Binary == {"sets.union", "relations.compose"}
         \cup IF Scope = "small" THEN {} ELSE {"sets.minus", "clans.cross_functional_union"}
Outcome2(e, l) == IF IsUndef(e) THEN (IF e[2] <= l THEN Exc("UndefException") ELSE Undef(0)) ELSE e
Outcome(e) == IF IsUndef(e) THEN (IF e[2] <= lvl THEN Exc("UndefException") ELSE Undef(0)) ELSE e

Apply(op, a) ==
  \E e \in Answers(op, a) :
    LET r == Outcome(e) IN
    /\ Invoke(op, a, r, IsMO(r) /\ Len(heap) < MaxObjs /\ Small(r), Nothing, mem)

Next == \/ \E v \in Seeds : Len(heap) < 2 /\ Make(v, Nothing)
        \/ \E h \in Handles, p \in Asked : Ask(h, p)
        \/ \E op \in Unary, h \in Handles : Apply(op, <<heap[h]>>)
        \/ \E op \in Binary, h, k \in Handles : Apply(op, <<heap[h], heap[k]>>)
        \/ \E n \in 0..2 : n # lvl /\ Len(heap) < 2 /\ SetLevel(n)
Spec == Init /\ [][Next]_vars

\* An answer never depends on the level: the level only decides whether an
\* undefined outcome raises.
Levels == \A op \in Unary \cup Binary : \A h, k \in Handles : \A e \in Answers(op, <<heap[h], heap[k]>>) :
            \A l \in 0..2 : Accepts(op, <<heap[h], heap[k]>>, l, Outcome2(e, l))
View == <<heap, mem, lvl>>
TypeOK == /\ Len(heap) <= MaxObjs /\ Len(mem) = Len(heap)
          /\ \A h \in Handles : IsMO(heap[h])
=============================================================================
