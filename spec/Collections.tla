---------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* Partitions, ordered slices of multiclans, constructors, and calls of    *)
(* the structure (ground set) classes.                                     *)
(***************************************************************************)
EXTENDS Calls

(* ------------------------------ partitions ------------------------------ *)
\* Parts of the collection v by the classifying function f.
Classes(v, f) == {App1(f, p[1]) : p \in AsBag(v)}
Part(v, f, k) ==
  IF IsSet(v) THEN SetV({e \in El(v) : App1(f, e) = k})
  ELSE MSet({p \in Bag(v) : App1(f, p[1]) = k})
Partition(v, f) == SetV({Part(v, f, k) : k \in Classes(v, f)})
LabeledPartition(v, f) == SetV({Cpl(k, Part(v, f, k)) : k \in Classes(v, f)})
PartitionAnswer(op, a) ==
  CASE ~(IsSet(a[1]) \/ IsMSet(a[1])) -> Exc("AssertionError")
    [] op = "partition.partition" -> Partition(a[1], a[2])
    [] OTHER -> LabeledPartition(a[1], a[2])

(* -------------------------------- slices -------------------------------- *)
SumMult(X) == MapThenSumSet(LAMBDA p : p[2], X)
\* q: a list of <<row, count>>; is it the part of an ordered listing of m (every row as often as it
\* occurs, ranks never decreasing, rank given by Rk) at the positions offset <= i < offset + limit?
SliceOk(q, m, Rk(_), offset, limit) ==
  LET total == Card(m)
      end == IF limit < 0 \/ offset + limit > total THEN total ELSE offset + limit
      expected == IF end > offset THEN end - offset ELSE 0
      n == Len(q)
      listed == {q[i][1] : i \in 1..n}
      full(i) == q[i][2] = Mult(m, q[i][1])
      rest == {p \in Bag(m) : p[1] \notin listed}
  IN  /\ Cardinality(listed) = n
      /\ listed \subseteq Keys(m)
      /\ \A i \in 1..n : q[i][2] >= 1 /\ q[i][2] <= Mult(m, q[i][1])
      /\ \A i \in 2..(n - 1) : full(i)
      /\ \A i, j \in 1..n : i < j => Rk(q[i][1]) <= Rk(q[j][1])
      /\ MapThenSumSet(LAMBDA i : q[i][2], 1..n) = expected
      /\ IF n = 0 THEN TRUE ELSE
         \E P \in SUBSET rest :          \* the rows wholly before the slice
           LET cut == offset - SumMult(P)       \* how much of the first row is before the slice
               m1 == Mult(m, q[1][1])
           IN  /\ cut >= 0 /\ cut < m1
               /\ IF n = 1 THEN q[1][2] = Min2(m1 - cut, expected)
                  ELSE q[1][2] = m1 - cut
               /\ \A p \in P : /\ \A i \in 1..n : Rk(p[1]) <= Rk(q[i][1])
                               /\ \A r \in rest \ P : Rk(p[1]) <= Rk(r[1])
               /\ \A r \in rest \ P : \A i \in 1..n : Rk(q[i][1]) <= Rk(r[1])
RankIn(f, e) == (CHOOSE t \in f[2] : t[1] = e)[2][2]
\* an argument that must be a whole number (atom or plain); "inf" is an unlimited limit
NumOk(x) == x[1] = "n" \/ x = Txt("inf")
Num(x) == IF x[1] = "n" THEN x[2] ELSE -1
PairsOf(l) == [i \in DOMAIN l[2] |-> <<l[2][i][2][1], l[2][i][2][2][2]>>]
IsPairs(r) == /\ r[1] = "l"
              /\ \A i \in DOMAIN r[2] : /\ r[2][i][1] = "l" /\ Len(r[2][i][2]) = 2
                                        /\ r[2][i][2][2][1] = "n"
SliceBad(a) ==      \* a: multiclan, offset, limit
  {Undef(IF IsUndef(x) THEN 2 ELSE 1) :
     x \in {y \in {a[1]} : ~(IsMO(y) /\ IsMClan(y))} \cup {y \in {a[2]} : y[1] # "n"}
           \cup {y \in {a[3]} : ~NumOk(y)}}
AcceptsSlice(op, a, lv, r) ==
  LET ranked == op # "slice.listgen"
      off == IF ranked THEN a[3] ELSE a[2]
      lim == IF ranked THEN a[4] ELSE a[3]
      bad == SliceBad(<<a[1], off, lim>>)
      Rk(e) == IF ranked THEN RankIn(a[2], e) ELSE 0
  IN  IF bad # {} THEN
        \/ IsUndef(r) /\ \E e \in bad : e[2] > lv
        \/ r = Exc("UndefException") /\ \E e \in bad : e[2] <= lv
      ELSE IF op = "slice.order" THEN
        /\ IsMSet(r)
        /\ IF Cardinality(Bag(r)) <= 1 THEN SliceOk(SetToSeq(Bag(r)), a[1], Rk, Num(off), Num(lim))
           ELSE \E f, l \in Bag(r) : f # l /\
                  LET mid == SetToSortSeq(Bag(r) \ {f, l}, LAMBDA x, y : Rk(x[1]) < Rk(y[1]))
                  IN  SliceOk(<<f>> \o mid \o <<l>>, a[1], Rk, Num(off), Num(lim))
      ELSE IsPairs(r) /\ SliceOk(PairsOf(r), a[1], Rk, Num(off), Num(lim))

(* ----------------------------- constructors ----------------------------- *)
BagOf(l) == MSet({<<x, Cardinality({i \in DOMAIN l[2] : l[2][i] = x})>> : x \in SeqSet(l)})
CtorAnswers(op, a) ==
  CASE op = "ctor.atom" -> IF IsMO(a[1]) /\ ~IsAtom(a[1]) THEN {Exc("TypeError")} ELSE {a[1]}
    [] op = "ctor.couplet" -> {IF Len(a) = 1 THEN Cpl(a[1], a[1]) ELSE Cpl(a[1], a[2])}
    [] op = "ctor.make_couplet" ->
         {IF \E i \in DOMAIN a : IsUndef(a[i]) THEN Undef(2)
          ELSE IF Len(a) = 1 THEN Cpl(a[1], a[1]) ELSE Cpl(a[1], a[2])}
    [] op = "ctor.set" -> {SetV({x \in SeqSet(a[1]) : ~IsUndef(x)})}
    [] op = "ctor.mset" -> {BagOf(a[1])}
    [] op = "ctor.mset_counts" ->       \* <<key, n, key, n, ...>>
         LET D == DOMAIN a[1][2]
             P == {i \in D : i % 2 = 1}
         IN  IF \E i \in P : a[1][2][i + 1][1] # "n" \/ a[1][2][i + 1][2] <= 0
             THEN {Exc("AssertionError")}
             ELSE {MSet({<<k, MapThenSumSet(LAMBDA i : a[1][2][i + 1][2], {i \in P : a[1][2][i] = k})>>
                           : k \in {a[1][2][i] : i \in P}})}
    [] op = "ctor.convert" -> {a[1]}
    [] op = "ctor.value" -> {List(<<Bool(TRUE), Bool(TRUE), Bool(TRUE)>>)}
    \* the undefined value: unique, and refusing comparison and truth
    [] op = "undef.refuse" -> {Exc("TypeError")}
    [] op = "undef.same" -> {Bool(TRUE)}
    [] op = "undef.make" -> {Undef(a[1][2])}
    [] op = "undef.kinds" -> {List(<<Bool(FALSE), Bool(FALSE), Bool(FALSE), Bool(FALSE)>>)}
    [] op = "ctor.reject" -> {Exc("TypeError")}

\* a list of facts, all of them true
AllTrue(r) == r[1] = "l" /\ \A i \in DOMAIN r[2] : r[2][i] = Bool(TRUE)

(* ------------------------------ structures ------------------------------ *)
StructAnswer(op, a) ==
  CASE op = "struct.le" -> Bool(Le(SDec(a[1]), SDec(a[2])))
    [] op = "struct.eq" -> Bool(SDec(a[1]) = SDec(a[2]))
    [] op = "struct.ne" -> Bool(SDec(a[1]) # SDec(a[2]))
    [] op \in {"struct.hash_agrees", "struct.str_agrees"} -> Bool(TRUE)
    [] op = "struct.union" -> Join({SDec(a[1][2][i]) : i \in DOMAIN a[1][2]})
    [] op = "struct.level" -> Nat_(Level(SDec(a[1]), SDec(a[2])))
    [] op = "struct.ground" -> Ground(a[1])
    [] op = "struct.in" -> Bool(In(a[1], SDec(a[2])))
    [] op = "struct.evalrepr" -> SDec(a[1])
    [] op = "struct.algebra" ->
         (CASE a[1] = Txt("couplets") -> CoupletsGS [] a[1] = Txt("relations") -> RelationsGS
            [] a[1] = Txt("clans") -> ClansGS [] a[1] = Txt("sets") -> SetsGS
            [] a[1] = Txt("multisets") -> MultisetsGS [] a[1] = Txt("multiclans") -> MulticlansGS)
    [] op = "struct.absolute" ->
         (CASE a[1] = Txt("couplets") -> AbsCoupletsGS [] a[1] = Txt("relations") -> AbsRelationsGS
            [] a[1] = Txt("clans") -> AbsClansGS [] a[1] = Txt("sets") -> AbsSetsGS
            [] a[1] = Txt("multisets") -> AbsMultisetsGS [] a[1] = Txt("multiclans") -> AbsMulticlansGS)
IsStruct(j) == j[1] \in {"e", "g", "cp", "p", "un"}

(* -------------------------- order, eq, hash, print ---------------------- *)
\* e.vs: values; e.lt, e.le, e.gt, e.ge, e.eq, e.ne: matrices of answers; e.hash, e.repr, e.str:
\* for each object the index of the first object with the same hash / printed form
OrderBad(e) ==
  LET V == [i \in DOMAIN e.vs |-> Dec(e.vs[i])]
      D == DOMAIN e.vs
      same(i, j) == V[i] = V[j]
  IN  (IF e.failed = 0 THEN {} ELSE {<<"refused", e.failed>>}) \cup
      {<<"lookup", p>> : p \in {q \in D \X D : (e.dict[q[1]] = e.dict[q[2]]) # same(q[1], q[2])}} \cup
      {<<"eq/ne", p>> : p \in {q \in D \X D : e.eq[q[1]][q[2]] # same(q[1], q[2])
                                               \/ e.ne[q[1]][q[2]] = same(q[1], q[2])}} \cup
      {<<"hash/print", p>> : p \in {q \in D \X D : same(q[1], q[2]) /\
            ~(e.hash[q[1]] = e.hash[q[2]] /\ e.repr[q[1]] = e.repr[q[2]] /\ e.str[q[1]] = e.str[q[2]])}} \cup
      (IF ~e.ordered THEN {} ELSE
      {<<"trichotomy", p>> : p \in {q \in D \X D :
            Cardinality({k \in 1..3 : CASE k = 1 -> e.lt[q[1]][q[2]] [] k = 2 -> e.lt[q[2]][q[1]]
                                        [] k = 3 -> same(q[1], q[2])}) # 1}} \cup
      {<<"le/gt/ge", p>> : p \in {q \in D \X D :
            \/ e.le[q[1]][q[2]] # (e.lt[q[1]][q[2]] \/ same(q[1], q[2]))
            \/ e.gt[q[1]][q[2]] # e.lt[q[2]][q[1]]
            \/ e.ge[q[1]][q[2]] # (e.lt[q[2]][q[1]] \/ same(q[1], q[2]))}} \cup
      {<<"transitivity", t>> : t \in {u \in D \X D \X D :
            e.lt[u[1]][u[2]] /\ e.lt[u[2]][u[3]] /\ ~e.lt[u[1]][u[3]]}})
=============================================================================
