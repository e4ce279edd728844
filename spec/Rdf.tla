-------------------------------- MODULE Rdf --------------------------------
(***************************************************************************)
(* Graph pattern matching and joins, by their meaning: bindings.           *)
(***************************************************************************)
EXTENDS Calls

RdfOps == {"rdf.triple_match", "rdf.join", "rdf.match_and_project", "rdf.pattern_match",
           "rdf.is_triple", "rdf.is_absolute_triple", "rdf.is_graph", "rdf.is_absolute_graph",
           "rdf.make_triple", "rdf.file_url"}

S_ == Atom("str:'s'")
P_ == Atom("str:'p'")
O_ == Atom("str:'o'")
SPO == {S_, P_, O_}
IsTriple(v) == IsMO(v) /\ IsRel(v) /\ Cardinality(El(v)) = 3 /\ Lefts(v) = SPO
IsGraph(v) == /\ IsMO(v) /\ IsClan(v) /\ El(v) # {}
              /\ \A t \in El(v) : IsTriple(t)
TermAt(t, pos) == CHOOSE x \in Rights(t) : Cpl(pos, x) \in El(t)

\* a position of a pattern: Undef (anything), <<"l", <<Txt("var"), name>>>>, or a fixed value
IsVar(x) == x[1] = "l"
Name(x) == x[2][2]
\* Solutions: one binding of the variables for every triple that agrees on the fixed positions
TripleMatch(g, q) ==
  LET pat == [p \in SPO |-> q[CASE p = S_ -> 1 [] p = P_ -> 2 [] p = O_ -> 3]]
      fits(t) == \A p \in SPO : IsUndef(pat[p]) \/ IsVar(pat[p]) \/ TermAt(t, p) = pat[p]
  IN  SetV({SetV({Cpl(Name(pat[p]), TermAt(t, p)) : p \in {x \in SPO : IsVar(pat[x])}})
              : t \in {u \in El(g) : fits(u)}})

\* Compatible combinations: one solution of each set, agreeing wherever they bind the same variable
RECURSIVE JoinAll(_)
Compatible(x, y) == \A c \in El(x), d \in El(y) : L(c) = L(d) => R(c) = R(d)
JoinTwo(A, B) == {SetV(El(p[1]) \cup El(p[2])) : p \in {q \in A \X B : Compatible(q[1], q[2])}}
JoinAll(q) == IF Len(q) = 1 THEN El(q[1]) ELSE JoinTwo(JoinAll(SubSeq(q, 1, Len(q) - 1)), El(q[Len(q)]))

\* pattern and projection: dictionaries <<"l", <<k, v, k, v ...>>>>
PatternMatch(g, d) ==
  {t \in El(g) : \A p \in DictPairs(d) : Cpl(p[1], p[2]) \in El(t)}
MatchAndProject(g, d, pr) ==
  SetV({SetV(UNION {{Cpl(p[2], x) : x \in RightsOf(t, p[1])} : p \in DictPairs(pr)})
          : t \in PatternMatch(g, d)})

RdfExpected(op, a) ==
  CASE op = "rdf.triple_match" -> TripleMatch(a[1], <<a[2], a[3], a[4]>>)
    [] op = "rdf.join" -> SetV(JoinAll(a[1][2]))
    [] op = "rdf.pattern_match" -> SetV(PatternMatch(a[1], a[2]))
    [] op = "rdf.match_and_project" -> MatchAndProject(a[1], a[2], a[3])
    [] op = "rdf.is_triple" -> Bool(IsTriple(a[1]))
    [] op = "rdf.is_absolute_triple" -> Bool(IsTriple(a[1]) /\ AbsRel(a[1]))
    [] op = "rdf.is_graph" -> Bool(IsGraph(a[1]))
    [] op = "rdf.is_absolute_graph" -> Bool(IsGraph(a[1]) /\ \A t \in El(a[1]) : AbsRel(t))
    [] op = "rdf.make_triple" ->
         SetV({Cpl(S_, a[1]), Cpl(P_, a[2]), Cpl(O_, a[3])})
    [] op = "rdf.file_url" -> List(<<Bool(TRUE), a[1]>>)
RdfAccepts(op, a, lv, r) == r = RdfExpected(op, a)
=============================================================================
