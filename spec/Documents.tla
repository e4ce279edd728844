----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* What documents denote: object JSON, CSV tables, JSON and XML trees, RDF *)
(* graphs and result tables.  Documents arrive as trees of values:         *)
(*   JSON   atom | <<"l", <<Txt("dict"), k1, v1, k2, v2 ...>>>>            *)
(*               | <<"l", <<Txt("list"), v1, v2 ...>>>>                    *)
(*   XML    <<"l", <<Txt("elem"), tag, attrs, children>>>> with attrs a    *)
(*          list name, value, name, value ... and children a list of       *)
(*          elements and non-blank texts <<"l", <<Txt("text"), value>>>>;  *)
(*          values are pairs <<"l", <<as text, as number if one>>>>        *)
(*   CSV    header: list of lefts; rows: list of lists of cells, one per   *)
(*          column; a cell is <<"l", <<as text, converted, is empty>>>>    *)
(***************************************************************************)
EXTENDS Calls

DocOps == {"mojson.roundtrip", "mojson.reject", "csv.import", "csv.roundtrip", "csv.export_rows",
           "csv.export_refused", "json.import", "xml.import", "graph.import",
           "table.json", "table.csv"}

(* --------------------------------- JSON --------------------------------- *)
RECURSIVE JsonValue(_)
JIsList(t) == t[1] = "l" /\ t[2][1] = Txt("list")
JItems(t) == {t[2][i] : i \in 2..Len(t[2])}
JEntries(t) == {<<t[2][2 * i], t[2][2 * i + 1]>> : i \in 1..((Len(t[2]) - 1) \div 2)}
JsonValue(t) ==
  IF t[1] # "l" THEN t
  ELSE IF JIsList(t) THEN SetV({JsonValue(x) : x \in JItems(t)})
  ELSE SetV(UNION {IF JIsList(e[2]) THEN {Cpl(e[1], JsonValue(x)) : x \in JItems(e[2])}
                   ELSE {Cpl(e[1], JsonValue(e[2]))} : e \in JEntries(t)})

(* ---------------------------------- XML --------------------------------- *)
XVal(p, num) == IF num THEN p[2][2] ELSE p[2][1]
Dollar == Atom("str:'$'")
RECURSIVE XmlCouplet(_, _)
XmlCouplet(t, num) ==
  IF t[2][1] = Txt("text") THEN Cpl(Dollar, XVal(t[2][2], num))
  ELSE LET at == t[2][3][2]
           ch == t[2][4][2]
           A == {Cpl(at[2 * i - 1], XVal(at[2 * i], num)) : i \in 1..(Len(at) \div 2)}
           C == {XmlCouplet(ch[i], num) : i \in DOMAIN ch}
           all == A \cup C
       IN  IF Cardinality(all) = 1 /\ \E x \in all : L(x) = Dollar
           THEN Cpl(t[2][2], R(CHOOSE x \in all : TRUE))
           ELSE Cpl(t[2][2], SetV(all))
XmlValue(t, num) == SetV({XmlCouplet(t, num)})

(* ---------------------------------- CSV --------------------------------- *)
\* typed: list of booleans per column; idx: the index column or Undef
CsvRow(h, row, typed, idx, n) ==
  LET cells == {j \in DOMAIN row[2] : row[2][j][2][3] = Bool(FALSE)}
      C == {Cpl(h[2][j], row[2][j][2][IF typed[2][j] = Bool(TRUE) THEN 2 ELSE 1]) : j \in cells}
  IN  IF IsUndef(idx) THEN SetV(C)
      ELSE SetV({x \in C : L(x) # idx} \cup {Cpl(idx, Atom("int:" \o ToString(n)))})
CsvValue(h, rows, typed, idx, dup) ==
  LET n == Len(rows[2])
      V == [i \in 1..n |-> CsvRow(h, rows[2][i], typed, idx, i - 1)]
  IN  IF dup = Bool(TRUE)
      THEN MSet({<<x, Cardinality({i \in 1..n : V[i] = x})>> : x \in {V[i] : i \in 1..n}})
      ELSE SetV({V[i] : i \in 1..n})
\* restriction of a table to columns
OnCols(r, X) == SetV({x \in El(r) : L(x) \in X})
TableOn(t, X) ==
  IF IsSet(t) THEN SetV({OnCols(r, X) : r \in El(t)})
  ELSE LET K == {OnCols(r, X) : r \in Keys(t)}
       IN  MSet({<<k, MapThenSumSet(LAMBDA p : p[2], {p \in Bag(t) : OnCols(p[1], X) = k})>> : k \in K})
\* rows of a listing as a bag of relations; cells <<"l", <<..>>>> with Txt("") where missing
ListedRow(h, row) == SetV({Cpl(h[2][j], row[2][j]) : j \in {k \in DOMAIN row[2] : row[2][k][1] # "t"}})
BagOfRows(h, rows) ==
  LET n == Len(rows[2])
      V == [i \in 1..n |-> ListedRow(h, rows[2][i])]
  IN  {<<x, Cardinality({i \in 1..n : V[i] = x})>> : x \in {V[i] : i \in 1..n}}
\* the table lists every row once (clan) or as often as it occurs (multiclan), restricted to columns
RowsBag(t, X) ==
  LET M == IF IsSet(t) THEN {<<r, 1>> : r \in El(t)} ELSE Bag(t)
      K == {OnCols(p[1], X) : p \in M}
  IN  {<<k, MapThenSumSet(LAMBDA p : p[2], {p \in M : OnCols(p[1], X) = k})>> : k \in K}
\* rows in the order of a key: <<row relation, rank>> table
Sorted(h, rows, rank) ==
  LET n == Len(rows[2])
      V == [i \in 1..n |-> (CHOOSE t \in rank[2] : t[1] = ListedRow(h, rows[2][i]))[2][2]]
  IN  \A i, j \in 1..n : i < j => V[i] <= V[j]

(* ---------------------------------- RDF --------------------------------- *)
\* graph.import: the triples, with blank nodes as atoms "bnode:..."; the
\* imported graph names them with fresh, pairwise different IRIs
Triple(s, p, o) == SetV({Cpl(Atom("str:'s'"), s), Cpl(Atom("str:'p'"), p), Cpl(Atom("str:'o'"), o)})
TermsOf(g) == UNION {Rights(t) : t \in El(g)}
Subst(f, B, x) == IF x \in B THEN f[x] ELSE x
GraphOk(ts, B, r) ==
  LET T == {<<ts[2][i][2][1], ts[2][i][2][2], ts[2][i][2][3]>> : i \in DOMAIN ts[2]}
      named == {x \in UNION {{t[1], t[2], t[3]} : t \in T} : x \notin B}
      fresh == IF IsClan(r) THEN TermsOf(r) \ named ELSE {}
  IN  /\ IsClan(r)
      /\ \E f \in [B -> fresh] :
           /\ \A x, y \in B : x # y => f[x] # f[y]
           /\ r = SetV({Triple(Subst(f, B, t[1]), t[2], Subst(f, B, t[3])) : t \in T})

(* -------------------------------- dispatch ------------------------------ *)
DocExpected(op, a) ==
  CASE op = "mojson.roundtrip" -> a[1]
    [] op = "json.import" -> JsonValue(a[1])
    [] op = "xml.import" -> XmlValue(a[1], a[2] = Bool(TRUE))
    [] op = "csv.import" -> CsvValue(a[1], a[2], a[3], a[4], a[5])
    [] op = "csv.roundtrip" -> TableOn(a[1], SeqSet(a[2]))
    [] op = "csv.export_refused" -> Bool(FALSE)
    [] op \in {"csv.export_rows", "table.json", "table.csv"} -> RowsBag(a[1], SeqSet(a[2]))
    [] OTHER -> Txt("see specification")

DocAccepts(op, a, lv, r) ==
  CASE op = "mojson.reject" -> IsExc(r) \/ r = a[1]
    [] op = "graph.import" -> GraphOk(a[1], SeqSet(a[2]), r)
    \* result: header and rows; a[2]: the columns in order; a[3]: ranks of the rows or Undef
    [] op \in {"csv.export_rows", "table.json", "table.csv"} ->
         /\ r[1] = "l" /\ Len(r[2]) = 2
         /\ r[2][1] = a[2]
         /\ BagOfRows(a[2], r[2][2]) = RowsBag(a[1], SeqSet(a[2]))
         /\ (IF Len(a) < 3 \/ IsUndef(a[3]) THEN TRUE ELSE Sorted(a[2], r[2][2], a[3]))
    [] OTHER -> r = DocExpected(op, a)
=============================================================================
