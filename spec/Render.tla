------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* What renderings show.  The harness takes a rendering apart into a tree  *)
(* (lists whose first member names the form); this module says which tree  *)
(* an object has.                                                          *)
(*   atom      <<"atom", text>>                                            *)
(*   couplet   <<"cpl", left, colour, right, colour>>                      *)
(*   set       <<"set", one element per line?, items, more>>, an item      *)
(*             being <<in parentheses?, tree>>                             *)
(*   multiset  <<"mset", one per line?, items, more>>, item <<tree, n>>    *)
(* more: how many elements the short form leaves out, -1 for none.         *)
(***************************************************************************)
EXTENDS Calls

RenderOps == {"show.latex", "show.iprint", "show.text", "show.line", "show.page", "show.simple", "show.descriptors", "show.core"}

\* the printed form of an atom: its name without the type
RECURSIVE Colon(_, _)
Colon(t, i) == IF SubSeq(t, i, i) = ":" THEN i ELSE Colon(t, i + 1)
Printed(v) == LET t == v[2] IN SubSeq(t, Colon(t, 1) + 1, Len(t))
Cut(t, n) == IF Len(t) > n + 3 THEN SubSeq(t, 1, n) \o "..." ELSE t

\* o: the options [short, colour, setlen, atomlen, order]; order: every object within, in ascending order
Place(o, v) == CHOOSE i \in DOMAIN o.order : o.order[i] = v
Ascending(o, S) == SetToSortSeq(S, LAMBDA x, y : Place(o, x) < Place(o, y))

Elements(v) == IF IsSet(v) THEN El(v) ELSE Keys(v)
Nested(v) == \E e \in Elements(v) : IsSet(e) \/ IsMSet(e)
Abbreviated(o, v) == o.short /\ Cardinality(Elements(v)) > o.setlen + 1
Listed(o, v) == LET q == Ascending(o, Elements(v)) IN IF Abbreviated(o, v) THEN SubSeq(q, 1, o.setlen) ELSE q
LeftOut(o, v) == IF Abbreviated(o, v) THEN Cardinality(Elements(v)) - o.setlen ELSE -1
\* couplets get parentheses where they stand beside other things
Mixed(q) == /\ \E i \in DOMAIN q : IsCpl(q[i])
            /\ \E i \in DOMAIN q : ~IsCpl(q[i])

RECURSIVE Shown(_, _)
Shown(o, v) ==
  CASE IsAtom(v) -> List(<<Txt("atom"), Txt(IF o.short THEN Cut(Printed(v), o.atomlen) ELSE Printed(v))>>)
    [] IsCpl(v) -> List(<<Txt("cpl"), Shown(o, L(v)), Txt(IF o.colour THEN "red" ELSE ""),
                          Shown(o, R(v)), Txt(IF o.colour THEN "blue" ELSE "")>>)
    [] IsSet(v) ->
         LET q == Listed(o, v)
             paren(e) == IsCpl(e) /\ ~Nested(v) /\ Mixed(q)
         IN  List(<<Txt("set"), Bool(Nested(v)),
                    List([i \in DOMAIN q |-> List(<<Bool(paren(q[i])), Shown(o, q[i])>>)]),
                    Nat_(LeftOut(o, v))>>)
    [] IsMSet(v) ->
         LET q == Listed(o, v)
         IN  List(<<Txt("mset"), Bool(Nested(v)),
                    List([i \in DOMAIN q |-> List(<<Shown(o, q[i]), Nat_(Mult(v, q[i]))>>)]),
                    Nat_(LeftOut(o, v))>>)
    [] OTHER -> List(<<Txt("undef")>>)
Long(colour, order) == [short |-> FALSE, colour |-> colour = Bool(TRUE), setlen |-> 4, atomlen |-> 10, order |-> order[2]]

(* ------------------------------ plain text ------------------------------ *)
\* the elements of a collection are listed in any order, as often as they occur
RECURSIVE Tells(_, _, _)
Tells(t, v, short) ==
  CASE IsAtom(v) -> t = List(<<Txt("atom"), Txt(Printed(v))>>)
    [] IsCpl(v) -> /\ t[2][1] = Txt("cpl") /\ Len(t[2]) = 3
                   /\ Tells(t[2][2], L(v), short) /\ Tells(t[2][3], R(v), short)
    [] OTHER ->
         LET q == t[2][2][2]
             tag == IF short THEN "{}" ELSE IF IsSet(v) THEN "Set" ELSE "Multiset"
         IN  /\ t[2][1] = Txt(tag)
             /\ Len(q) = (IF IsSet(v) THEN Cardinality(El(v)) ELSE Card(v))
             /\ LET at == [e \in Elements(v) |-> {i \in DOMAIN q : Tells(q[i], e, short)}]
                    n(x) == IF IsSet(v) THEN 1 ELSE Mult(v, x)
                IN  \A e \in Elements(v) :
                      LET others == {x \in Elements(v) : x # e /\ at[x] = at[e]}    \* not told apart by the short form
                      IN  Cardinality(at[e]) = MapThenSumSet(n, {e} \cup others)

\* the line of a couplet of atoms: a right side that does not fit is cut where the line (its end included) is full
CoupletLine(indent, left, right, short, most) ==
  LET pre == indent \o (IF short THEN "(" ELSE "Couplet(left=") \o left \o (IF short THEN "->" ELSE ", right=")
      kept == most - Len("...") - Len(pre) - Len(")\n")
  IN  pre \o (IF Len(pre) + Len(right) <= most THEN right ELSE SubSeq(right, 1, kept) \o "...") \o ")\n"

(* --------------------------------- pages -------------------------------- *)
\* a field: the text shown, and that special characters are escaped
Field(t) == List(<<t, Bool(TRUE)>>)
RECURSIVE ConstructShown(_, _)
ConstructShown(colour, q) ==
  CASE q[2][1] = Txt("mo") -> List(<<Txt("math"), Shown(Long(colour, q[2][3]), q[2][2]), Bool(TRUE)>>)
    [] q[2][1] = Txt("many") ->
         List(<<Txt("lines")>> \o [i \in DOMAIN q[2][2][2] |-> ConstructShown(colour, q[2][2][2][i])])
    [] OTHER -> List(<<Txt("text"), q[2][2], Bool(TRUE)>>)
Page(colour, title, items) ==
  List(<<Field(title),
         List([i \in DOMAIN items |-> LET d == items[i][2] IN
                 List(<<Field(d[1]), Field(d[2]), ConstructShown(colour, d[3])>>)])>>)

CoreOf(t, b, e) ==
  IF b > 0 /\ e > 0 /\ b + e < Len(t) THEN SubSeq(t, 1, b) \o "\n...\n" \o SubSeq(t, Len(t) - e + 1, Len(t)) ELSE t

\* a name in math mode
RECURSIVE Escaped(_, _)
Escaped(t, i) == IF i > Len(t) THEN "" ELSE LET q == SubSeq(t, i, i) IN (IF q = "_" THEN "\\_" ELSE q) \o Escaped(t, i + 1)

RenderExpected(op, a) ==
  CASE op = "show.latex" ->
         Shown([short |-> a[2] = Bool(TRUE), colour |-> a[3] = Bool(TRUE), setlen |-> a[4][2], atomlen |-> a[5][2],
                order |-> a[6][2]], a[1])
    [] op = "show.iprint" ->
         List(<<Txt(Escaped(a[1][2], 1)),
                Shown([short |-> a[3] = Bool(TRUE), colour |-> a[4] = Bool(TRUE), setlen |-> a[5][2], atomlen |-> a[6][2],
                       order |-> a[7][2]], a[2])>>)
    [] op = "show.page" -> Page(a[1], a[2], a[3][2])
    [] op = "show.simple" -> List(<<Shown(Long(a[2], a[3]), a[1]), Bool(TRUE), Bool(TRUE), Bool(TRUE)>>)
    [] op = "show.descriptors" -> List([i \in DOMAIN a[1][2] |-> List(<<Bool(TRUE), a[1][2][i]>>)])
    [] op = "show.line" -> Txt(CoupletLine(a[1][2], a[2][2], a[3][2], a[4] = Bool(TRUE), a[5][2]))
    [] op = "show.core" -> Txt(CoreOf(a[1][2], a[2][2], a[3][2]))
    [] OTHER -> Txt("a listing of exactly the object")
RenderAccepts(op, a, r) ==
  CASE op = "show.text" -> r[1] = "l" /\ Tells(r, a[1], a[2] = Bool(TRUE))
    [] OTHER -> r = RenderExpected(op, a)
=============================================================================
