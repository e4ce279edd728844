------------------------------- MODULE Timers -------------------------------
(***************************************************************************)
(* Diagnostics as a state machine over histories.  A history starts        *)
(* function timers (in functions or the main program), laps, prints and    *)
(* ends them in any order - by an end, by leaving a block, by an exception,*)
(* by dropping them - and prints variables.  The only shared state is how  *)
(* many timers are unfinished: it decides the indentation of every line.   *)
(*   state   [open, t], t: id -> [name, quiet, notime, unit, live]         *)
(*   action  <<kind, ...>>; Do(s, a) is what the action prints,            *)
(*           After(s, a) the state it leads to                             *)
(* Elapsed times are written T where the recorder found them to be right.  *)
(***************************************************************************)
EXTENDS Values, Sequences, Integers, FiniteSets

Start0 == [open |-> 0, t |-> << >>]

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
\* inside of n unfinished timers; k levels further in
Indent(s, k) == Spaces(3 * (s.open - 1 + k))

RECURSIVE Join_(_, _, _)
Join_(q, sep, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o q[i] \o Join_(q, sep, i + 1)
Joined(q, sep) == Join_(q, sep, 1)

\* every line of a text that is not blank, indented
Breaks(t) == {i \in 1..Len(t) : SubSeq(t, i, i) = "\n"}
Blank(t) == \A i \in 1..Len(t) : SubSeq(t, i, i) \in {" ", "\n", "\t"}
RECURSIVE Lines(_, _)
Lines(t, ind) ==
  IF t = "" THEN "" ELSE
  LET b == Breaks(t)
      n == IF b = {} THEN Len(t) ELSE CHOOSE i \in b : \A j \in b : i <= j
      line == SubSeq(t, 1, n)
  IN  (IF Blank(line) THEN "" ELSE ind) \o line \o Lines(SubSeq(t, n + 1, Len(t)), ind)

\* a variable: v = [name, len (-1: has none), text], o = [short, max (-1: no limit), append, indent, first]
VarText(v, o) ==
  LET cut == IF o.max >= 0 /\ Len(v.text) > o.max THEN SubSeq(v.text, 1, o.max) \o "..." ELSE v.text
      t == v.name \o (IF v.len >= 0 THEN "(len " \o ToString(v.len) \o ")" ELSE "") \o " "
             \o (IF o.short THEN "" ELSE "= " \o cut) \o o.append
      all == Lines(t, o.indent)
  IN  IF o.first = o.indent THEN all ELSE o.first \o SubSeq(all, Len(o.indent) + 1, Len(all))

\* what stands behind START, LAP, END
Args(q) == IF q = << >> THEN "" ELSE "(args: " \o Joined([i \in DOMAIN q |-> q[i].name \o ": " \o q[i].text], "; ") \o ")"
Detail(s, d) ==
  CASE d.kind = "desc" -> ": " \o d.text
    [] d.kind = "var"  -> ": " \o VarText(d, [short |-> d.short, max |-> d.max, append |-> "",
                                              indent |-> Indent(s, 1), first |-> ""])
    [] OTHER -> ""
Line(s, t, label, d) ==
  IF t.quiet THEN "" ELSE
  Indent(s, 0) \o "..." \o t.name \o " " \o label
    \o (IF t.notime THEN "" ELSE " (" \o t.unit \o " T s)") \o Detail(s, d) \o "\n"

After(s, a) ==
  CASE a.do = "start" -> [open |-> s.open + 1,
                          t |-> [i \in DOMAIN s.t \cup {a.id} |->
                                 IF i = a.id THEN [name |-> a.name, quiet |-> a.quiet, notime |-> a.notime,
                                                   unit |-> IF a.wall THEN "elapsed" ELSE "used", live |-> TRUE]
                                 ELSE s.t[i]]]
    [] a.do \in {"end", "leave", "drop"} ->     \* only the first end of a timer counts
         IF s.t[a.id].live THEN [open |-> s.open - 1, t |-> [s.t EXCEPT ![a.id].live = FALSE]] ELSE s
    [] OTHER -> s
Do(s, a) ==
  CASE a.do = "start" -> IF a.quiet THEN "" ELSE
                         Indent(After(s, a), 0) \o "..." \o a.name \o " START " \o Args(a.args) \o "\n"
    [] a.do = "lap"   -> IF a.skip THEN "" ELSE Line(s, s.t[a.id], "LAP", a.d)
    [] a.do = "end"   -> Line(s, s.t[a.id], "END", a.d)
    [] a.do = "print" -> IF s.t[a.id].quiet THEN "" ELSE Lines(Joined(a.texts, " "), Indent(s, 1)) \o "\n"
    [] a.do = "var"   -> IF a.skip THEN "" ELSE VarText(a.v, a.o) \o "\n"
    [] a.do = "indent" -> Indent(s, a.n)
    [] OTHER -> ""

\* arguments may be listed in any order
Orders(q) == {[i \in DOMAIN q |-> q[f[i]]] : f \in {g \in [DOMAIN q -> DOMAIN q] : \A i, j \in DOMAIN q : g[i] = g[j] => i = j}}
Says(s, a, text) ==
  \/ text = Do(s, a)
  \/ /\ a.do = "start"
     /\ \E o \in Orders(a.args) : text = Do(s, [a EXCEPT !.args = o])

\* a whole history: the first action whose text is not what the machine prints, 0 if there is none
RECURSIVE Wrong(_, _, _, _)
Wrong(s, q, texts, i) ==
  IF i > Len(q) THEN (IF Len(texts) = Len(q) THEN 0 ELSE i)
  ELSE IF i > Len(texts) THEN i
  ELSE IF ~Says(s, q[i], texts[i]) THEN i
  ELSE Wrong(After(s, q[i]), q, texts, i + 1)
RECURSIVE Reached(_, _, _)
Reached(s, q, n) == IF n = 0 THEN s ELSE Reached(After(s, q[1]), Tail(q), n - 1)

(* ------------------------- recorded histories -------------------------- *)
TimerOps == {"timer.history", "timer.stopwatch"}
Yes(x) == x = Bool(TRUE)
RDetail(x) == LET q == x[2] IN
  CASE q[1] = Txt("desc") -> [kind |-> "desc", text |-> q[2][2]]
    [] q[1] = Txt("var") -> [kind |-> "var", name |-> q[2][2], len |-> q[3][2], text |-> q[4][2], short |-> Yes(q[5]), max |-> q[6][2]]
    [] OTHER -> [kind |-> "none"]
Action(x) == LET q == x[2] IN
  CASE q[1] = Txt("start") -> [do |-> "start", id |-> q[2][2], name |-> q[3][2], quiet |-> Yes(q[4]), notime |-> Yes(q[5]), wall |-> Yes(q[6]),
                               args |-> [i \in DOMAIN q[7][2] |-> [name |-> q[7][2][i][2][1][2], text |-> q[7][2][i][2][2][2]]]]
    [] q[1] = Txt("lap") -> [do |-> "lap", id |-> q[2][2], skip |-> Yes(q[3]), d |-> RDetail(q[4])]
    [] q[1] = Txt("end") -> [do |-> "end", id |-> q[2][2], d |-> RDetail(q[3])]
    [] q[1] = Txt("print") -> [do |-> "print", id |-> q[2][2], texts |-> [i \in DOMAIN q[3][2] |-> q[3][2][i][2]]]
    [] q[1] = Txt("leave") -> [do |-> "leave", id |-> q[2][2]]
    [] q[1] = Txt("drop") -> [do |-> "drop", id |-> q[2][2]]
    [] q[1] = Txt("indent") -> [do |-> "indent", n |-> q[2][2]]
    [] q[1] = Txt("var") -> [do |-> "var", skip |-> Yes(q[2]),
                             v |-> [name |-> q[3][2], len |-> q[4][2], text |-> q[5][2]],
                             o |-> [short |-> Yes(q[6]), max |-> q[7][2], append |-> q[8][2], indent |-> q[9][2], first |-> q[10][2]]]
Actions(x) == [i \in DOMAIN x[2] |-> Action(x[2][i])]
\* a stopwatch: the first end decides the time (T: right and that of the first end)
Stopwatch(quiet, msgs) == List([i \in DOMAIN msgs |-> Txt(IF quiet THEN "" ELSE msgs[i][2] \o " elapsed time: T seconds\n")])

FirstWrong(h, r) == Wrong(Start0, Actions(h), [i \in DOMAIN r[2] |-> r[2][i][2]], 1)
TimerAccepts(op, a, r) ==
  /\ r[1] = "l"
  /\ IF op = "timer.history" THEN FirstWrong(a[1], r) = 0 ELSE r = Stopwatch(Yes(a[1]), a[2][2])
TimerExpected(op, a, r) ==
  IF r[1] = "l" /\ op = "timer.history"
  THEN LET n == FirstWrong(a[1], r)
           q == Actions(a[1])
       IN  IF n \in DOMAIN q THEN <<"action", n, q[n], "prints", Do(Reached(Start0, q, n - 1), q[n])>> ELSE <<"nothing more">>
  ELSE Stopwatch(Yes(a[1]), a[2][2])
=============================================================================
