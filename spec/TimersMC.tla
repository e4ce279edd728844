------------------------------ MODULE TimersMC ------------------------------
(***************************************************************************)
(* All histories of the diagnostics over a few timers: what the state      *)
(* machine of Timers guarantees about them.                                *)
(***************************************************************************)
EXTENDS Timers, TLC

CONSTANT Ids
VARIABLES s, out, last
vars == <<s, out, last>>

NoDetail == [kind |-> "none"]
Details == {NoDetail, [kind |-> "desc", text |-> "why"],
            [kind |-> "var", name |-> "x", len |-> 3, text |-> "p\nq", short |-> FALSE, max |-> 2]}
Starts == [do : {"start"}, id : Ids, name : {"f"}, quiet : BOOLEAN, notime : BOOLEAN, wall : {TRUE},
           args : {<< >>, <<[name |-> "a", text |-> "1"]>>}]
Of(i) == [do : {"lap"}, id : {i}, skip : BOOLEAN, d : Details] \cup [do : {"end"}, id : {i}, d : Details]
         \cup [do : {"leave", "drop"}, id : {i}] \cup [do : {"print"}, id : {i}, texts : {<<"u", "v\n\nw">>}]
Vars == [do : {"var"}, skip : BOOLEAN, v : {[name |-> "x", len |-> -1, text |-> "p\nq"]},
         o : [short : BOOLEAN, max : {-1, 2}, append : {"!"}, indent : {"", "  "}, first : {"  ", ">"}]]
NoAction == [do |-> "none"]

Init == s = Start0 /\ out = "" /\ last = NoAction
Take(a) == s' = After(s, a) /\ out' = Do(s, a) /\ last' = a
Next == \/ \E a \in Starts : a.id \notin DOMAIN s.t /\ Take(a)
        \/ \E i \in DOMAIN s.t : \E a \in Of(i) : Take(a)
        \/ \E a \in Vars : Take(a)
Spec == Init /\ [][Next]_vars

Live == {i \in DOMAIN s.t : s.t[i].live}
Leading(t) == CHOOSE n \in 0..Len(t) : /\ \A i \in 1..n : SubSeq(t, i, i) = " "
                                       /\ n < Len(t) => SubSeq(t, n + 1, n + 1) # " "
\* the depth is the number of unfinished timers, whatever the order they end in
Depth == s.open = Cardinality(Live)
\* quiet timers print nothing
Silence == (last.do \in {"start", "lap", "end", "print"} /\ s.t[last.id].quiet) => out = ""
\* a START is indented by the timers around it, an END by those still unfinished with it
Indentation == /\ (last.do = "start" /\ out # "") => Leading(out) = 3 * (s.open - 1)
               /\ (last.do = "end" /\ out # "") => Leading(out) \in {3 * s.open, 3 * (s.open - 1)} \cup {0}
\* ends do not come back
Ended == [][\A i \in DOMAIN s.t : ~s.t[i].live => ~s'.t[i].live]_vars
\* skipped prints print nothing, others something
Skips == (last.do \in {"lap", "var"} => (last.skip => out = "")) /\ ((last.do = "var" /\ ~last.skip) => out # "")
=============================================================================
