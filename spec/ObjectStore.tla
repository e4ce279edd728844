----------------------------- MODULE ObjectStore ----------------------------
(***************************************************************************)
(* The library as a state machine.  The state is the collection of live    *)
(* objects (their mathematical values and what each one remembers about    *)
(* itself), the raise-on-undefined level, and the outcome of the last      *)
(* call.  A call may let any object remember more - but only true answers  *)
(* - and may create one new object; nothing else ever changes.             *)
(***************************************************************************)
EXTENDS Calls

VARIABLES heap,   \* Seq(value): the live objects, in order of creation
          mem,    \* Seq(flags): what each object remembers, FlagIdx -> 0..3
          lvl,    \* the raise-on-undefined level
          out     \* outcome of the last call
vars == <<heap, mem, lvl, out>>

Handles == 1..Len(heap)
Nothing == [j \in FlagIdx |-> 0]

Init == heap = <<>> /\ mem = <<>> /\ lvl = 0 /\ out = Undef(0)

\* G is what the objects remember after a step.
Learn(G) == /\ Len(G) = Len(mem)
            /\ (\A h \in DOMAIN mem : FlagsGrow(mem[h], G[h]) /\ FlagsSound(heap[h], G[h])) = TRUE

\* A new object with value v that remembers F.
Make(v, F) == /\ IsMO(v) /\ FlagsSound(v, F) = TRUE
              /\ heap' = Append(heap, v)
              /\ mem' = Append(mem, F)
              /\ UNCHANGED <<lvl, out>>

\* A call of op on arguments a with outcome r, which creates a new object
\* (fresh) that remembers F, and lets the others remember G.
Invoke(op, a, r, fresh, F, G) ==
    /\ Accepts(op, a, lvl, r) = TRUE
    /\ Learn(G)
    /\ (fresh => IsMO(r) /\ FlagsSound(r, F)) = TRUE
    /\ heap' = IF fresh THEN Append(heap, r) ELSE heap
    /\ mem' = IF fresh THEN Append(G, F) ELSE G
    /\ out' = r
    /\ UNCHANGED lvl

SetLevel(n) == lvl' = n /\ UNCHANGED <<heap, mem, out>>

(* ------------------------------ properties ----------------------------- *)
Sound == \A h \in Handles : FlagsSound(heap[h], mem[h])
OneUndef == out[1] = "u" => lvl < 9
Immutable == [][\A h \in Handles : heap'[h] = heap[h]]_vars
WriteOnce == [][\A h \in Handles : FlagsGrow(mem[h], mem'[h])]_vars
=============================================================================
