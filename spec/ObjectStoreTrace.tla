-------------------------- MODULE ObjectStoreTrace --------------------------
(***************************************************************************)
(* Validation of recorded histories against ObjectStore.  Every history    *)
(* starts with a "reset" line and is walked on its own, so TLC validates   *)
(* histories in parallel.  The state is rebuilt from the trace with the    *)
(* actions of ObjectStore; a step the machine does not allow is printed    *)
(* with the clause that rejects it, the observed state is adopted, and the *)
(* walk continues.                                                         *)
(***************************************************************************)
EXTENDS ObjectStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, dig      \* position; digests (hash, printed form) seen per handle
tvars == <<vars, i, dig>>

\* an argument: a live object <<"h", n>> or a value
Arg(x) == IF x[1] = "h" THEN heap[x[2]] ELSE
          IF x[1] = "l" THEN <<"l", [k \in DOMAIN x[2] |-> IF x[2][k][1] = "h" THEN heap[x[2][k][2]] ELSE Dec(x[2][k])]>>
          ELSE Dec(x)
Args(e) == [k \in DOMAIN e.a |-> Arg(e.a[k])]

\* what the objects remember after the step, as observed
Learned(e) == LET C == {e.chg[k] : k \in DOMAIN e.chg}
              IN  [h \in DOMAIN mem |-> IF \E x \in C : x[1] = h
                                        THEN (CHOOSE x \in C : x[1] = h)[2] ELSE mem[h]]
\* values as observed where they no longer match what was first seen
Values_(e) == [h \in DOMAIN heap |->
                LET C == {k \in DOMAIN e.val : e.val[k][1] = h}
                IN  IF C = {} THEN heap[h] ELSE Dec(e.val[CHOOSE k \in C : TRUE][2])]

Say(clause, what) == PrintT("FAIL " \o ToString(i') \o " " \o clause \o " " \o what)
Check(ok, clause, what) == (IF ok THEN TRUE ELSE Say(clause, what)) = TRUE

StepReset(e) == /\ heap' = <<>> /\ mem' = <<>> /\ lvl' = 0 /\ out' = Undef(0) /\ dig' = <<>>

Note(e) ==       \* clauses common to all steps that observe the live objects
    LET G == Learned(e) IN
    /\ Check(e.val = <<>>, "value", ToString({e.val[k][1] : k \in DOMAIN e.val}))
    /\ \A h \in {k \in DOMAIN mem : G[k] # mem[k]} :
         /\ Check(FlagsGrow(mem[h], G[h]), "grow", ToString(h))
         /\ Check(FlagsSound(heap[h], G[h]), "flags",
                  ToString({<<FlagNames[j], FlagVal(G[h][j])>> :
                              j \in {k \in FlagIdx : ~FlagSound(heap[h], k, G[h][k])}}))

StepMake(e) ==
    LET v == Dec(e.v) IN
    /\ Check(IsMO(v), "value", "not a value")
    /\ Check(FlagsSound(v, e.f), "flags",
             ToString({<<FlagNames[j], FlagVal(e.f[j])>> :
                          j \in {k \in FlagIdx : ~FlagSound(v, k, e.f[k])}}))
    /\ heap' = Append(heap, v) /\ mem' = Append(mem, e.f)
    /\ dig' = Append(dig, "") /\ UNCHANGED <<lvl, out>>

StepCall(e) ==
    LET a == Args(e)
        r == IF e.rh > 0 THEN heap[e.rh] ELSE Dec(e.r)
        fresh == e.new
    IN  /\ Note(e)
        /\ Check(e.rh = 0 \/ Dec(e.r) = heap[e.rh], "value", "returned object changed")
        /\ Check(Accepts(e.op, a, lvl, r), "call",
                 e.op \o ToString(a) \o ": expected " \o ToString(Answers(e.op, a)))
        /\ Check(~fresh \/ FlagsSound(r, e.f), "flags",
                 ToString({<<FlagNames[j], FlagVal(e.f[j])>> :
                             j \in {k \in FlagIdx : ~FlagSound(r, k, e.f[k])}}))
        /\ heap' = IF fresh THEN Append(Values_(e), r) ELSE Values_(e)
        /\ mem' = IF fresh THEN Append(Learned(e), e.f) ELSE Learned(e)
        /\ dig' = IF fresh THEN Append(dig, "") ELSE dig
        /\ out' = r /\ UNCHANGED lvl

\* the same call made again on the same objects
StepAgain(e) ==
    /\ Note(e)
    /\ Check(Dec(e.r) = Dec(e.s), "again", e.op)
    /\ heap' = Values_(e) /\ mem' = Learned(e) /\ UNCHANGED <<lvl, out, dig>>

\* hash and printed form of an object
StepProbe(e) ==
    /\ Note(e)
    /\ Check(dig[e.h] \in {"", e.d}, "digest", e.d)
    /\ heap' = Values_(e) /\ mem' = Learned(e)
    /\ dig' = [dig EXCEPT ![e.h] = e.d] /\ UNCHANGED <<lvl, out>>

StepLevel(e) == /\ lvl' = e.n /\ UNCHANGED <<heap, mem, out, dig>>
                /\ Check(e.got = e.n, "level", ToString(e.got))

Step(e) ==
    CASE e.e = "make"  -> StepMake(e)
      [] e.e = "call"  -> StepCall(e)
      [] e.e = "again" -> StepAgain(e)
      [] e.e = "probe" -> StepProbe(e)
      [] e.e = "level" -> StepLevel(e)

TraceInit == /\ Init /\ dig = <<>>
             /\ i \in {k \in 1..N : Trace[k].e = "reset"}
TraceNext == /\ i < N /\ Trace[i + 1].e # "reset"
             /\ i' = i + 1
             /\ Step(Trace[i'])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Complete == TLCGet("distinct") = N
View == i
=============================================================================
