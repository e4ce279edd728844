------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Stateless conformance: every recorded call of the real library must be  *)
(* one the specification allows.  The trace is split into chains that TLC  *)
(* walks in parallel; a rejected event is printed and the walk continues,  *)
(* so that the rest of the trace is checked too.                           *)
(***************************************************************************)
EXTENDS Collections, Documents, Rdf, Render, Timers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chains == 16
VARIABLES c, i

SliceOps == {"slice.listgen", "slice.order_listgen", "slice.order"}
PartitionOps == {"partition.partition", "partition.labeled"}
CtorOps == {"ctor.atom", "ctor.couplet", "ctor.make_couplet", "ctor.set", "ctor.mset",
            "ctor.mset_counts", "ctor.convert", "ctor.reject", "ctor.value",
            "undef.refuse", "undef.same", "undef.make", "undef.kinds"}
StructOps == {"struct.le", "struct.eq", "struct.ne", "struct.hash_agrees", "struct.union",
              "struct.level", "struct.ground", "struct.in", "struct.evalrepr", "struct.algebra",
              "struct.absolute", "struct.str_agrees"}

\* a finite set of answers of a family of operations, with the raise rule
Raise(ans, lv, r) ==
  CASE IsUndef(r) -> \E e \in ans : IsUndef(e) /\ e[2] > lv
    [] r = Exc("UndefException") -> \E e \in ans : IsUndef(e) /\ e[2] <= lv
    [] OTHER -> r \in ans

CallVerdict(e) ==
  LET op == e.op
      a == [j \in DOMAIN e.a |-> Dec(e.a[j])]
      say(ok, ex) == IF ok THEN "" ELSE "call " \o op \o ": expected " \o ToString(ex)
  IN  CASE op \in SliceOps -> say(AcceptsSlice(op, a, e.lv, Dec(e.r)), "a slice")
        [] op \in PartitionOps ->
             LET ex == PartitionAnswer(op, a)
             IN  say(Dec(e.r) = ex, ex)
        [] op = "copy.same" -> say(AllTrue(Dec(e.r)), "all true")
        [] op \in CtorOps -> say(Raise(CtorAnswers(op, a), e.lv, Dec(e.r)), CtorAnswers(op, a))
        [] op \in StructOps ->
             LET ex == StructAnswer(op, a)
             IN  say(ex = (IF IsStruct(e.r) THEN SDec(e.r) ELSE e.r), ex)
        [] op \in DocOps -> say(DocAccepts(op, a, e.lv, Dec(e.r)), DocExpected(op, a))
        [] op \in RenderOps -> say(RenderAccepts(op, a, Dec(e.r)), RenderExpected(op, a))
        [] op \in TimerOps -> say(TimerAccepts(op, a, Dec(e.r)), TimerExpected(op, a, Dec(e.r)))
        [] op \in RdfOps -> say(RdfAccepts(op, a, e.lv, Dec(e.r)), RdfExpected(op, a))
        [] OTHER -> say(Accepts(op, a, e.lv, Dec(e.r)), Answers(op, a))

Verdict(e) ==
  CASE e.k = "call" -> CallVerdict(e)
    [] e.k = "pair" ->       \* two ways to the same result
         IF Dec(e.r) = Dec(e.s) THEN "" ELSE e.op \o ": results differ"
    [] e.k = "flags" ->
         LET v == Dec(e.v)
             bad == {j \in FlagIdx : ~FlagSound(v, j, e.f[j])}
         IN  IF bad = {} THEN "" ELSE
             "flag " \o ToString({<<FlagNames[j], FlagVal(e.f[j]), Truth(FlagNames[j], v)>> : j \in bad})
    [] e.k = "grow" ->
         IF FlagsGrow(e.f, e.g) THEN "" ELSE "remembered answer changed"
    [] e.k = "order" ->
         LET bad == OrderBad(e) IN IF bad = {} THEN "" ELSE "order " \o ToString(bad)
    [] OTHER -> "unknown event kind"

Init == /\ c \in 1..Chains
        /\ i = c - Chains
Next == /\ i + Chains <= N
        /\ i' = i + Chains
        /\ c' = c
        /\ LET v == Verdict(Trace[i'])
           IN  (IF v = "" THEN TRUE ELSE PrintT("FAIL " \o ToString(i') \o " " \o v)) = TRUE
Spec == Init /\ [][Next]_<<c, i>>
Complete == TLCGet("distinct") = N + Chains
=============================================================================
