------------------------------ MODULE CostTrace ------------------------------
(***************************************************************************)
(* C21: measurements of the real code against Cost.tla, in KB and          *)
(* microseconds.  Events (c):                                              *)
(*   call     one call o: moved, resizes, peak; alloc, time                *)
(*   life     many calls like o: grown, the memory in use that they added  *)
(*   gone     what (a list, a slice a buffer was built from, storage left  *)
(*            or dropped) was still kept: kept of them                     *)
(*   dropped  many buffers used and dropped: grown                         *)
(*   threads  goroutines left behind                                       *)
(***************************************************************************)
EXTENDS Cost, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, bad

vars == <<k, i, bad>>

Init == /\ k \in 1 .. Len(Traces) /\ i = 0 /\ bad = {}
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Flag(cond, name) == IF cond THEN {} ELSE {name}

Judge(e) ==
  CASE e.c = "call" -> Flag(Cheap(e), "allocates more than it handles") \cup Flag(Quick(e), "takes longer than what it handles explains")
    [] e.c \in {"life", "dropped"} -> Flag(e.grown <= Slack, "memory in use grows with the number of calls")
    [] e.c = "gone" -> Flag(e.kept = 0, "keeps what it has no use for")
    [] e.c = "threads" -> Flag(e.left = 0, "leaves goroutines behind")

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

Next == /\ i < Len(Traces[k].ev)
        /\ LET e == Traces[k].ev[i + 1]
               b == Judge(e)
           IN /\ bad' = b
              /\ Count(2)
              /\ IF e.c # "call" \/ e.moved > 0 THEN Count(1) ELSE TRUE
              /\ IF b # {} THEN /\ Count(3)
                                /\ PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, prop |-> "C21", broken |-> b,
                                          o |-> e, observed |-> e]))
                 ELSE TRUE
        /\ i' = i + 1 /\ k' = k

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Traces[n].ev) + Total(n - 1)

Consumed ==
  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                events |-> Total(Len(Traces)), traces |-> Len(Traces)]))
  /\ TLCGet("stats").distinct = Total(Len(Traces)) + Len(Traces)
=============================================================================
