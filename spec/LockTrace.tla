------------------------------ MODULE LockTrace ------------------------------
(***************************************************************************)
(* C14: recorded calls on the real v1/v2 MiniBuffer keep the "pure"        *)
(* discipline of LockUse.tla.                                              *)
(*                                                                         *)
(* A trace is the calls made on one buffer.  An event is one call o: held  *)
(* tells whether the caller held the buffer's lock, ops is the sequence of *)
(* operations the call performed on that lock ("lock", "unlock"; recorded  *)
(* where the library runs over instrumented locks, otherwise empty), r its *)
(* outcome and after whether the lock was held when the call was over.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, lock, bad

vars == <<k, i, lock, bad>>

Init == /\ k \in 1 .. Len(Traces) /\ i = 0 /\ lock = "free" /\ bad = {}
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Flag(cond, name) == IF cond THEN {} ELSE {name}

Judge(e, before) ==
  IF e.r.k = "hang" THEN {"blocked"}
  ELSE Flag("lock" \notin {e.ops[j] : j \in 1 .. Len(e.ops)}, "acquires the lock")
       \cup Flag("unlock" \notin {e.ops[j] : j \in 1 .. Len(e.ops)}, "releases the lock")
       \cup Flag(e.after = before, IF before = "held" THEN "lock not held afterwards" ELSE "lock left held")

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

\* The caller brings the lock into the state it calls in, makes the call,
\* and finds the lock as judged.
Next == /\ i < Len(Traces[k].ev)
        /\ LET e == Traces[k].ev[i + 1]
               before == IF e.held THEN "held" ELSE "free"
               b == Judge(e, before)
           IN /\ lock' = before /\ bad' = b
              /\ Count(2)
              /\ IF e.held THEN Count(1) ELSE TRUE
              /\ IF b # {} THEN /\ Count(3)
                                /\ PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, prop |-> "C14", broken |-> b,
                                          o |-> e.o, observed |-> e]))
                 ELSE TRUE
        /\ i' = i + 1 /\ k' = k

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Traces[n].ev) + Total(n - 1)

Consumed ==
  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                events |-> Total(Len(Traces)), traces |-> Len(Traces)]))
  /\ TLCGet("stats").distinct = Total(Len(Traces)) + Len(Traces)
=============================================================================
