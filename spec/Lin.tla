--------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* C13, C14: recorded concurrent executions of the real v1/v2 buffers are  *)
(* linearizable with respect to Crunch.tla.                                *)
(*                                                                         *)
(* A history is a set of actions h[n] = [th, inv, ret, c]: goroutine th    *)
(* began it at time inv and completed it at time ret; c is the sequence of *)
(* calls o and outcomes r it consists of - one call (C13), or the calls    *)
(* of a section bracketed with the buffer's lock (C14, MiniBuffer).  TLC   *)
(* searches for an order of the actions that respects real time (one that  *)
(* was over before another began precedes it; this includes each           *)
(* goroutine's own order), in which every call has the recorded outcome    *)
(* and which ends in the recorded final state f.  A history with no such   *)
(* order, or one that got stuck, is a violation.                           *)
(***************************************************************************)
EXTENDS Crunch, TLC, Json, IOUtils, FiniteSets

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k,     \* the history
          s,     \* state after the calls linearized so far
          done   \* these calls

vars == <<k, s, done>>

Calls(n) == 1 .. Len(Hist[n].h)

Init == /\ k \in 1 .. Len(Hist)
        /\ s = [d |-> Hist[k].s0.d, off |-> Hist[k].s0.off, boff |-> Hist[k].s0.boff]
        /\ done = {}
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(k + 10, 0)

\* The recorded outcome of call c is one the contract allows in state st.
Explains(c, res) ==
  /\ res[1].k = c.r.k
  /\ IF c.r.k = "ok" THEN c.r.v = res[1].v ELSE c.r.e = res[1].e \/ res[1].e = "any"

\* The states the calls q lead to from st with their recorded outcomes.
RECURSIVE Run(_, _, _)
Run(t, st, q) ==
  IF q = <<>> THEN {st}
  ELSE UNION {Run(t, res[2], Tail(q)) : res \in {x \in Outcomes(t, st, Head(q).o) : Explains(Head(q), x)}}

Linearize ==
  \E n \in Calls(k) \ done :
    LET a == Hist[k].h[n] IN
    /\ \A m \in Calls(k) \ (done \cup {n}) : ~(Hist[k].h[m].ret < a.inv)
    /\ s' \in Run(Hist[k].t, s, a.c)
    /\ done' = done \cup {n}
    /\ k' = k

Final(f, st) == /\ f.d = st.d /\ f.off = st.off /\ f.boff = st.boff
                /\ f.cap = Len(st.d) /\ f.bcap = 8 * Len(st.d)

Accept == /\ done = Calls(k)
          /\ ~Hist[k].stuck
          /\ Final(Hist[k].f, s)
          /\ TLCSet(k + 10, 1)
          /\ UNCHANGED vars

Next == Accept \/ (~Hist[k].stuck /\ Linearize)

Spec == Init /\ [][Next]_vars

RECURSIVE Bad(_)
Bad(n) == IF n = 0 THEN 0
          ELSE Bad(n - 1) + (IF TLCGet(n + 10) = 1 THEN 0
                             ELSE IF PrintT("VIOL " \o ToJson([k |-> n, stuck |-> Hist[n].stuck])) THEN 1 ELSE 1)

RECURSIVE NCalls(_)
NCalls(n) == IF n = 0 THEN 0 ELSE NCalls(n - 1) + Cardinality(UNION {{<<m, q>> : q \in 1 .. Len(Hist[n].h[m].c)} : m \in 1 .. Len(Hist[n].h)})

Consumed == PrintT("STATS " \o ToJson([violations |-> Bad(Len(Hist)), traces |-> Len(Hist), judged |-> NCalls(Len(Hist)),
                                       relevant |-> NCalls(Len(Hist)), events |-> NCalls(Len(Hist))]))
=============================================================================
