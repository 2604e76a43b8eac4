-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* C19: several buffers at once.                                           *)
(*                                                                         *)
(* A world is a sequence of buffers that have no storage in common (each   *)
(* is built from none, from several, or from its own slices).  A call acts *)
(* on one of them: what it returns and what becomes of that buffer depend  *)
(* on that buffer alone, and every other buffer stays as it is.  So does   *)
(* every list of values handed out earlier.                                *)
(*                                                                         *)
(* Histories recorded from the real code are judged here.  Trace: kinds of *)
(* the buffers, events ev: a call o on buffer j (op "new": a new buffer    *)
(* takes its place), its outcome r, all buffers as observed after it (w),  *)
(* held = 1 if a list handed out earlier changed, and solo, the outcome of *)
(* the same call in an execution in which the other buffers do not exist.  *)
(***************************************************************************)
EXTENDS Crunch, TLC, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i,
          w      \* the buffers as observed

vars == <<k, i, w>>

None == [d |-> <<>>, off |-> 0, boff |-> 0, cap |-> 0, bcap |-> 0]

Obs(x, old) == [d |-> IF "d" \in DOMAIN x THEN x.d ELSE old.d, off |-> x.off, boff |-> x.boff, cap |-> x.cap, bcap |-> x.bcap]

Flag(cond, name) == IF cond THEN {} ELSE {name}

Init == /\ k \in 1 .. Len(Traces) /\ i = 0
        /\ w = [j \in 1 .. Len(Traces[k].kinds) |-> None]
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Hung(e) == e.r.k = "hang"

After(e) == IF Hung(e) THEN w ELSE [j \in DOMAIN w |-> Obs(e.w[j], w[j])]

SameResult(p, q) ==
  /\ p.k = q.k
  /\ p.k = "ok" => p.v = q.v
  /\ p.k = "panic" => p.e = q.e

\* What event e breaks; x: the world after it.
Judge(e, x) ==
  IF Hung(e) THEN {"blocked"}
  ELSE Flag(\A j \in DOMAIN w : j # e.j => x[j] = w[j], "another buffer changed")
       \cup Flag(e.held = 0, "a list handed out earlier changed")
       \cup (IF "solo" \in DOMAIN e
             THEN Flag(SameResult(e.r, e.solo.r), "the result is not the one it gives alone")
                  \cup Flag(x[e.j] = Obs(e.solo, None), "the buffer is not as it is alone")
             ELSE {})

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

Step ==
  /\ i < Len(Traces[k].ev)
  /\ LET e == Traces[k].ev[i + 1]
         x == After(e)
         b == Judge(e, x)
     IN  /\ Count(2)
         /\ IF Cardinality({j \in DOMAIN w : j # e.j}) > 0 THEN Count(1) ELSE TRUE
         /\ IF b # {} THEN /\ Count(3)
                           /\ PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, spec |-> "World", broken |-> b, o |-> e.o, j |-> e.j,
                                                        state |-> w, observed |-> e]))
            ELSE TRUE
         /\ w' = x
  /\ k' = k /\ i' = i + 1

Spec == Init /\ [][Step]_vars

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

Consumed ==
  LET total == Sum([n \in 1 .. Len(Traces) |-> Len(Traces[n].ev)], Len(Traces))
  IN  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                    events |-> total, traces |-> Len(Traces)]))
      /\ TLCGet("stats").distinct = total + Len(Traces)
=============================================================================
