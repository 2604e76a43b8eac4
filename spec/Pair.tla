-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Checks recorded lockstep executions of two real buffers, a and b.       *)
(*                                                                         *)
(*   C12: a is a Buffer, b a MiniBuffer of the same version, both started  *)
(*        with the same contents; judged as long as every call so far was  *)
(*        in range (accepted without reservation by Crunch.tla).           *)
(*   C17: a is a buffer that has a past and was reset, b a new one; every  *)
(*        call is judged, rejected ones too.                               *)
(*                                                                         *)
(* Two observations agree if contents, positions, capacities, result or    *)
(* error, and the state of the lock are the same.                          *)
(***************************************************************************)
EXTENDS Ops, TLC, Json, IOUtils

Prop   == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i,
          a, b,     \* observed states of the two buffers
          live      \* nothing out of range (C12) and no disagreement so far

vars == <<k, i, a, b, live>>

Flag(cond, name) == IF cond THEN {} ELSE {name}

Obs(e, d) == [d |-> d, off |-> e.off, boff |-> e.boff, cap |-> e.cap, bcap |-> e.bcap, lk |-> e.lk]

Answered(x) == x.r.k \in {"ok", "panic", "missing"}

After(x, old) == IF Answered(x) THEN Obs(x, IF "d" \in DOMAIN x THEN x.d ELSE old.d) ELSE old

Differences(x, y) ==
  Flag(x.d = y.d, "contents") \cup Flag(x.off = y.off, "byte position") \cup Flag(x.boff = y.boff, "bit position")
  \cup Flag(x.cap = y.cap, "byte capacity") \cup Flag(x.bcap = y.bcap, "bit capacity") \cup Flag(x.lk = y.lk, "lock")

SameResult(p, q) ==
  /\ p.k = q.k
  /\ p.k = "ok" => p.v = q.v
  /\ p.k = "panic" => p.e = q.e

St(x) == [d |-> x.d, off |-> x.off, boff |-> x.boff]

Report(o, broken, x, y) ==
  PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, prop |-> Prop, broken |-> broken, o |-> o,
                            state |-> [a |-> a, b |-> b], expected |-> "a and b alike",
                            observed |-> [a |-> x, b |-> y]]))

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

Init == /\ k \in 1 .. Len(Traces)
        /\ i = 0
        /\ LET T == Traces[k] IN
           /\ a = Obs(T.a0, T.a0.d)
           /\ b = Obs(T.b0, T.b0.d)
           /\ live = TRUE
           /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Judged(o) == live /\ (Prop = "C17" \/ InRange(Traces[k].t, St(a), o))

Step ==
  /\ i < Len(Traces[k].ev)
  /\ LET e == Traces[k].ev[i + 1]
         a2 == After(e.a, a)
         b2 == After(e.b, b)
         start == IF i = 0 THEN Differences(a, b) ELSE {}
         broken == start \cup
                   (IF ~Judged(e.o) THEN {}
                    ELSE IF "hang" \in {e.a.r.k, e.b.r.k} THEN {"blocked"}
                    ELSE Flag(SameResult(e.a.r, e.b.r), "result") \cup Differences(a2, b2))
     IN  /\ a' = a2 /\ b' = b2
         /\ Count(2)
         /\ IF Judged(e.o) THEN Count(1) ELSE TRUE
         /\ IF broken # {} THEN Count(3) /\ Report(e.o, broken, e.a, e.b) ELSE TRUE
         /\ live' = (Judged(e.o) /\ broken = {})
  /\ k' = k /\ i' = i + 1

Spec == Init /\ [][Step]_vars

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

Consumed ==
  LET total == Sum([n \in 1 .. Len(Traces) |-> Len(Traces[n].ev)], Len(Traces))
  IN  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                    events |-> total, traces |-> Len(Traces)]))
      /\ TLCGet("stats").distinct = total + Len(Traces)
=============================================================================
