-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the real library against Crunch.tla.      *)
(*                                                                         *)
(* The file named by TRACE holds one recorded execution per line: the      *)
(* target t, the observed initial state s0 and the events ev.  An event is *)
(* a call o, its outcome r (k: ok / panic / hang / missing, v: the value,  *)
(* e: the error) and the state observed after it: d (present only if the   *)
(* contents changed), off, boff, cap, bcap; lk = 1 if the call left the    *)
(* buffer's lock held, out = 1 if it changed storage outside the contents. *)
(* f (fenced executions): the memory access it died of, u: the same call   *)
(* without fences.  A "new" builds a buffer of the slices parts.           *)
(*                                                                         *)
(* Every event is compared with Exp(t, s, o) in the state s observed       *)
(* before it; PROP names the property whose share of the contract is       *)
(* judged ("ALL": everything).  After each event the observed state is     *)
(* adopted, so one deviation does not hide or cause later ones.            *)
(***************************************************************************)
EXTENDS Foot, TLC, Json, IOUtils, FiniteSets

Prop   == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k,      \* the trace
          i,      \* events consumed
          s,      \* observed state
          bad     \* what the last event broke

vars == <<k, i, s, bad>>

Obs(e, d) == [d |-> d, off |-> e.off, boff |-> e.boff]

Init == /\ k \in 1 .. Len(Traces)
        /\ i = 0
        /\ s = Obs(Traces[k].s0, Traces[k].s0.d)
        /\ bad = {}
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

HasObs(e) == e.r.k \in {"ok", "panic", "missing"}

\* The contents after event e.
After(e) == IF HasObs(e) /\ "d" \in DOMAIN e THEN e.d ELSE s.d

Ok(e)    == e.r.k = "ok"
Panic(e) == e.r.k = "panic"

SameVal(a, b) == a = b

(***************************************************************************)
(* The clauses of the contract, one per property.  Each yields the set of  *)
(* clauses of it that event e breaks (x: what is expected, t: the target), *)
(* {} also where the property does not speak about e.                      *)
(***************************************************************************)
Flag(cond, name) == IF cond THEN {} ELSE {name}

Resizing == {"grow", "trl", "trr", "reset"}

\* The call must be accepted, with this value and these contents.
MustDo(e, x) ==
  IF ~(x.ok /\ x.rej = {}) THEN
     \* an empty access outside the buffer: may be rejected, never does anything
     IF x.ok /\ Ok(e) THEN Flag(After(e) = s.d, "contents") ELSE {}
  ELSE IF ~Ok(e) THEN {"rejected"}
  ELSE Flag(SameVal(e.r.v, x.v), "value") \cup Flag(After(e) = x.d, "contents")
       \cup Flag(e.out = 0, "outside")

Kind(o) == IF o.op \in {"write", "read"} THEN o.k ELSE ""

C01(e, o, x) == IF o.op = "write" /\ o.k # "F" THEN MustDo(e, x) ELSE {}
C02(e, o, x) == IF o.op = "read" /\ o.k # "F" THEN MustDo(e, x) ELSE {}
C03(e, o, x) == IF Kind(o) = "F" THEN MustDo(e, x) ELSE {}
C04(e, o, x) == IF o.op \in {"rbit", "setb", "flip"} THEN MustDo(e, x) ELSE {}
C05(e, o, x) == IF o.op \in {"rbits", "sbits"} /\ o.n <= 64 THEN MustDo(e, x) ELSE {}
C18(e, o, x) ==
  IF o.op # "allb" THEN {}
  ELSE MustDo(e, x) \cup
       (IF Ok(e) THEN Flag(e.off = s.off /\ e.boff = s.boff, "positions")
                      \cup Flag(e.cap = Len(s.d) /\ e.bcap = 8 * Len(s.d), "capacities")
        ELSE {})

RwOps == {"write", "read", "rbit", "rbits", "setb", "flip", "sbits", "grow", "trl", "trr"}

C06(e, o, x, t) ==
  IF t.kind # "buffer" \/ o.op \notin RwOps THEN {}
  ELSE IF Ok(e) THEN Flag(x.ok, "accepted")
  ELSE IF Panic(e) THEN
     IF x.rej = {} THEN {"rejected"}
     ELSE Flag(e.r.e \in x.rej \/ "any" \in x.rej, "wrong error")
  ELSE {"no answer"}

\* c: the same call on a fresh copy of the buffer (logged after a panic).
C07(e, t) ==
  IF t.kind # "buffer" THEN {}
  ELSE IF e.r.k = "hang" THEN {"blocked"}
  ELSE (IF Panic(e) THEN
          Flag(After(e) = s.d, "contents") \cup Flag(e.off = s.off, "byte position")
          \cup Flag(e.boff = s.boff, "bit position")
          \cup Flag(e.cap = Len(s.d) /\ e.bcap = 8 * Len(s.d), "capacities")
          \cup Flag(e.lk # 1, "lock left held") \cup Flag(e.out = 0, "outside")
        ELSE {})
       \cup
       (IF "c" \in DOMAIN e THEN
          LET c == e.c IN
          IF e.r.k # c.r.k THEN {"differs from a fresh copy"}
          ELSE Flag(IF Ok(e) THEN e.r.v = c.r.v ELSE e.r.e = c.r.e, "differs from a fresh copy")
               \cup Flag(After(e) = c.d /\ e.off = c.off /\ e.boff = c.boff
                         /\ e.cap = c.cap /\ e.bcap = c.bcap, "differs from a fresh copy")
        ELSE {})

IsNext(o) == "next" \in DOMAIN o /\ o.next

C08(e, o, x) ==
  IF ~HasObs(e) THEN {"no answer"}
  ELSE IF Panic(e) THEN
     Flag(e.off = s.off /\ e.boff = s.boff, "positions moved by a failed call")
     \cup Flag(o.op \notin {"seek", "seekb", "alignbit", "alignbyte", "after", "afterb"}, "rejected")
     \cup (IF "p" \in DOMAIN e /\ IsNext(o)
           THEN Flag(e.p.r.k = "panic", "positional form differs") ELSE {})
  ELSE
     (IF x.ok /\ Ok(e) THEN Flag(e.off \in x.offs, "byte position") \cup Flag(e.boff = x.boff, "bit position")
      ELSE {})
     \cup (IF o.op \in {"after", "afterb"} THEN Flag(e.r.v = x.v, "remaining amount") ELSE {})
     \cup (IF "p" \in DOMAIN e /\ IsNext(o) THEN
             Flag(e.p.r.k = e.r.k, "positional form differs")
             \cup (IF e.p.r.k = "ok" /\ Ok(e)
                   THEN Flag(e.p.r.v = e.r.v, "positional form differs")
                        \cup Flag(e.p.d = After(e), "positional form differs")
                   ELSE {})
           ELSE {})

C09(e, o) ==
  IF ~HasObs(e) THEN {}
  ELSE Flag(e.cap = Len(After(e)), "byte capacity") \cup Flag(e.bcap = 8 * Len(After(e)), "bit capacity")
       \cup (IF o.op \notin Resizing THEN Flag(e.cap = Len(s.d), "capacity changed") ELSE {})
       \cup (IF o.op = "refresh" THEN Flag(Ok(e) /\ After(e) = s.d /\ e.off = s.off /\ e.boff = s.boff, "refresh")
             ELSE {})

C10(e, o, x) ==
  IF o.op \in Resizing /\ x.ok THEN
     IF ~Ok(e) THEN {"rejected"}
     ELSE Flag(After(e) = x.d, "contents") \cup Flag(e.off \in x.offs /\ e.boff = x.boff, "positions")
  ELSE {}

\* f: the access a fenced call died of; u: what the same call does when
\* nothing is fenced.  What it does is for the other properties to judge.
C20(e, o, t) ==
  IF ~HasObs(e) THEN {}
  ELSE IF "f" \in DOMAIN e THEN
     IF Granted(t, s, o, e.f.how, e.f.in, e.f.at, e.f.len, e.f.cap) THEN {"fence misplaced"}
     ELSE {"touches memory it is not granted"}
  ELSE IF "u" \in DOMAIN e THEN
     Flag(IF Ok(e) THEN e.u.r.k = "ok" /\ e.r.v = e.u.r.v
                   ELSE e.r.k = e.u.r.k /\ e.r.e = e.u.r.e, "differs from the call on plain memory")
     \cup Flag(After(e) = e.u.d /\ e.off = e.u.off /\ e.boff = e.u.boff
               /\ e.cap = e.u.cap /\ e.bcap = e.u.bcap, "differs from the call on plain memory")
  ELSE {}

LockFree(e) == IF e.r.k = "hang" THEN {"blocked"} ELSE Flag(e.lk # 1, "lock left held")

Judge(p, e, o, x, t) ==
  CASE p = "C01" -> C01(e, o, x)
    [] p = "C02" -> C02(e, o, x)
    [] p = "C03" -> C03(e, o, x)
    [] p = "C04" -> C04(e, o, x)
    [] p = "C05" -> C05(e, o, x)
    [] p = "C06" -> C06(e, o, x, t)
    [] p = "C07" -> C07(e, t)
    [] p = "C08" -> C08(e, o, x)
    [] p = "C09" -> C09(e, o)
    [] p = "C10" -> C10(e, o, x)
    [] p = "C13" -> LockFree(e)
    [] p = "C18" -> C18(e, o, x)
    [] p = "C20" -> C20(e, o, t)
    [] p = "ALL" -> UNION {C01(e, o, x), C02(e, o, x), C03(e, o, x), C04(e, o, x), C05(e, o, x),
                           C06(e, o, x, t), C07(e, t), C08(e, o, x), C09(e, o), C10(e, o, x),
                           C18(e, o, x)}

\* Whether the property says anything about the event (for the record only).
Relevant(p, e, o, x) ==
  CASE p = "C01" -> o.op = "write" /\ o.k # "F" /\ x.ok /\ Len(o.vals) > 0
    [] p = "C02" -> o.op = "read" /\ o.k # "F" /\ x.ok /\ o.n > 0
    [] p = "C03" -> Kind(o) = "F" /\ x.ok
    [] p = "C04" -> o.op \in {"rbit", "setb", "flip"} /\ x.ok
    [] p = "C05" -> o.op \in {"rbits", "sbits"} /\ x.ok /\ o.n > 0
    [] p = "C06" -> x.rej # {}
    [] p = "C07" -> Panic(e)
    [] p = "C08" -> IsNext(o) \/ o.op \in {"seek", "seekb", "alignbit", "alignbyte", "after", "afterb"}
    [] p = "C10" -> o.op \in Resizing
    [] p = "C18" -> o.op = "allb" /\ s.d # <<>>
    [] p = "C20" -> TRUE
    [] OTHER -> TRUE

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

\* "poke": the client changes one byte of the storage it shares with the buffer.
Expected(t, o) ==
  IF o.op = "new" THEN Keep(s)
  ELSE IF o.op = "poke" THEN [Keep(s) EXCEPT !.d = [s.d EXCEPT ![o.off + 1] = o.v]] ELSE Exp(t, s, o)

Step ==
  /\ i < Len(Traces[k].ev)
  /\ LET t == Traces[k].t
         e == Traces[k].ev[i + 1]
         o == e.o
     IN  /\ IF o.op = "adopt"               \* a new window of a large buffer
            THEN bad' = {}
            ELSE LET x == Expected(t, o)
                     b == Judge(Prop, e, o, x, t)
                 IN  /\ bad' = b
                     /\ IF Relevant(Prop, e, o, x) THEN Count(1) ELSE TRUE
                     /\ Count(2)
                     /\ IF b # {}
                        THEN /\ Count(3)
                             /\ PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, prop |-> Prop, broken |-> b,
                                       o |-> o, state |-> s, expected |-> x, observed |-> e]))
                        ELSE TRUE
         /\ k' = k /\ i' = i + 1
         /\ s' = IF HasObs(e) THEN Obs(e, After(e)) ELSE s

Next == Step

Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

\* Every event of every trace was consumed and judged.
Consumed ==
  LET total == Sum([n \in 1 .. Len(Traces) |-> Len(Traces[n].ev)], Len(Traces))
  IN  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                    events |-> total, traces |-> Len(Traces)]))
      /\ TLCGet("stats").distinct = total + Len(Traces)

Conforms == bad = {}
=============================================================================
