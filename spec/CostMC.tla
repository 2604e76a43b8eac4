------------------------------- MODULE CostMC -------------------------------
(***************************************************************************)
(* Ways of implementing a buffer, and what they cost and keep: a buffer of *)
(* size bytes in storage of room bytes, with what else it refers to        *)
(* (extra) and what the package refers to (shared), in a world where the   *)
(* memory nobody refers to is collected.                                   *)
(*                                                                         *)
(* DESIGN: inplace, exactfit (good; whether growth is amortised is not     *)
(* promised); snapshot (writes save the contents in case they fail), scan  *)
(* (queries look at all of the contents), journal (writes are remembered), *)
(* lastlist (a list handed over is remembered), oldstorage (storage left   *)
(* behind is remembered), parts (slices a buffer is built from are         *)
(* remembered), registry (the package remembers every buffer), pool (the   *)
(* package keeps results for the next read), worker (a call leaves a       *)
(* goroutine behind) are refuted.                                          *)
(***************************************************************************)
EXTENDS Cost, IOUtils

Design == IOEnv.DESIGN
Max    == IF IOEnv.TIER = "thorough" THEN 14 ELSE 10

VARIABLES size, room, peak,
          extra,     \* referred to by the buffer, apart from its storage
          shared,    \* referred to by the package
          running,   \* goroutines
          inUse,     \* the client has the buffer
          calls,
          last       \* the call just made

vars == <<size, room, peak, extra, shared, running, inUse, calls, last>>

Call(m, r, p, a, w) == [moved |-> m, resizes |-> r, peak |-> p, alloc |-> a, time |-> w]
None == Call(0, FALSE, 0, 0, 0)

Biggest(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ size \in 0 .. Max /\ peak = size /\ inUse = TRUE /\ calls = 0 /\ running = 0
  \* built from one slice, or from several: then they are copied
  /\ \E joined \in BOOLEAN :
       /\ room = size
       /\ last = Call(IF joined THEN size ELSE 0, FALSE, 0, IF joined THEN size ELSE 0, IF joined THEN size ELSE 0)
       /\ extra = (IF joined /\ Design = "parts" THEN size ELSE 0)
  /\ shared = (IF Design = "registry" THEN room ELSE 0)

Read(m) ==
  /\ last' = Call(m, FALSE, 0, m, m)
  /\ shared' = (IF Design = "pool" THEN Biggest(shared, m) ELSE shared)
  /\ UNCHANGED <<size, room, peak, extra, running>>

Write(m) ==
  /\ last' = Call(m, FALSE, 0, IF Design = "snapshot" THEN size ELSE 0, IF Design = "snapshot" THEN size + m ELSE m)
  /\ extra' = (CASE Design = "journal" -> extra + m
                 [] Design = "lastlist" -> m
                 [] OTHER -> extra)
  /\ UNCHANGED <<size, room, peak, shared, running>>

Query ==
  /\ last' = Call(0, FALSE, 0, 0, IF Design = "scan" THEN size ELSE 1)
  /\ UNCHANGED <<size, room, peak, extra, shared, running>>

Grow(k) ==
  /\ size + k <= Max
  /\ size' = size + k /\ peak' = Biggest(peak, size + k)
  /\ IF size + k <= room
     THEN /\ last' = Call(k, TRUE, peak, 0, k)
          /\ UNCHANGED <<room, extra, shared, running>>
     ELSE /\ room' = (IF Design = "exactfit" THEN size + k ELSE 2 * (size + k))
          /\ last' = Call(k, TRUE, peak, room', size + k)
          /\ extra' = (IF Design = "oldstorage" THEN extra + room ELSE extra)
          /\ running' = (IF Design = "worker" THEN running + 1 ELSE running)
          /\ shared' = (IF Design = "registry" THEN room' ELSE shared)

Shrink(k) ==
  /\ k <= size /\ size' = size - k
  /\ last' = Call(0, TRUE, peak, 0, 1)
  /\ UNCHANGED <<room, peak, extra, shared, running>>

Drop == inUse' = FALSE /\ last' = None /\ UNCHANGED <<size, room, peak, extra, shared, running, calls>>

Next ==
  /\ inUse
  /\ \/ Drop
     \/ /\ calls < 6 /\ calls' = calls + 1 /\ inUse' = inUse
        /\ \/ \E m \in 0 .. 3 : m <= size /\ (Read(m) \/ Write(m))
           \/ Query
           \/ \E k \in 1 .. 4 : Grow(k) \/ Shrink(k)

Spec == Init /\ [][Next]_vars

CostLaws ==
  /\ Cheap(last) /\ Quick(last)
  /\ extra <= Slack                \* the buffer keeps its storage and no more
  /\ ~inUse => shared <= Slack     \* it is gone once dropped
  /\ inUse => shared <= Slack      \* and the package keeps nothing
  /\ running = 0
  /\ room <= 2 * peak              \* (so memory in use is in proportion)
=============================================================================
