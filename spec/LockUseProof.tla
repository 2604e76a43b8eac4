---------------------------- MODULE LockUseProof ----------------------------
(***************************************************************************)
(* C14, without bounds: if no call touches the buffer's lock, goroutines   *)
(* that bracket their calls with Lock and Unlock exclude one another from  *)
(* Lock to Unlock, however many there are and however many calls they      *)
(* make, returning or panicking.  LockUse.tla has the disciplines that do  *)
(* not work; that the code's calls are pure is what LockTrace.tla judges.  *)
(***************************************************************************)
CONSTANTS Procs, None

ASSUME Nobody == None \notin Procs

VARIABLES pc,    \* "out", "in" between Lock and Unlock, "call" within a call
          lock,  \* who holds it
          who    \* who accessed the buffer since the last Lock

vars == <<pc, lock, who>>

TypeOK == /\ pc \in [Procs -> {"out", "in", "call"}]
          /\ lock \in Procs \cup {None}
          /\ who \subseteq Procs

Init == pc = [p \in Procs |-> "out"] /\ lock = None /\ who = {}

Go(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]

Enter(p) == Go(p, "out", "in") /\ lock = None /\ lock' = p /\ who' = {}
Begin(p) == Go(p, "in", "call") /\ UNCHANGED <<lock, who>>
Access(p) == pc[p] = "call" /\ who' = who \cup {p} /\ UNCHANGED <<pc, lock>>
End(p) == Go(p, "call", "in") /\ UNCHANGED <<lock, who>>      \* returning or panicking
Leave(p) == Go(p, "in", "out") /\ lock' = None /\ who' = who

Next == \E p \in Procs : Enter(p) \/ Begin(p) \/ Access(p) \/ End(p) \/ Leave(p)

Holder == \A p \in Procs : pc[p] # "out" <=> lock = p
Exclusion == \A p, q \in who : p = q
Inv == TypeOK /\ Holder /\ Exclusion /\ (lock # None => who \subseteq {lock})

THEOREM Start == Init => Inv
  BY Nobody DEF Init, Inv, TypeOK, Holder, Exclusion

THEOREM Step == Inv /\ [Next]_vars => Inv'
  BY Nobody DEF Inv, TypeOK, Holder, Exclusion, Next, vars, Go, Enter, Begin, Access, End, Leave

\* A call never waits: whoever is in a section can begin one, and whoever is
\* in a call can end it, whatever the others do.
THEOREM NeverBlocked ==
  ASSUME NEW p \in Procs, Inv
  PROVE  /\ pc[p] = "in" => pc[p] # "call" /\ lock = p
         /\ pc[p] = "call" => lock = p
  BY DEF Inv, Holder

\* The holder's Unlock is of a lock that is held.
THEOREM UnlockHeld == ASSUME NEW p \in Procs, Inv, Leave(p) PROVE lock = p
  BY DEF Inv, Holder, Leave, Go
=============================================================================
