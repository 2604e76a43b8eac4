-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* C13: why a lock held for the whole of a call is enough.                 *)
(*                                                                         *)
(* Goroutines execute calls on one buffer in small steps, the way the      *)
(* code does: take the lock, read the position, compute from the state     *)
(* read, store contents, store the position, release.  The steps of        *)
(* different goroutines interleave freely.                                 *)
(*                                                                         *)
(* Locking selects the discipline:                                         *)
(*   "whole"  the lock is held from before the first to after the last     *)
(*            access (the library)                                         *)
(*   "split"  it is released between reading and storing                   *)
(*   "none"   there is none                                                *)
(* Linearizable must hold for "whole" and must be violated otherwise (the  *)
(* latter is checked too, so that the invariant is known to bite).         *)
(***************************************************************************)
EXTENDS Ops, TLC, IOUtils

Locking == IOEnv.LOCKING

Procs == {1, 2}
T == [v |-> 2, kind |-> "buffer"]
Start == [d |-> <<10, 20, 30, 40>>, off |-> 1, boff |-> 5]

Calls == {WriteOp(<<"bytes", 1, "LE">>, TRUE, 0, <<<<171>>>>),
          WriteOp(<<"U", 2, "BE">>, TRUE, 0, <<<<1, 2>>>>),
          ReadOp(<<"bytes", 1, "LE">>, TRUE, 0, 1),
          BitsSet(TRUE, 0, <<0,0,0,0,0,0,0,21>>, 5), BitFlip(TRUE, 0), BitRead(TRUE, 0),
          AllBits(2), SeekBy(1), SeekTo(0), Nullary("alignbit"), Nullary("alignbyte"),
          SizeOp("grow", 1), Nullary("reset"), AfterOp("after", FALSE, 0),
          WriteOp(<<"bytes", 1, "LE">>, FALSE, 4, <<<<9>>>>)}
OneCall == Calls

VARIABLES call,     \* what each goroutine calls
          pc,       \* where it is
          seen,     \* the state it read
          res,      \* its outcome
          mem,      \* the shared buffer
          lock,     \* holder, or 0
          clock, inv, ret

vars == <<call, pc, seen, res, mem, lock, clock, inv, ret>>

Init == /\ call \in [Procs -> OneCall]
        /\ pc = [p \in Procs |-> "idle"]
        /\ seen = [p \in Procs |-> Start]
        /\ res = [p \in Procs |-> ResultOk(NoVal)]
        /\ mem = Start
        /\ lock = 0 /\ clock = 0
        /\ inv = [p \in Procs |-> 0] /\ ret = [p \in Procs |-> 1000]

Go(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]

Invoke(p) == /\ Go(p, "idle", IF Locking = "none" THEN "read" ELSE "lock")
             /\ clock' = clock + 1 /\ inv' = [inv EXCEPT ![p] = clock]
             /\ UNCHANGED <<call, seen, res, mem, lock, ret>>

Acquire(p) == /\ \/ Go(p, "lock", "read") \/ Go(p, "lock2", "store")
              /\ lock = 0 /\ lock' = p
              /\ UNCHANGED <<call, seen, res, mem, clock, inv, ret>>

\* the state is read piece by piece: positions first, contents later
ReadPos(p) == /\ Go(p, "read", "readd")
              /\ seen' = [seen EXCEPT ![p].off = mem.off, ![p].boff = mem.boff]
              /\ UNCHANGED <<call, res, mem, lock, clock, inv, ret>>

ReadData(p) == /\ Go(p, "readd", IF Locking = "split" THEN "lock2" ELSE "store")
               /\ seen' = [seen EXCEPT ![p].d = mem.d]
               /\ lock' = IF Locking = "split" THEN 0 ELSE lock
               /\ UNCHANGED <<call, res, mem, clock, inv, ret>>

Reads(o) == o.op \in {"read", "rbit", "rbits", "after"}

\* contents are stored first, positions afterwards; what a call does not
\* change it does not store
StoreData(p) == /\ \E out \in Outcomes(T, seen[p], call[p]) :
                     /\ res' = [res EXCEPT ![p] = out[1]]
                     /\ seen' = [seen EXCEPT ![p] = out[2]]
                     /\ mem' = IF out[2].d = seen[p].d THEN mem ELSE [mem EXCEPT !.d = out[2].d]
                     /\ Go(p, "store", IF out[2].off = seen[p].off /\ out[2].boff = seen[p].boff THEN "unlock"
                                       ELSE IF out[2].off = seen[p].off THEN "sboff" ELSE "soff")
                /\ UNCHANGED <<call, lock, clock, inv, ret>>

StoreOff(p) == /\ Go(p, "soff", IF mem.boff = seen[p].boff THEN "unlock" ELSE "sboff")
               /\ mem' = [mem EXCEPT !.off = seen[p].off]
               /\ UNCHANGED <<call, seen, res, lock, clock, inv, ret>>

StoreBoff(p) == /\ Go(p, "sboff", "unlock")
                /\ mem' = [mem EXCEPT !.boff = seen[p].boff]
                /\ UNCHANGED <<call, seen, res, lock, clock, inv, ret>>

Release(p) == /\ Go(p, "unlock", "return")
              /\ lock' = IF Locking = "none" THEN lock ELSE 0
              /\ UNCHANGED <<call, seen, res, mem, clock, inv, ret>>

Return(p) == /\ Go(p, "return", "done")
             /\ clock' = clock + 1 /\ ret' = [ret EXCEPT ![p] = clock]
             /\ UNCHANGED <<call, seen, res, mem, lock, inv>>

Next == \E p \in Procs : Invoke(p) \/ Acquire(p) \/ ReadPos(p) \/ ReadData(p) \/ StoreData(p)
                         \/ StoreOff(p) \/ StoreBoff(p) \/ Release(p) \/ Return(p)

Spec == Init /\ [][Next]_vars

Done == \A p \in Procs : pc[p] = "done"

\* Some order of the calls explains outcomes and final state.
Orders == {<<1, 2>>, <<2, 1>>}
Explained(q) ==
  /\ ~(ret[q[2]] < inv[q[1]])
  /\ \E x \in Outcomes(T, Start, call[q[1]]) :
       /\ x[1] = res[q[1]]
       /\ \E y \in Outcomes(T, x[2], call[q[2]]) : y[1] = res[q[2]] /\ y[2] = mem

Linearizable == Done => \E q \in Orders : Explained(q)

\* No goroutine waits for ever.
NoDeadlock == Done \/ ENABLED Next
Mutex == Locking # "none" => \A p, q \in Procs : (pc[p] \in {"read", "readd", "store", "soff", "sboff", "unlock"}
                                                  /\ pc[q] \in {"read", "readd", "store", "soff", "sboff", "unlock"}) => p = q
=============================================================================
