------------------------------- MODULE LockUse -------------------------------
(***************************************************************************)
(* C14: what it takes for goroutines that bracket calls with a buffer's    *)
(* own Lock and Unlock to get mutual exclusion for the bracketed section.  *)
(*                                                                         *)
(* Each goroutine runs Rounds sections; a section is Lock, Calls calls,    *)
(* Unlock.  A call has a beginning, an access to the contents and an end,  *)
(* and may end in a panic, after which the goroutine (having recovered)    *)
(* still holds the lock and goes on to the next call or to its Unlock.     *)
(*                                                                         *)
(* Discipline is what a call does to the lock:                             *)
(*   "pure"      nothing (the library; judged on the code by LockTrace)    *)
(*   "acquires"  it locks and unlocks around its access                    *)
(*   "releases"  it unlocks before its access and locks again after it     *)
(*   "panicking" it releases the lock when it panics                       *)
(*   "leaking"   it locks on panicking when not held, and never unlocks    *)
(* Only "pure" has all the properties.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils

Discipline == IOEnv.DISCIPLINE

Procs  == {1, 2, 3}
Rounds == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2
NCalls == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2
Free   == 0

VARIABLES pc, lock, left, rounds, log, broken

vars == <<pc, lock, left, rounds, log, broken>>

Init == /\ pc = [p \in Procs |-> "out"]
        /\ lock = Free
        /\ left = [p \in Procs |-> NCalls]
        /\ rounds = [p \in Procs |-> Rounds]
        /\ log = <<>>        \* accesses since the last Lock by its holder
        /\ broken = FALSE    \* a fatal error: unlock of an unlocked lock

Go(p, to) == pc' = [pc EXCEPT ![p] = to]

Unlocked == IF lock = Free THEN broken' = TRUE /\ lock' = lock ELSE lock' = Free /\ broken' = broken

Enter(p) == /\ pc[p] = "out" /\ rounds[p] > 0
            /\ lock = Free /\ lock' = p
            /\ log' = <<>>
            /\ left' = [left EXCEPT ![p] = NCalls]
            /\ Go(p, "in")
            /\ UNCHANGED <<rounds, broken>>

Begin(p) == /\ pc[p] = "in" /\ left[p] > 0
            /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ CASE Discipline = "acquires" -> Go(p, "wait") /\ UNCHANGED <<lock, broken>>
                 [] Discipline = "releases" -> Go(p, "access") /\ Unlocked
                 [] OTHER -> Go(p, "access") /\ UNCHANGED <<lock, broken>>
            /\ UNCHANGED <<rounds, log>>

Wait(p) == /\ pc[p] = "wait" /\ lock = Free /\ lock' = p
           /\ Go(p, IF Discipline = "releases" THEN "in" ELSE "access")
           /\ UNCHANGED <<left, rounds, log, broken>>

Access(p) == /\ pc[p] = "access"
             /\ log' = Append(log, p)
             /\ \/ /\ Discipline # "releases" /\ Go(p, "end")
                \/ /\ Discipline = "releases" /\ Go(p, "wait")
             /\ UNCHANGED <<lock, left, rounds, broken>>

End(p) == /\ pc[p] = "end" /\ Go(p, "in")
          /\ \/ IF Discipline = "acquires" THEN Unlocked ELSE UNCHANGED <<lock, broken>>
             \/ Discipline = "panicking" /\ Unlocked
             \/ Discipline = "leaking" /\ lock = Free /\ lock' = p /\ broken' = broken
          /\ UNCHANGED <<left, rounds, log>>

Leave(p) == /\ pc[p] = "in" /\ left[p] = 0
            /\ Unlocked
            /\ rounds' = [rounds EXCEPT ![p] = @ - 1]
            /\ Go(p, IF Discipline = "leaking" /\ rounds[p] = 1 THEN "end" ELSE "out")
            /\ UNCHANGED <<left, log>>

Finished == \A p \in Procs : rounds[p] = 0 /\ pc[p] \in {"out", "in"}

Next == (\E p \in Procs : Enter(p) \/ Begin(p) \/ Wait(p) \/ Access(p) \/ End(p) \/ Leave(p))
        \/ (Finished /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars
        /\ \A p \in Procs : SF_vars(Enter(p)) /\ WF_vars(Begin(p) \/ Wait(p) \/ Access(p) \/ End(p) \/ Leave(p))

\* Between a Lock and its Unlock only the holder accesses the buffer.
Exclusion == \A i, j \in 1 .. Len(log) : log[i] = log[j]
\* The lock is held exactly from Lock to Unlock.
Holder == /\ ~broken
          /\ \A p \in Procs : pc[p] # "out" => lock = p
          /\ (\A p \in Procs : pc[p] = "out") => lock = Free
\* Every section is entered and left.
Completes == <>[](\A p \in Procs : rounds[p] = 0)
=============================================================================
