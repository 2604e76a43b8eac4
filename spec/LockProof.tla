------------------------------ MODULE LockProof ------------------------------
(***************************************************************************)
(* C13, without bounds: a lock held for the whole of every call makes the  *)
(* calls atomic, for any number of goroutines, calls and pieces of state   *)
(* and whatever the calls do.                                              *)
(*                                                                         *)
(* The buffer consists of pieces (the contents, the two positions, the two *)
(* capacities; or as many more as one likes).  A call takes the lock,      *)
(* reads the pieces one at a time in any order and as often as it likes,   *)
(* computes an outcome allowed by the contract for the state it has read,  *)
(* stores pieces one at a time in any order, releases the lock and         *)
(* returns.  That the code does so - every access to a buffer lies between *)
(* the call's one Lock and its one Unlock - is what check C13 decides on   *)
(* the recorded lock sections and schedules of the real code.              *)
(*                                                                         *)
(* abs is the buffer of the specification, in which a call is one step,    *)
(* and past the history of the steps.  The theorems: the steps of the fine *)
(* grained system are steps of the atomic one or change nothing in it      *)
(* (Refines), the shared memory is abs whenever nobody holds the lock, and *)
(* a call's result when it returns is that of its atomic step (Sound).     *)
(* An atomic step happens between invocation and return of its call, hence *)
(* their order is the order linearizability asks for.                      *)
(***************************************************************************)
CONSTANTS Procs,     \* goroutines
          Pieces,    \* parts of the state
          Values,    \* what they hold
          Calls,     \* operations with their arguments
          Results,
          Outcomes(_, _),  \* (call, state): set of <<result, new state>>
          None

State == [Pieces -> Values]

ASSUME Contract == /\ \A c \in Calls, s \in State : Outcomes(c, s) \subseteq Results \X State
                   /\ None \notin Procs

VARIABLES pc, call, seen, got, new, res, todo, mem, lock, abs, done

vars == <<pc, call, seen, got, new, res, todo, mem, lock, abs, done>>
avars == <<abs, done>>

TypeOK == /\ pc \in [Procs -> {"idle", "wait", "in", "store", "return"}]
          /\ call \in [Procs -> Calls]
          /\ seen \in [Procs -> State] /\ new \in [Procs -> State]
          /\ got \in [Procs -> SUBSET Pieces] /\ todo \in [Procs -> SUBSET Pieces]
          /\ res \in [Procs -> Results]
          /\ mem \in State /\ abs \in State
          /\ lock \in Procs \cup {None}
          \* done[p]: the atomic step of p's current call: <<call, result>>
          /\ done \in [Procs -> (Calls \X Results) \cup {<<>>}]

Init == /\ TypeOK
        /\ pc = [p \in Procs |-> "idle"]
        /\ lock = None
        /\ abs = mem
        /\ done = [p \in Procs |-> <<>>]

Go(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]

Invoke(p) == /\ Go(p, "idle", "wait")
             /\ \E c \in Calls : call' = [call EXCEPT ![p] = c]
             /\ UNCHANGED <<seen, got, new, res, todo, mem, lock, abs, done>>

Acquire(p) == /\ Go(p, "wait", "in")
              /\ lock = None /\ lock' = p
              /\ got' = [got EXCEPT ![p] = {}]
              /\ UNCHANGED <<call, seen, new, res, todo, mem, abs, done>>

Read(p, k) == /\ pc[p] = "in"
              /\ seen' = [seen EXCEPT ![p] = [seen[p] EXCEPT ![k] = mem[k]]]
              /\ got' = [got EXCEPT ![p] = got[p] \cup {k}]
              /\ UNCHANGED <<pc, call, new, res, todo, mem, lock, abs, done>>

Compute(p) == /\ Go(p, "in", "store")
              /\ got[p] = Pieces
              /\ \E out \in Outcomes(call[p], seen[p]) : /\ res' = [res EXCEPT ![p] = out[1]]
                                                         /\ new' = [new EXCEPT ![p] = out[2]]
              /\ todo' = [todo EXCEPT ![p] = Pieces]
              /\ UNCHANGED <<call, seen, got, mem, lock, abs, done>>

Store(p, k) == /\ pc[p] = "store" /\ k \in todo[p]
               /\ mem' = [mem EXCEPT ![k] = new[p][k]]
               /\ todo' = [todo EXCEPT ![p] = todo[p] \ {k}]
               /\ UNCHANGED <<pc, call, seen, got, new, res, lock, abs, done>>

Release(p) == /\ Go(p, "store", "return")
              /\ todo[p] = {}
              /\ lock' = None
              /\ abs' = new[p]
              /\ done' = [done EXCEPT ![p] = <<call[p], res[p]>>]
              /\ UNCHANGED <<call, seen, got, new, res, todo, mem>>

Return(p) == /\ Go(p, "return", "idle")
             /\ done' = [done EXCEPT ![p] = <<>>]
             /\ UNCHANGED <<call, seen, got, new, res, todo, mem, lock, abs>>

Next == \E p \in Procs : \/ Invoke(p) \/ Acquire(p) \/ Compute(p) \/ Release(p) \/ Return(p)
                         \/ \E k \in Pieces : Read(p, k) \/ Store(p, k)

(*-------------------------- the atomic system ----------------------------*)

AtomicCall(p) == /\ done[p] = <<>>
                 /\ \E c \in Calls : \E out \in Outcomes(c, abs) :
                       /\ abs' = out[2]
                       /\ done' = [done EXCEPT ![p] = <<c, out[1]>>]

AtomicReturn(p) == /\ done[p] # <<>>
                   /\ done' = [done EXCEPT ![p] = <<>>] /\ abs' = abs

AtomicNext == \E p \in Procs : AtomicCall(p) \/ AtomicReturn(p)

(*------------------------------ the proof --------------------------------*)

Inside(p) == pc[p] \in {"in", "store"}

Inv == /\ TypeOK
       /\ \A p \in Procs : Inside(p) <=> lock = p
       /\ lock = None => mem = abs
       /\ \A p \in Procs : pc[p] = "in" => mem = abs /\ \A k \in got[p] : seen[p][k] = mem[k]
       /\ \A p \in Procs : pc[p] = "store" =>
              /\ <<res[p], new[p]>> \in Outcomes(call[p], abs)
              /\ \A k \in Pieces \ todo[p] : mem[k] = new[p][k]
       /\ \A p \in Procs : IF pc[p] = "return" THEN done[p] = <<call[p], res[p]>> ELSE done[p] = <<>>

THEOREM Start == Init => Inv
  BY Contract DEF Init, Inv, Inside, TypeOK

THEOREM Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE DEF Inv, TypeOK, Inside, Go
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars
<1>2. ASSUME NEW p \in Procs, Invoke(p) PROVE Inv'
  BY <1>2 DEF Invoke
<1>3. ASSUME NEW p \in Procs, Acquire(p) PROVE Inv'
  BY <1>3, Contract DEF Acquire
<1>4. ASSUME NEW p \in Procs, NEW k \in Pieces, Read(p, k) PROVE Inv'
  <2> DEFINE s == [seen[p] EXCEPT ![k] = mem[k]]
  <2>1. s \in State /\ s[k] = mem[k] /\ \A j \in Pieces \ {k} : s[j] = seen[p][j]
    BY DEF State
  <2> HIDE DEF s
  <2>2. seen' = [seen EXCEPT ![p] = s]
    BY <1>4 DEF Read, s
  <2>3. TypeOK'
    <3>1. got[p] \cup {k} \in SUBSET Pieces
      OBVIOUS
    <3>2. got' = [got EXCEPT ![p] = got[p] \cup {k}]
      BY <1>4 DEF Read
    <3>3. got' \in [Procs -> SUBSET Pieces]
      BY <3>1, <3>2
    <3>4. seen' \in [Procs -> State]
      BY <2>1, <2>2
    <3> QED
      BY <1>4, <3>3, <3>4 DEF Read
  <2>4. \A j \in got'[p] : seen'[p][j] = mem'[j]
    <3>1. seen'[p] = s /\ got'[p] = got[p] \cup {k} /\ mem' = mem /\ got[p] \subseteq Pieces
      BY <1>4, <2>2 DEF Read
    <3>2. \A j \in got[p] : seen[p][j] = mem[j]
      BY <1>4 DEF Read
    <3> QED
      BY <2>1, <3>1, <3>2
  <2> QED
    BY <1>4, <2>2, <2>3, <2>4 DEF Read
<1>5. ASSUME NEW p \in Procs, Compute(p) PROVE Inv'
  <2>1. seen[p] = mem
    BY <1>5 DEF Compute, State
  <2>2. PICK out \in Outcomes(call[p], seen[p]) : /\ res' = [res EXCEPT ![p] = out[1]]
                                                  /\ new' = [new EXCEPT ![p] = out[2]]
    BY <1>5 DEF Compute
  <2>3. out \in Results \X State
    BY <2>2, Contract
  <2>4. out = <<res'[p], new'[p]>>
    BY <2>2, <2>3
  <2>5. mem = abs
    BY <1>5 DEF Compute
  <2>6. TypeOK'
    BY <1>5, <2>2, <2>3 DEF Compute
  <2>7. out \in Outcomes(call[p], abs)
    BY <2>1, <2>2, <2>5
  <2> QED
    BY <1>5, <2>4, <2>6, <2>7 DEF Compute
<1>6. ASSUME NEW p \in Procs, NEW k \in Pieces, Store(p, k) PROVE Inv'
  <2>1. lock = p /\ lock # None
    BY <1>6, Contract DEF Store
  <2>2. \A q \in Procs : q # p => pc[q] \notin {"in", "store"}
    BY <2>1
  <2>3. mem' \in State /\ \A j \in Pieces : mem'[j] = IF j = k THEN new[p][k] ELSE mem[j]
    BY <1>6 DEF Store, State
  <2>4. TypeOK'
    BY <1>6, <2>3 DEF Store
  <2>5. \A j \in Pieces \ todo'[p] : mem'[j] = new'[p][j]
    BY <1>6, <2>3 DEF Store
  <2> QED
    BY <1>6, <2>1, <2>2, <2>4, <2>5 DEF Store
<1>7. ASSUME NEW p \in Procs, Release(p) PROVE Inv'
  <2>1. mem = new[p]
    BY <1>7 DEF Release, State
  <2> QED
    BY <1>7, <2>1, Contract DEF Release
<1>8. ASSUME NEW p \in Procs, Return(p) PROVE Inv'
  BY <1>8 DEF Return
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next

THEOREM Refines == Inv /\ [Next]_vars => [AtomicNext]_avars
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE [AtomicNext]_avars
  OBVIOUS
<1> USE DEF Inv, TypeOK, Inside, Go
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, avars
<1>2. ASSUME NEW p \in Procs, Release(p) PROVE AtomicCall(p)
  <2>1. <<res[p], new[p]>> \in Outcomes(call[p], abs)
    BY <1>2 DEF Release
  <2>2. abs' = new[p] /\ done' = [done EXCEPT ![p] = <<call[p], res[p]>>] /\ done[p] = <<>>
    BY <1>2 DEF Release
  <2> QED
    BY <2>1, <2>2 DEF AtomicCall
<1>3. ASSUME NEW p \in Procs, Return(p) PROVE AtomicReturn(p)
  BY <1>3 DEF Return, AtomicReturn
<1> QED
  BY <1>1, <1>2, <1>3 DEF Next, AtomicNext, avars, Invoke, Acquire, Read, Compute, Store

\* What a call returns is the outcome of its atomic step, and when nobody is
\* inside, memory is the atomic buffer.
THEOREM Sound == Inv => /\ \A p \in Procs : pc[p] = "return" => done[p] = <<call[p], res[p]>>
                        /\ lock = None => mem = abs
                        /\ \A p, q \in Procs : Inside(p) /\ Inside(q) => p = q
  BY DEF Inv, Inside
=============================================================================
