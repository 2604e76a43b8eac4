----------------------------- MODULE StorageProof -----------------------------
(***************************************************************************)
(* C09, C10, C17, C18, without bounds: a buffer stored as a window of an   *)
(* array, with room after it and cached capacities, shows exactly what the *)
(* contract says, for every size, every content and every history.         *)
(*                                                                         *)
(* This is the sound design of Storage.tla (which TLC explores in small,   *)
(* with the flawed ones, and whose histories are replayed on the code)     *)
(* with the sizes taken away.  size and d are the buffer of the contract.  *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Byte, Zero, Ones, Flip(_)

ASSUME Bytes == Zero \in Byte /\ Ones \in Byte /\ \A b \in Byte : Flip(b) \in Byte

VARIABLES store, base, len, end, cap, bcap,   \* as stored
          size, d                             \* as the contract has it

vars == <<store, base, len, end, cap, bcap, size, d>>

Window == base .. (base + len - 1)

TypeOK == /\ store \in [Nat -> Byte]
          /\ base \in Nat /\ len \in Nat /\ end \in Nat /\ base + len <= end
          /\ size \in Nat /\ d \in [0 .. (size - 1) -> Byte]

Refresh == cap' = len' /\ bcap' = 8 * len'

Init == /\ TypeOK
        /\ size = len /\ cap = len /\ bcap = 8 * len
        /\ d = [i \in 0 .. (len - 1) |-> store[base + i]]

(*------------------------------- the calls -------------------------------*)

CGrow(n) == /\ size' = size + n
            /\ d' = [i \in 0 .. (size + n - 1) |-> IF i < size THEN d[i] ELSE Zero]

\* in the room: what is there is not known to be zero
GrowIn(n) == /\ base + len + n <= end
             /\ len' = len + n
             /\ store' = [j \in Nat |-> IF base + len <= j /\ j < base + len + n THEN Zero ELSE store[j]]
             /\ UNCHANGED <<base, end>> /\ Refresh
             /\ CGrow(n)

\* in a new array of zeros, however large
GrowOut(n) == /\ len' = len + n
              /\ base' = 0
              /\ end' \in Nat /\ end' >= len + n
              /\ store' = [j \in Nat |-> IF j < len THEN store[base + j] ELSE Zero]
              /\ Refresh
              /\ CGrow(n)

TruncLeft(n) == /\ n <= len
                /\ base' = base + n /\ len' = len - n
                /\ UNCHANGED <<store, end>> /\ Refresh
                /\ size' = size - n
                /\ d' = [i \in 0 .. (size - n - 1) |-> d[i + n]]

TruncRight(n) == /\ n <= len
                 /\ len' = len - n
                 /\ UNCHANGED <<store, base, end>> /\ Refresh
                 /\ size' = size - n
                 /\ d' = [i \in 0 .. (size - n - 1) |-> d[i]]

Reset == /\ len' = 0 /\ UNCHANGED <<store, base, end>> /\ Refresh
         /\ size' = 0 /\ d' = [i \in 0 .. (0 - 1) |-> Zero]

\* a byte, by any write, bit operation or a client's change to shared storage
Put(i, b) == /\ i < size
             /\ store' = [store EXCEPT ![base + i] = b]
             /\ UNCHANGED <<base, len, end, cap, bcap, size>>
             /\ d' = [d EXCEPT ![i] = b]

\* every byte: F is clearing, setting or flipping
All(F(_)) == /\ store' = [j \in Nat |-> IF j \in Window THEN F(store[j]) ELSE store[j]]
             /\ UNCHANGED <<base, len, end, cap, bcap, size>>
             /\ d' = [i \in 0 .. (size - 1) |-> F(d[i])]

Clear(b) == Zero
Set(b) == Ones

Next == \/ \E n \in Nat : GrowIn(n) \/ GrowOut(n) \/ TruncLeft(n) \/ TruncRight(n)
        \/ Reset
        \/ \E i \in Nat, b \in Byte : Put(i, b)
        \/ All(Clear) \/ All(Set) \/ All(Flip)

(*------------------------------- the proof -------------------------------*)

Shows == /\ size = len
         /\ \A i \in 0 .. (len - 1) : d[i] = store[base + i]
         /\ cap = len /\ bcap = 8 * len

Inv == TypeOK /\ Shows

THEOREM Start == Init => Inv
  BY DEF Init, Inv, Shows, TypeOK

THEOREM Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Bytes DEF Inv, Shows, TypeOK, Refresh
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars
<1>2. ASSUME NEW n \in Nat, GrowIn(n) PROVE Inv'
  BY <1>2 DEF GrowIn, CGrow
<1>3. ASSUME NEW n \in Nat, GrowOut(n) PROVE Inv'
  BY <1>3 DEF GrowOut, CGrow
<1>4. ASSUME NEW n \in Nat, TruncLeft(n) PROVE Inv'
  BY <1>4 DEF TruncLeft
<1>5. ASSUME NEW n \in Nat, TruncRight(n) PROVE Inv'
  BY <1>5 DEF TruncRight
<1>6. CASE Reset
  BY <1>6 DEF Reset
<1>7. ASSUME NEW i \in Nat, NEW b \in Byte, Put(i, b) PROVE Inv'
  BY <1>7 DEF Put
<1>8. ASSUME All(Clear) PROVE Inv'
  BY <1>8 DEF All, Clear, Window
<1>9. ASSUME All(Set) PROVE Inv'
  BY <1>9 DEF All, Set, Window
<1>10. ASSUME All(Flip) PROVE Inv'
  BY <1>10 DEF All, Window
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10 DEF Next

\* Nothing outside the window changes, except by growing in the room, and
\* then only the bytes the window takes in.
THEOREM Outside == Inv /\ [Next]_vars => 
                     \A j \in Nat : j \notin Window /\ store'[j] # store[j] =>
                        \/ base' = base /\ j \in base' .. (base' + len' - 1)
                        \/ \E n \in Nat : GrowOut(n)
<1> SUFFICES ASSUME Inv, [Next]_vars, NEW j \in Nat, j \notin Window, store'[j] # store[j], ~\E n \in Nat : GrowOut(n)
             PROVE  base' = base /\ j \in base' .. (base' + len' - 1)
  OBVIOUS
<1> USE DEF Inv, Shows, TypeOK, Window
<1>2. ASSUME NEW n \in Nat, GrowIn(n) PROVE base' = base /\ j \in base' .. (base' + len' - 1)
  BY <1>2 DEF GrowIn
<1>3. ASSUME NEW n \in Nat, TruncLeft(n) \/ TruncRight(n) PROVE FALSE
  BY <1>3 DEF TruncLeft, TruncRight
<1>4. CASE Reset
  BY <1>4 DEF Reset
<1>5. ASSUME NEW i \in Nat, NEW b \in Byte, Put(i, b) PROVE FALSE
  BY <1>5 DEF Put
<1>6. ASSUME All(Clear) \/ All(Set) \/ All(Flip) PROVE FALSE
  BY <1>6 DEF All
<1> QED
  BY <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next, vars
=============================================================================
