-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* What calls may cost, and what they may keep.                            *)
(*                                                                         *)
(* A call moves an amount of data (list elements, bits; the whole contents *)
(* for the whole-buffer bit calls) and may resize.  What it allocates and  *)
(* how long it takes is bounded in what it moves and, if it resizes, in    *)
(* the largest size the buffer has had, whatever the size of the buffer    *)
(* and the number of calls made before.                                    *)
(*                                                                         *)
(* Between calls nothing is kept but the storage of the buffers in use.    *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Small,     \* what any call may allocate
          Patience,  \* how long any call may take
          Factor,
          Slack      \* how far the measured memory in use may differ

Handles(c) == c.moved + (IF c.resizes THEN c.peak ELSE 0)

AllocBound(c) == Small + Factor * Handles(c)
TimeBound(c)  == Patience + Factor * Handles(c)

Cheap(c) == c.alloc <= AllocBound(c)
Quick(c) == c.time <= TimeBound(c)
=============================================================================
