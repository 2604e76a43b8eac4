------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Bounds checks in 64-bit arithmetic, for all arguments (Apalache, SMT).  *)
(*                                                                         *)
(* An access to n elements of w units at off of a buffer of cap units is   *)
(* out of range iff off < 0 or off + n*w > cap in exact arithmetic.  Here  *)
(* the ways of writing that check in wrapping 64-bit arithmetic are        *)
(* compared with it, and so is the saturated representation of arguments   *)
(* in recorded traces (Crunch.tla, "Huge").                                *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  off,
  \* @type: Int;
  n,
  \* @type: Int;
  cap,
  \* @type: Int;
  w

Top == 9223372036854775808      \* 2^63

In64(x) == -Top <= x /\ x < Top

\* two's complement
Wrap(x) == ((x + Top) % (2 * Top)) - Top

Init == /\ off \in Int /\ n \in Int /\ cap \in Int /\ w \in {1, 2, 4, 8}
        /\ In64(off) /\ In64(n) /\ 0 <= n
        /\ 0 <= cap /\ cap < 281474976710656     \* no memory is larger than 2^48
Next == UNCHANGED <<off, n, cap, w>>

Over  == off + n * w > cap
Under == off < 0
Out   == Over \/ Under

\* a list that exists in memory is no longer than memory
Listed == n < 281474976710656 \div w

\* The forms the library uses.
WriteForm == off > Wrap(cap - Wrap(n * w))                     \* n: length of a list
ReadForm  == \/ off >= 0 /\ n > cap \div w
             \/ off > Wrap(cap - Wrap(n * w))
BitForm   == off > Wrap(cap - n)                                \* w = 1

WriteExact == Listed => ((WriteForm \/ Under) <=> Out)
ReadExact  == ((ReadForm \/ Under) <=> Out)
BitExact   == w = 1 => ((BitForm \/ Under) <=> Out)
\* each error only when its own condition holds, except that an access
\* below zero may be reported as over where it wraps
WriteKind == Listed => (WriteForm => Over)
ReadKind  == off >= 0 => (ReadForm <=> Over)

\* Forms that are wrong (each must be refuted).
SumForm     == Wrap(off + Wrap(n * w)) > cap
ProductForm == off > Wrap(cap - Wrap(n * w))
SumExact     == (SumForm \/ Under) <=> Out
ProductExact == (ProductForm \/ Under) <=> Out

(* the saturated representation *)
Huge == 1000000000
Sat(x) == IF x > Huge THEN Huge ELSE IF x < -Huge THEN -Huge ELSE x
PastEnd(o, m, c) == \/ o > c
                    \/ m > (c - o) \div w
                    \/ o < 0 /\ m = Huge
Small == cap < Huge \div 2
SatSound   == Small => (Over => PastEnd(Sat(off), Sat(n), cap))
SatExact   == Small /\ off >= -Huge /\ ~(off < 0 /\ n >= Huge) => (PastEnd(Sat(off), Sat(n), cap) => Over)
SatAccepts == Small => (Out <=> (PastEnd(Sat(off), Sat(n), cap) \/ Sat(off) < 0))
Good == WriteExact /\ ReadExact /\ BitExact /\ WriteKind /\ ReadKind /\ SatSound /\ SatExact /\ SatAccepts
=============================================================================
