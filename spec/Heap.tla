-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* C11: ownership of storage.                                              *)
(*                                                                         *)
(* A world is a buffer and the memory objects a client holds:              *)
(*    d      the contents of the buffer                                    *)
(*    objs   a sequence of objects [b, lo, st]: b is the object's memory   *)
(*           (spare capacity included), and st tells how it is related to  *)
(*           the buffer:                                                   *)
(*             "live"  the Len(d) bytes of b from lo on are the storage of *)
(*                     the buffer                                          *)
(*             "own"   it shares nothing with the buffer                   *)
(*             "free"  nothing is promised (the storage of a buffer that   *)
(*                     has been resized since)                             *)
(* Objects are the input slices of the constructor (with the array around  *)
(* them), results of the internal-bytes accessor (live), data handed to    *)
(* write operations and lists returned by reads of 16-, 32- and 64-bit     *)
(* values (own), and the contents of other buffers (own).                  *)
(***************************************************************************)
EXTENDS Bytes

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))

(* The constructor. An input is [b, lo, n]: the n bytes of b from lo on.   *)
BuiltContents(ins) == Concat([j \in 1 .. Len(ins) |-> Slice(ins[j].b, ins[j].lo, ins[j].n)])

Built(ins) ==
  [d |-> BuiltContents(ins),
   objs |-> [j \in 1 .. Len(ins) |-> [b |-> ins[j].b, lo |-> ins[j].lo,
                                      st |-> IF Len(ins) = 1 THEN "live" ELSE "own"]]]

Live(o) == o.st = "live"

(* The buffer's contents become d2 in place. *)
InPlace(w, d2) ==
  [d |-> d2, objs |-> [j \in DOMAIN w.objs |->
                         IF Live(w.objs[j]) THEN [w.objs[j] EXCEPT !.b = Overlay(@, w.objs[j].lo, d2)]
                         ELSE w.objs[j]]]

(* A resizing operation leaves d2. *)
Resized(w, d2) ==
  [d |-> d2, objs |-> [j \in DOMAIN w.objs |->
                         IF Live(w.objs[j]) THEN [w.objs[j] EXCEPT !.st = "free"] ELSE w.objs[j]]]

(* The client changes byte i (0-based) of object j to v. *)
InWindow(w, j, i) == LET o == w.objs[j] IN Live(o) /\ i >= o.lo /\ i < o.lo + Len(w.d)

Poked(w, j, i, v) ==
  LET o == w.objs[j]
  IN  IF InWindow(w, j, i)
      THEN InPlace(w, Overlay(w.d, i - o.lo, <<v>>))
      ELSE [w EXCEPT !.objs[j].b = Overlay(@, i, <<v>>)]

(* n bytes of object j from i on are written at p: the data is what they   *)
(* were when the call was made, also where they are part of the storage.   *)
Put(w, j, i, n, p) == InPlace(w, Overlay(w.d, p, Slice(w.objs[j].b, i, n)))

Obtain(w, o) == [w EXCEPT !.objs = Append(@, o)]

Own(b)       == [b |-> b, lo |-> 0, st |-> "own"]
View(w)      == [b |-> w.d, lo |-> 0, st |-> "live"]
=============================================================================
