-------------------------------- MODULE Foot --------------------------------
(***************************************************************************)
(* The memory a call may touch.                                            *)
(*                                                                         *)
(* Three sorts of objects are in play: the buffer's storage ("store"), the *)
(* list handed to a write or filled by a MiniBuffer's read ("list") and    *)
(* the slices a buffer is built from when there are several ("in").  A     *)
(* byte of an object is addressed by its distance from the object's first  *)
(* byte, so that bytes before the object have negative addresses.          *)
(*                                                                         *)
(* Reads and Writes are what the contract itself needs and changes;        *)
(* MayRead and MayWrite what an implementation is granted, which is more:  *)
(* all of the contents may be read, and written by a call that writes at   *)
(* all.  Everything else is out of bounds even if nothing shows.           *)
(***************************************************************************)
EXTENDS Crunch

Resizes == {"grow", "trl", "trr", "reset"}

Pure == {"read", "rbit", "rbits", "seek", "seekb", "alignbit", "alignbyte", "after", "afterb", "refresh", "get"}

\* The call has no business writing to the storage.
Quiet(t, s, o) == \/ o.op \in Pure
                  \/ ~Exp(t, s, o).ok
                  \/ o.op = "write" /\ o.vals = <<>>
                  \/ o.op = "sbits" /\ o.n = 0

(* ------------------- what the contract needs and changes ---------------- *)
Bytes(p, n)  == p .. p + n - 1
BitBytes(p, n) == IF n = 0 THEN {} ELSE p \div 8 .. (p + n - 1) \div 8

Reads(s, o) ==
  CASE o.op = "read" -> Bytes(BytePos(s, o), o.n * o.w)
    [] o.op \in {"rbit", "setb", "flip"} -> BitBytes(BitPos(s, o), 1)
    [] o.op \in {"rbits", "sbits"} -> BitBytes(BitPos(s, o), o.n)
    [] o.op = "allb" -> IF o.v = 2 THEN Bytes(0, Len(s.d)) ELSE {}
    [] OTHER -> {}

Writes(s, o) ==
  CASE o.op = "write" -> Bytes(BytePos(s, o), Len(o.vals) * o.w)
    [] o.op \in {"setb", "flip"} -> BitBytes(BitPos(s, o), 1)
    [] o.op = "sbits" -> BitBytes(BitPos(s, o), o.n)
    [] o.op = "allb" -> Bytes(0, Len(s.d))
    [] OTHER -> {}

(* ------------------------------- the grants ----------------------------- *)
\* Byte `at' of object `in'; len: the bytes of the list, cap: the contents
\* and the spare capacity behind them.
MayRead(s, o, in, at, len, cap) ==
  /\ at >= 0
  /\ CASE in = "store" -> at < Len(s.d) \/ (o.op \in Resizes /\ at < cap)
       [] in = "list"  -> at < len
       [] in = "in"    -> o.op = "new" /\ at < len
       [] OTHER        -> FALSE

MayWrite(t, s, o, in, at, len, cap) ==
  /\ MayRead(s, o, in, at, len, cap)
  /\ CASE in = "store" -> o.op # "new" /\ ~Quiet(t, s, o)
       [] in = "list"  -> o.op = "read"
       [] OTHER        -> FALSE

Granted(t, s, o, how, in, at, len, cap) ==
  IF how = "write" THEN MayWrite(t, s, o, in, at, len, cap) ELSE MayRead(s, o, in, at, len, cap)
=============================================================================
