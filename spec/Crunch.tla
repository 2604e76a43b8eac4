------------------------------- MODULE Crunch -------------------------------
(***************************************************************************)
(* The sequential contract of crunch's Buffer and MiniBuffer (v1, v2, v3). *)
(*                                                                         *)
(* State of a buffer, as a client can observe it:                          *)
(*    d     the contents, a sequence of bytes                              *)
(*    off   the byte position,  boff  the bit position                     *)
(* (the capacities are functions of d: Len(d) and 8*Len(d)).               *)
(*                                                                         *)
(* A target t = [v |-> 1..3, kind |-> "buffer" | "mini"] selects the       *)
(* version and the kind.                                                   *)
(*                                                                         *)
(* Operations are records o; o.op is one of                                *)
(*   write, read           raw bytes and typed values                      *)
(*                         (k: "bytes","U","I","F"; w: width; e: order)    *)
(*   rbit, rbits           read a bit / a field                            *)
(*   setb, flip, sbits     write a bit, flip a bit, write a field          *)
(*   allb                  set every bit to v (0,1) or flip all (2)        *)
(*   seek, seekb           move the byte / bit position                    *)
(*   alignbit, alignbyte   align one position to the other                 *)
(*   after, afterb         remaining amounts                               *)
(*   grow, trl, trr, refresh, reset                                        *)
(*   get                   an accessor (k: off, boff, cap, bcap, len)      *)
(* o.next tells the "...Next" form from the positional one.                *)
(*                                                                         *)
(* Exp(t, s, o) is everything the library may do: whether the call may be  *)
(* accepted (ok), the errors it may be rejected with (rej), and, if        *)
(* accepted, the result v and the next state (d, off in offs, boff).       *)
(* A rejected call must not change the state.                              *)
(*                                                                         *)
(* 64-bit arguments beyond +-10^9 are represented by +-10^9 ("huge").      *)
(***************************************************************************)
EXTENDS Bytes

Huge == 1000000000

\* off + n*w > cap, in arbitrary precision (a huge count at a negative
\* position may or may not reach past the end: both are allowed for).
PastEnd(off, n, w, cap) == \/ off > cap
                           \/ n > (cap - off) \div w
                           \/ off < 0 /\ n = Huge

RangeErrs(off, n, w, cap, over, under) ==
  (IF PastEnd(off, n, w, cap) THEN {over} ELSE {}) \cup
  (IF off < 0 THEN {under} ELSE {})

NoVal == <<>>

Keep(s) == [ok |-> TRUE, rej |-> {}, v |-> NoVal, d |-> s.d, offs |-> {s.off}, boff |-> s.boff]

\* A rejection with one of the errors rej ("any": any panic will do).
Rejected(s, rej) == [Keep(s) EXCEPT !.ok = FALSE, !.rej = rej]

\* An access to n elements of w units at off: rejected if any part of it is
\* outside; an empty access outside the buffer may be accepted or rejected.
Access(t, s, errs, n, extra, x) ==
  LET all == errs \cup extra IN
  IF all = {} THEN x
  ELSE IF n = 0 /\ extra = {} THEN [x EXCEPT !.rej = all]
  ELSE Rejected(s, all)

Sizes == {1, 2, 4, 8}

BytePos(s, o) == IF o.next THEN s.off ELSE o.off
BitPos(s, o)  == IF o.next THEN s.boff ELSE o.off

ExpWrite(t, s, o) ==
  LET p    == BytePos(s, o)
      n    == Len(o.vals)
      bad  == o.w \notin Sizes
      errs == IF bad THEN {} ELSE RangeErrs(p, n, o.w, Len(s.d), "overwrite", "underwrite")
  IN  IF bad THEN Rejected(s, {"intsize"})
      ELSE IF errs # {} /\ n > 0 THEN Rejected(s, errs)
      ELSE IF errs # {} THEN [Keep(s) EXCEPT !.rej = errs]
      ELSE [Keep(s) EXCEPT !.d = Overlay(s.d, p, Encode(o.vals, o.w, o.e)),
                           !.offs = {IF o.next THEN p + n * o.w ELSE s.off}]

\* pre: the old content of a caller-supplied result list (MiniBuffer typed
\* reads fill it); absent when the result is a new list.
ReadVal(s, o, p) ==
  LET new == Decode(s.d, p, o.n, o.w, o.e)
  IN  IF "pre" \in DOMAIN o THEN new \o SubSeq(o.pre, o.n + 1, Len(o.pre)) ELSE new

ExpRead(t, s, o) ==
  LET p    == BytePos(s, o)
      bad  == o.w \notin Sizes
      errs == IF bad THEN {} ELSE RangeErrs(p, o.n, o.w, Len(s.d), "overread", "underread")
  IN  IF bad THEN Rejected(s, {"intsize"} \cup RangeErrs(p, o.n, 1, Len(s.d), "overread", "underread"))
      ELSE IF errs # {} /\ o.n > 0 THEN Rejected(s, errs)
      ELSE IF errs # {} THEN [Keep(s) EXCEPT !.rej = errs, !.v = IF "pre" \in DOMAIN o THEN o.pre ELSE NoVal]
      ELSE [Keep(s) EXCEPT !.v = ReadVal(s, o, p),
                           !.offs = {IF o.next THEN p + o.n * o.w ELSE s.off}]

ExpReadBit(t, s, o) ==
  LET p    == BitPos(s, o)
      errs == RangeErrs(p, 1, 1, 8 * Len(s.d), "overread", "underread")
  IN  IF errs # {} THEN Rejected(s, errs)
      ELSE [Keep(s) EXCEPT !.v = Bit(s.d, p), !.boff = IF o.next THEN p + 1 ELSE @]

ExpReadBits(t, s, o) ==
  LET p    == BitPos(s, o)
      errs == RangeErrs(p, o.n, 1, 8 * Len(s.d), "overread", "underread")
  IN  IF errs # {} /\ o.n > 0 THEN Rejected(s, errs)
      ELSE [Keep(s) EXCEPT !.v = IF o.n = 0 THEN Fill(8, 0) ELSE Field(s.d, p, o.n),
                           !.rej = errs,
                           !.boff = IF o.next THEN p + o.n ELSE @]

ExpSetBit(t, s, o) ==
  LET p    == BitPos(s, o)
      errs == RangeErrs(p, 1, 1, 8 * Len(s.d), "overwrite", "underwrite")
              \cup (IF o.v \in {0, 1} THEN {} ELSE {"bit"})
  IN  IF errs # {} THEN Rejected(s, errs)
      ELSE [Keep(s) EXCEPT !.d = WithBit(s.d, p, o.v), !.boff = IF o.next THEN p + 1 ELSE @]

ExpFlip(t, s, o) ==
  LET p    == BitPos(s, o)
      errs == RangeErrs(p, 1, 1, 8 * Len(s.d), "overwrite", "underwrite")
  IN  IF errs # {} THEN Rejected(s, errs)
      ELSE [Keep(s) EXCEPT !.d = WithBit(s.d, p, 1 - Bit(s.d, p)),
                           !.boff = IF o.next THEN p + 1 ELSE @]

ExpSetBits(t, s, o) ==
  LET p    == BitPos(s, o)
      errs == RangeErrs(p, o.n, 1, 8 * Len(s.d), "overwrite", "underwrite")
  IN  IF errs # {} /\ o.n > 0 THEN Rejected(s, errs)
      ELSE [Keep(s) EXCEPT !.d = IF o.n = 0 THEN s.d ELSE WithField(s.d, p, o.n, o.val),
                           !.rej = errs,
                           !.boff = IF o.next THEN p + o.n ELSE @]

ExpAllBits(t, s, o) ==
  [Keep(s) EXCEPT !.d = CASE o.v = 0 -> Fill(Len(s.d), 0)
                          [] o.v = 1 -> Fill(Len(s.d), 255)
                          [] o.v = 2 -> Complement(s.d)]

\* bit position div 8; for a negative bit position rounding is not specified
Div8(b) == IF b >= 0 THEN {b \div 8} ELSE {b \div 8, -((-b) \div 8)}

\* No memory holds Huge bytes: such a growth is refused, one way or another.
ExpGrow(t, s, o) ==
  IF o.n >= Huge THEN Rejected(s, {"any"})
  ELSE IF o.n >= 0 THEN [Keep(s) EXCEPT !.d = s.d \o Fill(o.n, 0)]
  ELSE Rejected(s, IF t.v = 3 /\ t.kind = "buffer" THEN {"bytecount"} ELSE {"any"})

ExpTrunc(t, s, o) ==
  IF o.n < 0 THEN Rejected(s, IF t.kind = "buffer" THEN {"bytecount"} ELSE {"any"})
  ELSE IF o.n > Len(s.d) THEN Rejected(s, {"any"})
  ELSE [Keep(s) EXCEPT !.d = IF o.op = "trl" THEN SubSeq(s.d, o.n + 1, Len(s.d))
                             ELSE SubSeq(s.d, 1, Len(s.d) - o.n)]

Exp(t, s, o) ==
  CASE o.op = "write"     -> ExpWrite(t, s, o)
    [] o.op = "read"      -> ExpRead(t, s, o)
    [] o.op = "rbit"      -> ExpReadBit(t, s, o)
    [] o.op = "rbits"     -> ExpReadBits(t, s, o)
    [] o.op = "setb"      -> ExpSetBit(t, s, o)
    [] o.op = "flip"      -> ExpFlip(t, s, o)
    [] o.op = "sbits"     -> ExpSetBits(t, s, o)
    [] o.op = "allb"      -> ExpAllBits(t, s, o)
    [] o.op = "seek"      -> [Keep(s) EXCEPT !.offs = {IF o.rel THEN s.off + o.off ELSE o.off}]
    [] o.op = "seekb"     -> [Keep(s) EXCEPT !.boff = IF o.rel THEN s.boff + o.off ELSE o.off]
    [] o.op = "alignbit"  -> [Keep(s) EXCEPT !.boff = 8 * s.off]
    [] o.op = "alignbyte" -> [Keep(s) EXCEPT !.offs = Div8(s.boff)]
    [] o.op = "after"     -> [Keep(s) EXCEPT !.v = Len(s.d) - (IF o.has THEN o.off ELSE s.off) - 1]
    [] o.op = "afterb"    -> [Keep(s) EXCEPT !.v = 8 * Len(s.d) - (IF o.has THEN o.off ELSE s.boff) - 1]
    [] o.op = "get"       -> [Keep(s) EXCEPT !.v = CASE o.k = "off"  -> s.off
                                                      [] o.k = "boff" -> s.boff
                                                      [] o.k \in {"cap", "len"} -> Len(s.d)
                                                      [] o.k = "bcap" -> 8 * Len(s.d)]
    [] o.op = "grow"      -> ExpGrow(t, s, o)
    [] o.op \in {"trl", "trr"} -> ExpTrunc(t, s, o)
    [] o.op = "refresh"   -> Keep(s)
    [] o.op = "reset"     -> [Keep(s) EXCEPT !.d = <<>>, !.offs = {0}, !.boff = 0]

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))

\* A new buffer built from the given slices.
New(slices) == [d |-> Concat(slices), off |-> 0, boff |-> 0]

Empty == New(<<>>)

(***************************************************************************)
(* The contract as a state machine: s is the buffer, last the last call    *)
(* and its outcome.                                                        *)
(***************************************************************************)
ResultOk(v)  == [k |-> "ok", v |-> v]
ResultErr(e) == [k |-> "panic", e |-> e]

\* All outcomes <<result, next state>> of call o in state s.
Outcomes(t, s, o) ==
  LET x == Exp(t, s, o) IN
  (IF x.ok THEN {<<ResultOk(x.v), [d |-> x.d, off |-> f, boff |-> x.boff]>> : f \in x.offs} ELSE {})
  \cup {<<ResultErr(e), s>> : e \in x.rej}

=============================================================================
