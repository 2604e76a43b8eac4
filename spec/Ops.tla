--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* The calls each version and kind offers, as op records of Crunch.tla,    *)
(* over small ranges of arguments: the alphabets from which CrunchMC and   *)
(* CrunchVec build their behaviours.                                       *)
(***************************************************************************)
EXTENDS Crunch, FiniteSets

Targets == {[v |-> v, kind |-> kd] : v \in 1 .. 3, kd \in {"buffer", "mini"}}

\* <<k, w, e>>: the integer and raw-byte families.
IntFams(t) ==
  {<<"bytes", 1, "LE">>}
  \cup (IF t.kind = "buffer" THEN {<<"byte", 1, "LE">>} ELSE {})
  \cup CASE t.v = 1 -> {<<"C", w, e>> : w \in {1, 2, 4, 8}, e \in {"LE", "BE"}}
         [] t.v = 2 -> {<<"U", w, e>> : w \in {2, 4, 8}, e \in {"LE", "BE"}}
         [] t.v = 3 -> {<<kk, w, e>> : kk \in {"U", "I"}, w \in {2, 4, 8}, e \in {"LE", "BE"}}

FloatFams(t) == IF t.v = 3 THEN {<<"F", w, e>> : w \in {4, 8}, e \in {"LE", "BE"}} ELSE {}

Fams(t) == IntFams(t) \cup FloatFams(t)

Typed(k) == k \in {"U", "I", "F"}

WriteOp(f, next, off, vals) ==
  [op |-> "write", k |-> f[1], w |-> f[2], e |-> f[3], next |-> next, off |-> off, vals |-> vals]

ReadOp(f, next, off, n) ==
  [op |-> "read", k |-> f[1], w |-> f[2], e |-> f[3], next |-> next, off |-> off, n |-> n]

\* a MiniBuffer's typed reads fill a list the caller supplies
Pre(w, len) == [q \in 1 .. len |-> [r \in 1 .. w |-> 200 + q + r]]

ReadFor(t, f, next, off, n) ==
  IF t.kind = "mini" /\ Typed(f[1])
  THEN [op |-> "read", k |-> f[1], w |-> f[2], e |-> f[3], next |-> next, off |-> off, n |-> n,
        pre |-> Pre(f[2], n + 2)]
  ELSE ReadOp(f, next, off, n)

BitRead(next, off)     == [op |-> "rbit", next |-> next, off |-> off]
BitsRead(next, off, n) == [op |-> "rbits", next |-> next, off |-> off, n |-> n]
BitSet(next, off, v)   == [op |-> "setb", next |-> next, off |-> off, v |-> v]
BitFlip(next, off)     == [op |-> "flip", next |-> next, off |-> off]
BitsSet(next, off, val, n) == [op |-> "sbits", next |-> next, off |-> off, n |-> n, val |-> val]
AllBits(v)             == [op |-> "allb", v |-> v]
SeekTo(off)            == [op |-> "seek", off |-> off, rel |-> FALSE]
SeekBy(off)            == [op |-> "seek", off |-> off, rel |-> TRUE]
SeekBitTo(off)         == [op |-> "seekb", off |-> off, rel |-> FALSE]
SeekBitBy(off)         == [op |-> "seekb", off |-> off, rel |-> TRUE]
Nullary(name)          == [op |-> name]
AfterOp(name, has, off) == [op |-> name, off |-> off, has |-> has]
SizeOp(name, n)        == [op |-> name, n |-> n]

ResetOps(t) == IF t.v >= 2 THEN {Nullary("reset")} ELSE {}
TruncOps(t, ns) == IF t.v = 3 THEN {SizeOp(nm, n) : nm \in {"trl", "trr"}, n \in ns} ELSE {}
GrowOps(ns) == {SizeOp("grow", n) : n \in ns}

\* Distinguishable values: no two bytes of a list alike, high bits set.
Val(w, q) == [r \in 1 .. w |-> 128 + 16 * q + r]
Vals(w, n) == [q \in 1 .. n |-> Val(w, q)]

FillVals(n, x) == [q \in 1 .. n |-> <<x>>]

\* 0, 1, ..., n-1: bytes that tell their position.
Ramp(n) == [j \in 1 .. n |-> j]

\* In-range: accepted without reservation.
InRange(t, s, o) == LET x == Exp(t, s, o) IN x.ok /\ x.rej = {}
=============================================================================
