------------------------------- MODULE CrunchMC -------------------------------
(***************************************************************************)
(* Bounded model checking of the contract itself: in every reachable state *)
(* of a small buffer, every call of the alphabet obeys the laws below.     *)
(* The laws restate the properties independently of the definitions in     *)
(* Crunch.tla: index by index, as arithmetic on numbers, as round trips    *)
(* and as equations between calls.                                         *)
(***************************************************************************)
EXTENDS Ops, TLC, Json, IOUtils

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"

MaxLen == IF Deep THEN 3 ELSE 2

VARIABLES t, s

vars == <<t, s>>

\* Contents vary over a small closed set of byte values.
Broad == Prop \in {"C06", "C07", "C08", "C12", "ALL"}       \* the whole alphabet
Cells == IF Deep THEN {0, 255, 129} ELSE IF Broad THEN {0, 129} ELSE {0, 255, 129}

Contents == UNION {[1 .. n -> Cells] : n \in 0 .. MaxLen}

TypeOK == /\ t \in Targets
          /\ s.d \in Seq(Byte) /\ s.off \in Int /\ s.boff \in Int

(* ------------------------------- alphabets ----------------------------- *)
Pos  == -2 .. MaxLen + 1
BPos == {-9, -1, 0, 1, 5, 7, 8, 9, 15, 16, 8 * MaxLen - 1, 8 * MaxLen, 8 * MaxLen + 1}

CellVals(f, n) == {[q \in 1 .. n |-> [r \in 1 .. f[2] |-> c]] : c \in {0, 255}} \cup {Vals(f[2], n)}

RwFams(tt) == {f \in Fams(tt) : f[2] <= 4}

WriteCalls(tt) == UNION {{WriteOp(f, nx, off, vs) : nx \in BOOLEAN, off \in Pos,
                            vs \in UNION {CellVals(f, n) : n \in (IF f[1] = "byte" THEN {1} ELSE 0 .. 2)}}
                         : f \in RwFams(tt)}
ReadCalls(tt) == UNION {{ReadFor(tt, f, nx, off, n) : nx \in BOOLEAN, off \in Pos,
                           n \in (IF f[1] = "byte" THEN {1} ELSE 0 .. 3)}
                        : f \in RwFams(tt)}
BitCalls(tt) == UNION {{BitRead(nx, o), BitFlip(nx, o), BitSet(nx, o, 0), BitSet(nx, o, 1)} : nx \in BOOLEAN, o \in BPos}
FieldWidths == {0, 1, 2, 3, 7, 8, 9, 15, 16}
FV == {<<0,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,255,255>>, <<0,0,0,0,0,0,129,0>>, <<17,34,51,68,85,102,64,129>>}
FieldCalls(tt) == {BitsRead(nx, o, n) : nx \in BOOLEAN, o \in BPos, n \in FieldWidths}
                  \cup {BitsSet(nx, o, v, n) : nx \in BOOLEAN, o \in BPos, n \in FieldWidths, v \in FV}
AllCalls == {AllBits(v) : v \in 0 .. 2}
CursorCalls == {SeekTo(n) : n \in Pos} \cup {SeekBy(n) : n \in {-1, 1, 2}}
               \cup {SeekBitTo(n) : n \in BPos} \cup {SeekBitBy(n) : n \in {-5, 1, 8}}
               \cup {Nullary("alignbit"), Nullary("alignbyte")}
               \cup {AfterOp(nm, h, n) : nm \in {"after", "afterb"}, h \in BOOLEAN, n \in {-1, 0, 3}}
SizeCalls(tt) == GrowOps({-1, 0, 1, 2, Huge}) \cup TruncOps(tt, {-1, 0, 1, 2, MaxLen + 1}) \cup ResetOps(tt) \cup {Nullary("refresh")}

Alphabet(tt) ==
  CASE Prop = "C01" -> WriteCalls(tt)
    [] Prop = "C02" -> ReadCalls(tt)
    [] Prop = "C03" -> {o \in WriteCalls(tt) \cup ReadCalls(tt) : o.k = "F"}
    [] Prop = "C04" -> BitCalls(tt)
    [] Prop = "C05" -> FieldCalls(tt)
    [] Prop = "C18" -> AllCalls \cup SizeCalls(tt)
    [] Prop \in {"C09", "C10", "C17"} -> SizeCalls(tt) \cup AllCalls
    [] OTHER -> WriteCalls(tt) \cup ReadCalls(tt) \cup BitCalls(tt) \cup FieldCalls(tt) \cup AllCalls
                \cup CursorCalls \cup SizeCalls(tt)

(* -------------------------------- laws --------------------------------- *)
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE 256 * Num(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]

RECURSIVE Power(_)
Power(n) == IF n = 0 THEN 1 ELSE 2 * Power(n - 1)

RECURSIVE BitNum(_, _, _)     \* bits off .. off+n-1 as a number
BitNum(d, off, n) == IF n = 0 THEN 0 ELSE 2 * BitNum(d, off, n - 1) + Bit(d, off + n - 1)

NUnits(o) == CASE o.op = "write" -> Len(o.vals) * o.w
               [] o.op = "read"  -> o.n * o.w
               [] o.op \in {"rbits", "sbits"} -> o.n
               [] o.op \in {"rbit", "setb", "flip"} -> 1

ByteOp(o) == o.op \in {"write", "read"}
BitOp(o)  == o.op \in {"rbit", "setb", "flip", "rbits", "sbits"}
At(st, o) == IF ByteOp(o) THEN BytePos(st, o) ELSE BitPos(st, o)
Touched(st, o) == At(st, o) .. At(st, o) + NUnits(o) - 1
Units(st, o) == IF ByteOp(o) THEN Len(st.d) ELSE 8 * Len(st.d)
Inside(st, o) == Touched(st, o) \subseteq 0 .. Units(st, o) - 1

\* C06: rejected iff some touched unit is not in the buffer.
LawReject(st, o) ==
  (ByteOp(o) \/ BitOp(o)) =>
    LET x == Exp(t, st, o) IN
    IF Touched(st, o) = {} THEN x.ok
    ELSE /\ x.ok <=> Inside(st, o)
         /\ x.ok <=> x.rej = {}
         /\ (~x.ok) => LET T == Touched(st, o)
                           over == \E j \in T : j >= Units(st, o)
                           under == \E j \in T : j < 0
                           w == o.op \in {"write", "setb", "flip", "sbits"}
                       IN  x.rej = (IF over THEN {IF w THEN "overwrite" ELSE "overread"} ELSE {})
                                   \cup (IF under THEN {IF w THEN "underwrite" ELSE "underread"} ELSE {})

\* C07: a rejection leaves everything as it was.
LawAtomic(st, o) == \A out \in Outcomes(t, st, o) : out[1].k = "panic" => out[2] = st

\* C01: index by index.
LawWrite(st, o) ==
  (o.op = "write" /\ Inside(st, o)) =>
    LET x == Exp(t, st, o)
        p == At(st, o)
    IN  /\ Len(x.d) = Len(st.d)
        /\ \A j \in 0 .. Len(st.d) - 1 :
             IF j \notin Touched(st, o) THEN x.d[j + 1] = st.d[j + 1]
             ELSE LET q == (j - p) \div o.w
                      r == (j - p) - q * o.w
                  IN  x.d[j + 1] = o.vals[q + 1][IF o.e = "LE" THEN o.w - r ELSE r + 1]
        \* what was written is what is read back
        /\ Exp(t, [d |-> x.d, off |-> 0, boff |-> 0],
               ReadOp(<<o.k, o.w, o.e>>, FALSE, p, Len(o.vals))).v = o.vals
        \* and the other order reads the bytes reversed
        /\ Exp(t, [d |-> x.d, off |-> 0, boff |-> 0],
               ReadOp(<<o.k, o.w, IF o.e = "LE" THEN "BE" ELSE "LE">>, FALSE, p, Len(o.vals))).v
             = [q \in 1 .. Len(o.vals) |-> Rev(o.vals[q])]

\* C02: as numbers (widths up to 2 stay within TLC's integers).
LawRead(st, o) ==
  (o.op = "read" /\ Inside(st, o)) =>
    LET x == Exp(t, st, o)
        p == At(st, o)
    IN  /\ x.d = st.d
        /\ Len(x.v) = o.n + (IF "pre" \in DOMAIN o THEN 2 ELSE 0)
        /\ \A q \in 1 .. o.n :
             /\ Len(x.v[q]) = o.w
             /\ o.w <= 2 =>
                  Num(x.v[q]) = (IF o.w = 1 THEN st.d[p + q]
                                 ELSE IF o.e = "BE" THEN 256 * st.d[p + 2*q - 1] + st.d[p + 2*q]
                                 ELSE st.d[p + 2*q - 1] + 256 * st.d[p + 2*q])
             \* consecutive elements are independent: reading one at a time is the same
             /\ x.v[q] = Exp(t, st, ReadOp(<<o.k, o.w, o.e>>, FALSE, p + (q - 1) * o.w, 1)).v[1]
        /\ "pre" \in DOMAIN o => \A q \in o.n + 1 .. Len(x.v) : x.v[q] = o.pre[q]

\* C04: single bits, by weight.
LawBit(st, o) ==
  (o.op \in {"rbit", "setb", "flip"} /\ Inside(st, o)) =>
    LET x == Exp(t, st, o)
        p == At(st, o)
        old == (st.d[p \div 8 + 1] \div Power(7 - (p % 8))) % 2
    IN  CASE o.op = "rbit" -> x.v = old /\ x.d = st.d
          [] OTHER -> LET new == IF o.op = "setb" THEN o.v ELSE 1 - old IN
                      /\ Len(x.d) = Len(st.d)
                      /\ x.d[p \div 8 + 1] = st.d[p \div 8 + 1] + (new - old) * Power(7 - (p % 8))
                      /\ \A j \in 1 .. Len(st.d) : j # p \div 8 + 1 => x.d[j] = st.d[j]

\* C05: fields as numbers and bit by bit.
LawField(st, o) ==
  (o.op \in {"rbits", "sbits"} /\ Inside(st, o)) =>
    LET x == Exp(t, st, o)
        p == At(st, o)
    IN  IF o.op = "rbits"
        THEN /\ x.d = st.d /\ Num(x.v) = BitNum(st.d, p, o.n)
             /\ (o.n = 8 /\ p % 8 = 0) => Num(x.v) = st.d[p \div 8 + 1]
        ELSE /\ Len(x.d) = Len(st.d)
             /\ \A j \in 0 .. 8 * Len(st.d) - 1 :
                  IF j \in Touched(st, o)
                  THEN Bit(x.d, j) = (Num(SubSeq(o.val, 6, 8)) \div Power(p + o.n - 1 - j)) % 2
                  ELSE Bit(x.d, j) = Bit(st.d, j)

\* C08: a Next call is the positional one at the cursor, plus the advance.
LawNext(st, o) ==
  (ByteOp(o) \/ BitOp(o)) =>
    LET x == Exp(t, st, o)
        y == Exp(t, st, [o EXCEPT !.next = FALSE, !.off = At(st, o)])
    IN  /\ x.ok = y.ok /\ x.rej = y.rej /\ x.v = y.v /\ x.d = y.d
        /\ y.offs = {st.off} /\ y.boff = st.boff
        /\ (x.ok /\ x.rej = {}) =>
              /\ x.offs = {st.off + IF o.next /\ ByteOp(o) THEN NUnits(o) ELSE 0}
              /\ x.boff = st.boff + IF o.next /\ BitOp(o) THEN NUnits(o) ELSE 0
LawCursor(st, o) ==
  LET x == Exp(t, st, o) IN
  /\ o.op \in {"seek", "alignbyte"} => x.boff = st.boff /\ x.d = st.d
  /\ o.op \in {"seekb", "alignbit"} => x.offs = {st.off} /\ x.d = st.d
  /\ o.op = "alignbit" => x.boff = 8 * st.off
  /\ (o.op = "alignbyte" /\ st.boff >= 0) => \E f \in 0 .. 100 : x.offs = {f} /\ 8 * f <= st.boff /\ st.boff < 8 * f + 8
  /\ o.op \in {"after", "afterb"} => x.d = st.d /\ x.offs = {st.off} /\ x.boff = st.boff

\* C10, C09
LawSize(st, o) ==
  LET x == Exp(t, st, o)
      y(op, n) == Exp(t, [d |-> x.d, off |-> st.off, boff |-> st.boff], SizeOp(op, n))
  IN  /\ o.op \notin {"grow", "trl", "trr", "reset"} => Len(x.d) = Len(st.d)
      /\ o.op = "grow" => x.ok = (o.n \in 0 .. Huge - 1) /\ x.rej = IF x.ok THEN {} ELSE {IF t.v = 3 /\ t.kind = "buffer" /\ o.n < 0 THEN "bytecount" ELSE "any"}
      /\ (o.op = "grow" /\ x.ok) =>
           /\ Len(x.d) = Len(st.d) + o.n
           /\ \A j \in 1 .. Len(x.d) : x.d[j] = IF j <= Len(st.d) THEN st.d[j] ELSE 0
           /\ y("trr", o.n).d = st.d
      /\ (o.op \in {"trl", "trr"} /\ x.ok) =>
           /\ Len(x.d) = Len(st.d) - o.n
           /\ \A j \in 1 .. Len(x.d) : x.d[j] = st.d[IF o.op = "trl" THEN j + o.n ELSE j]
           /\ x.offs = {st.off} /\ x.boff = st.boff
      /\ o.op = "reset" => x.d = <<>> /\ x.offs = {0} /\ x.boff = 0
      /\ o.op = "refresh" => Outcomes(t, st, o) = {<<ResultOk(NoVal), st>>}

\* C18
LawAll(st, o) ==
  o.op = "allb" =>
    LET x == Exp(t, st, o) IN
    /\ Len(x.d) = Len(st.d) /\ x.offs = {st.off} /\ x.boff = st.boff
    /\ \A j \in 0 .. 8 * Len(st.d) - 1 : Bit(x.d, j) = IF o.v = 2 THEN 1 - Bit(st.d, j) ELSE o.v

\* C12: on in-range calls the two kinds agree.
Other == [v |-> t.v, kind |-> IF t.kind = "buffer" THEN "mini" ELSE "buffer"]
LawKinds(st, o) ==
  (InRange(t, st, o) /\ "pre" \notin DOMAIN o) => Outcomes(t, st, o) = Outcomes(Other, st, o)

Law(st, o) ==
  CASE Prop = "C01" -> LawWrite(st, o)
    [] Prop = "C02" -> LawRead(st, o)
    [] Prop = "C03" -> LawWrite(st, o) /\ LawRead(st, o)
    [] Prop = "C04" -> LawBit(st, o)
    [] Prop = "C05" -> LawField(st, o)
    [] Prop = "C06" -> LawReject(st, o)
    [] Prop = "C07" -> LawAtomic(st, o)
    [] Prop = "C08" -> LawNext(st, o) /\ LawCursor(st, o)
    [] Prop \in {"C09", "C10"} -> LawSize(st, o)
    [] Prop = "C12" -> LawKinds(st, o)
    [] Prop = "C17" -> LawSize(st, o) /\ LawAtomic(st, o)
    [] Prop = "C18" -> LawAll(st, o)
    [] OTHER -> LawWrite(st, o) /\ LawRead(st, o) /\ LawBit(st, o) /\ LawField(st, o) /\ LawReject(st, o)
                /\ LawAtomic(st, o) /\ LawNext(st, o) /\ LawCursor(st, o) /\ LawSize(st, o) /\ LawAll(st, o)

(* ------------------------------ the machine ---------------------------- *)
Small(st) == /\ Len(st.d) <= MaxLen
             /\ st.d \in Contents
             /\ st.off \in -1 .. MaxLen + 1
             /\ st.boff \in (IF Deep THEN {-1, 0, 3, 5, 8, 8 * MaxLen, 8 * MaxLen + 1} ELSE {-1, 0, 5, 8, 8 * MaxLen})

Init == t \in Targets /\ s \in {[d |-> d, off |-> 0, boff |-> 0] : d \in Contents}

\* The calls that move the machine (for the broad properties a part of the
\* alphabet); the laws are about every call of the alphabet in every state
\* so reached.
Step(calls) ==
  \E o \in calls : \E out \in Outcomes(t, s, o) :
     /\ t' = t
     /\ s' = out[2]
     /\ Small(s')

In(ps) == Broad \/ Prop \in ps
Thin(calls) == IF ~Broad THEN calls
               ELSE {o \in calls : /\ ("w" \in DOMAIN o => o.w <= 2 /\ o.k \in {"C", "U", "bytes"})
                                   /\ (o.op \in {"rbits", "sbits"} => o.n \in {0, 3, 9})
                                   /\ (o.op = "write" => Len(o.vals) <= 1)}

Write    == In({"C01", "C03"}) /\ Step(Thin(WriteCalls(t)))
Read     == In({"C02", "C03"}) /\ Step(Thin(ReadCalls(t)))
BitOps   == In({"C04"}) /\ Step(BitCalls(t))
Fields   == In({"C05"}) /\ Step(Thin(FieldCalls(t)))
WholeBuf == In({"C09", "C10", "C17", "C18"}) /\ Step(AllCalls)
Cursor   == In({}) /\ Step(CursorCalls)
Resize   == In({"C09", "C10", "C17", "C18"}) /\ Step(SizeCalls(t))

Next == Write \/ Read \/ BitOps \/ Fields \/ WholeBuf \/ Cursor \/ Resize

Spec == Init /\ [][Next]_vars

Laws == \A o \in Alphabet(t) : Law(s, o)
=============================================================================
