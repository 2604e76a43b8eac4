------------------------------ MODULE CrunchVec ------------------------------
(***************************************************************************)
(* Behaviours of the contract, for replay into the real library.           *)
(*                                                                         *)
(* For each property (PROP) Starts gives the initial states and Alphabet   *)
(* the calls tried in a state; TLC enumerates every sequence of Depth      *)
(* calls and prints each, with what the contract expects of every call.    *)
(* The history variable makes sequences, not states, the unit: what the    *)
(* real buffer remembers beyond its contents (spare storage, cached        *)
(* capacities) depends on the path.                                        *)
(*                                                                         *)
(* SHARD/SHARDS split the initial states; TIER widens the alphabets.       *)
(***************************************************************************)
EXTENDS Ops, TLC, Json, IOUtils

Prop  == IOEnv.PROP
Deep  == IOEnv.TIER = "thorough"
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES t, s, h

vars == <<t, s, h>>

Buffers == {x \in Targets : x.kind = "buffer"}

St(d, off, boff) == [d |-> d, off |-> off, boff |-> boff]

Pats(n) == {Fill(n, 0), Fill(n, 255), [j \in 1 .. n |-> (j * 37 + 129) % 256]}

(* -------------------------------- C01 / C02 / C03 ---------------------- *)
RwLens == IF Deep THEN 0 .. 18 ELSE {0, 1, 2, 3, 4, 5, 8, 9, 17}

RwStarts(x) == UNION {{St(Fill(n, 165), off, 3) : off \in {0, n \div 2, n}} : n \in RwLens}
ReadStarts(x) == UNION {{St(Ramp(n), off, 3) : off \in {0, n \div 2, n}}
                        \cup {St([j \in 1 .. n |-> 255 - j], n \div 3, 0)} : n \in RwLens}

Ns(st, w, f) == IF f = "byte" THEN {1} ELSE 0 .. Min2(3 + (IF Deep THEN 2 ELSE 0), Len(st.d) \div w)

\* n = 0 also exercises the empty list
Writes(x, st, fams) ==
  UNION {
    UNION {{WriteOp(f, FALSE, off, Vals(f[2], n)) : off \in 0 .. Len(st.d) - n * f[2]} : n \in Ns(st, f[2], f[1])}
    \cup {WriteOp(f, TRUE, 0, Vals(f[2], n)) : n \in {m \in Ns(st, f[2], f[1]) : st.off + m * f[2] <= Len(st.d)}}
  : f \in fams}

Reads(x, st, fams) ==
  UNION {
    UNION {{ReadFor(x, f, FALSE, off, n) : off \in 0 .. Len(st.d) - n * f[2]} : n \in Ns(st, f[2], f[1])}
    \cup {ReadFor(x, f, TRUE, 0, n) : n \in {m \in Ns(st, f[2], f[1]) : st.off + m * f[2] <= Len(st.d)}}
  : f \in fams}

F32Pats == {<<0,0,0,0>>, <<128,0,0,0>>, <<63,128,0,0>>, <<127,128,0,0>>, <<255,128,0,0>>,
            <<127,192,0,0>>, <<127,128,0,1>>, <<255,191,255,255>>, <<127,255,255,255>>,
            <<0,0,0,1>>, <<128,127,255,255>>, <<0,128,0,0>>, <<127,127,255,255>>, <<255,192,18,52>>,
            <<65,32,4,133>>}
F64Pats == {<<0,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<63,240,0,0,0,0,0,0>>,
            <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>, <<127,248,0,0,0,0,0,0>>,
            <<127,240,0,0,0,0,0,1>>, <<255,247,255,255,255,255,255,255>>,
            <<127,255,255,255,255,255,255,255>>, <<0,0,0,0,0,0,0,1>>,
            <<128,15,255,255,255,255,255,255>>, <<0,16,0,0,0,0,0,0>>,
            <<127,239,255,255,255,255,255,255>>, <<127,240,0,0,222,173,190,239>>,
            <<54,160,0,0,0,0,0,0>>, <<71,239,255,255,224,0,0,0>>, <<64,9,33,251,84,68,45,24>>}

FPats(w) == IF w = 4 THEN F32Pats ELSE F64Pats

\* every special pattern written, and read back from where it was put
FloatOps(x, st) ==
  Writes(x, st, FloatFams(x)) \cup Reads(x, st, FloatFams(x))
  \cup UNION {{WriteOp(f, nx, off, <<p, Val(f[2], 1), p>>) :
                 nx \in {FALSE}, p \in FPats(f[2]), off \in {o \in {0, 1} : o + 3 * f[2] <= Len(st.d)}}
              : f \in FloatFams(x)}

FloatStarts(x) ==
  IF x.v # 3 THEN {}
  ELSE UNION {{St(Fill(n, 165), off, 3) : off \in {0, n \div 2, n}} : n \in {0, 4, 7, 8, 12, 17, 25}}
       \cup {St(<<1>> \o Encode(<<p>>, 4, e) \o <<2>>, 1, 0) : p \in F32Pats, e \in {"LE", "BE"}}
       \cup {St(<<1, 2>> \o Encode(<<p>>, 8, e), 2, 0) : p \in F64Pats, e \in {"LE", "BE"}}

(* -------------------------------- C04 / C05 ---------------------------- *)
BitStarts(x) == UNION {{St(p, 0, b) : p \in Pats(n), b \in {0, 5, 8 * n - 1}} : n \in 1 .. 3}

BitOps(x, st) ==
  LET offs == 0 .. 8 * Len(st.d) - 1
      ops(nx, o) == {BitRead(nx, o), BitFlip(nx, o), BitSet(nx, o, 0), BitSet(nx, o, 1)}
  IN  UNION {ops(FALSE, o) : o \in offs} \cup (IF st.boff \in offs THEN ops(TRUE, 0) ELSE {})

FieldVals == {<<255,255,255,255,255,255,255,255>>, <<161,178,195,212,229,246,7,24>>}

FieldStarts(x) == {St(p, 0, b) : p \in Pats(10), b \in {0, 3, 16}}

FieldOps(x, st) ==
  LET ws == 0 .. 64          \* 16 + 64 bits always fit
  IN  IF st.boff = 0
      THEN {BitsRead(FALSE, o, n) : o \in 0 .. 16, n \in ws}
           \cup {BitsSet(FALSE, o, v, n) : o \in (IF Deep THEN 0 .. 16 ELSE 0 .. 8), v \in FieldVals, n \in ws}
      ELSE {BitsRead(TRUE, 0, n) : n \in ws}
           \cup {BitsSet(TRUE, 0, v, n) : v \in FieldVals, n \in ws}

(* -------------------------------- C06 / C07 ---------------------------- *)
RangeStarts(x) ==
  IF x.kind # "buffer" THEN {}
  ELSE UNION {{St(Ramp(n), p[1], p[2]) : p \in {<<0, 0>>, <<n, 8 * n>>, <<-1, -1>>, <<n + 1, 8 * n + 3>>}}
              : n \in (IF Deep THEN 0 .. 9 ELSE {0, 1, 2, 3, 7})}

\* huge arguments: the record carries +-10^9 and the exact value beside it
HugeOff(o, str) == o @@ [xoff |-> str]
HugeN(o, str) == o @@ [xn |-> str]

BigOffs == {<<Huge, "9223372036854775807">>, <<Huge, "9223372036854775800">>, <<Huge, "4294967296">>,
            <<Huge, "4611686018427387904">>, <<Huge, "2305843009213693952">>,
            <<0 - Huge, "-9223372036854775808">>, <<0 - Huge, "-9223372036854775807">>,
            <<0 - Huge, "-4294967296">>}
BigNs == {<<Huge, "9223372036854775807">>, <<Huge, "4611686018427387904">>,
          <<Huge, "4611686018427387905">>, <<Huge, "2305843009213693952">>,
          <<Huge, "2305843009213693953">>, <<Huge, "9223372036854775800">>}

RangeOps(x, st) ==
  LET cap == Len(st.d)
      offs(w) == -9 .. cap + 2
      ns(f) == IF f = "byte" THEN {1} ELSE {0, 1, 2, 3}
      bo == {-9, -8, -1, 0, 1, 8 * cap - 8, 8 * cap - 1, 8 * cap, 8 * cap + 1}
      bn == {0, 1, 2, 8, 9, 64}
  IN  UNION {{WriteOp(f, FALSE, o, Vals(f[2], n)) : o \in offs(f[2]), n \in ns(f[1])}
             \cup {ReadOp(f, FALSE, o, n) : o \in offs(f[2]), n \in ns(f[1])}
             \cup {WriteOp(f, TRUE, 0, Vals(f[2], n)) : n \in ns(f[1])}
             \cup {ReadOp(f, TRUE, 0, n) : n \in ns(f[1])}
             \cup {HugeOff(WriteOp(f, FALSE, b[1], Vals(f[2], n)), b[2]) : b \in BigOffs, n \in {1, 2} \cap ns(f[1])}
             \cup {HugeOff(ReadOp(f, FALSE, b[1], n), b[2]) : b \in BigOffs, n \in {1, 2} \cap ns(f[1])}
             \cup (IF f[1] = "byte" THEN {}
                   ELSE {HugeN(ReadOp(f, FALSE, o, b[1]), b[2]) : b \in BigNs, o \in {-1, 0, 1, cap}}
                        \cup {HugeN(ReadOp(f, TRUE, 0, b[1]), b[2]) : b \in BigNs})
             : f \in Fams(x)}
      \cup {BitRead(FALSE, o) : o \in bo} \cup {BitFlip(FALSE, o) : o \in bo}
      \cup {BitSet(FALSE, o, v) : o \in bo, v \in (IF x.v = 3 THEN {0, 1} ELSE {0, 1, 2, 255})}
      \cup {BitRead(TRUE, 0), BitFlip(TRUE, 0), BitSet(TRUE, 0, 1), BitSet(TRUE, 0, 0)}
      \cup {BitsRead(nx, o, n) : nx \in {FALSE}, o \in bo, n \in bn} \cup {BitsRead(TRUE, 0, n) : n \in bn}
      \cup {BitsSet(FALSE, o, <<255,0,255,0,255,0,255,0>>, n) : o \in bo, n \in bn}
      \cup {BitsSet(TRUE, 0, <<255,0,255,0,255,0,255,255>>, n) : n \in bn}
      \cup UNION {{HugeOff(BitRead(FALSE, b[1]), b[2]), HugeOff(BitFlip(FALSE, b[1]), b[2]),
                   HugeOff(BitSet(FALSE, b[1], 1), b[2]), HugeOff(BitsRead(FALSE, b[1], 9), b[2]),
                   HugeOff(BitsSet(FALSE, b[1], <<1,2,3,4,5,6,7,8>>, 9), b[2])} : b \in BigOffs}
      \cup UNION {{HugeN(BitsRead(FALSE, o, b[1]), b[2]), HugeN(BitsSet(FALSE, o, <<1,2,3,4,5,6,7,8>>, b[1]), b[2])}
                  : b \in BigNs, o \in {0, 1, 8 * cap}}
      \cup (IF x.v = 1
            THEN {WriteOp(<<"C", w, "LE">>, nx, o, <<<<1>>, <<2>>>>) : w \in {-1, 0, 3, 5, 16}, nx \in {FALSE, TRUE}, o \in {0, cap}}
                 \cup {ReadOp(<<"C", w, "BE">>, nx, o, 1) : w \in {-1, 0, 3, 5, 16}, nx \in {FALSE, TRUE}, o \in {0, cap}}
            ELSE {})
      \cup (IF x.v = 3 THEN GrowOps({-1, -7}) \cup TruncOps(x, {-1, cap + 1, cap}) ELSE {})
      \cup {HugeN(SizeOp("grow", Huge), b[2]) : b \in BigNs}

\* a few calls that must still work after a rejected one
Follow(x, st) ==
  LET cap == Len(st.d)
      fs == {f \in Fams(x) : (f[3] = "BE" /\ f[1] # "I") \/ f[1] = "bytes"}
  IN  {o \in UNION {{WriteOp(f, TRUE, 0, Vals(f[2], 1)), ReadOp(f, FALSE, 0, 1), WriteOp(f, FALSE, 0, Vals(f[2], 1)),
                     ReadOp(f, TRUE, 0, 1)} : f \in fs}
             \cup {BitRead(TRUE, 0), BitSet(TRUE, 0, 1), BitsSet(FALSE, 0, <<1,2,3,4,5,6,7,8>>, 7),
                   BitsRead(TRUE, 0, 8), BitFlip(FALSE, 0)}
             \cup GrowOps({1}) \cup TruncOps(x, {1}) \cup ResetOps(x)
             \cup {AllBits(2), SeekBy(1), SeekBitTo(2), Nullary("alignbit"), Nullary("refresh"), AfterOp("after", FALSE, 0)}
       : Exp(x, st, o).ok}

BadStarts(x) == IF x.kind # "buffer" THEN {} ELSE {St(Ramp(n), 1, 3) : n \in {1, 3, 9}}

BadOps(x, st) ==
  LET cap == Len(st.d)
      all == UNION {{WriteOp(f, FALSE, cap, Vals(f[2], 1)), WriteOp(f, FALSE, cap + 1 - f[2], Vals(f[2], 1)),
                     WriteOp(f, TRUE, 0, Vals(f[2], cap \div f[2] + 1)), WriteOp(f, FALSE, -1, Vals(f[2], 1)),
                     ReadOp(f, FALSE, cap, 1), ReadOp(f, TRUE, 0, cap \div f[2] + 1), ReadOp(f, FALSE, -1, 1)}
                    : f \in {g \in Fams(x) : g[1] # "byte"}}
             \cup {WriteOp(<<"byte", 1, "LE">>, FALSE, cap, <<<<7>>>>), ReadOp(<<"byte", 1, "LE">>, FALSE, -1, 1)}
             \cup {BitRead(FALSE, 8 * cap), BitFlip(FALSE, -1), BitSet(FALSE, 8 * cap, 1)}
             \cup {BitsSet(FALSE, 8 * cap - 3, <<255,255,255,255,255,255,255,255>>, 5),
                   BitsSet(TRUE, 0, <<255,255,255,255,255,255,255,255>>, 8 * cap),
                   BitsSet(FALSE, -2, <<255,255,255,255,255,255,255,255>>, 7),
                   BitsRead(FALSE, 8 * cap - 3, 5), BitsRead(TRUE, 0, 8 * cap), BitsRead(FALSE, -2, 7)}
             \cup (IF x.v # 3 THEN {BitSet(FALSE, 1, 2), BitSet(TRUE, 0, 255)} ELSE TruncOps(x, {-1, cap + 1}))
             \cup GrowOps({-1}) \cup {HugeN(SizeOp("grow", Huge), b[2]) : b \in BigNs}
  IN  {o \in all : ~Exp(x, st, o).ok}

(* -------------------------------- C08 ---------------------------------- *)
CursorStarts(x) == {St(Ramp(9), 0, 0), St(Ramp(9), 2, 61), St(Ramp(9), 9, 72)}

CursorOps(x, st) ==
  LET fs == {f \in Fams(x) : f[3] = "LE" \/ (f[1] = "U" /\ f[2] = 2)}
      all == UNION {{WriteOp(f, TRUE, 0, Vals(f[2], n)) : n \in {1, 2} \cap Ns(st, f[2], f[1])}
                    \cup {ReadFor(x, f, TRUE, 0, n) : n \in {1, 2} \cap Ns(st, f[2], f[1])}
                    \cup {WriteOp(f, FALSE, 1, Vals(f[2], 1))} : f \in fs}
             \cup {BitRead(TRUE, 0), BitSet(TRUE, 0, 1), BitSet(TRUE, 0, 0), BitFlip(TRUE, 0), BitsRead(TRUE, 0, 3), BitsRead(TRUE, 0, 11),
                   BitsSet(TRUE, 0, <<0,0,0,0,0,0,5,170>>, 5), BitsSet(TRUE, 0, <<0,0,0,0,0,0,5,170>>, 11), BitFlip(FALSE, 2), BitsRead(FALSE, 4, 9)}
             \cup {SeekTo(n) : n \in {0, 3}} \cup {SeekBy(n) : n \in {-1, 2}}
             \cup {SeekBitTo(n) : n \in {0, 13}} \cup {SeekBitBy(n) : n \in {-3, 7}}
             \cup {Nullary("alignbit"), Nullary("alignbyte"), AfterOp("after", FALSE, 0), AfterOp("afterb", FALSE, 0),
                   AfterOp("after", TRUE, 4), AfterOp("afterb", TRUE, 21)}
  IN  {o \in all : (x.kind = "buffer" /\ o.op \in {"write", "read"}) \/ InRange(x, st, o)}

(* -------------------------- C09 / C10 / C18 ---------------------------- *)
SizeStarts(x) == {St(<<>>, 0, 0), St(<<201, 202, 203>>, 2, 9)}

SizeOps(x, st) ==
  LET cap == Len(st.d) IN
  GrowOps({0, 1, 3, 9}) \cup TruncOps(x, {n \in {0, 1, 2} : n <= cap} \cup {cap}) \cup ResetOps(x)
  \cup {Nullary("refresh"), AllBits(1)}
  \cup {o \in {WriteOp(<<"bytes", 1, "LE">>, FALSE, Max2(cap - 2, 0), <<<<171>>, <<205>>>>)} : InRange(x, st, o)}

MaskOps(x, st) ==
  LET cap == Len(st.d) IN
  {AllBits(0), AllBits(1), AllBits(2)} \cup GrowOps({1, 4}) \cup TruncOps(x, {n \in {1, 2} : n <= cap} \cup {cap}) \cup ResetOps(x)
  \cup {o \in {BitSet(FALSE, 4, 1), BitFlip(FALSE, 8 * cap - 1)} : InRange(x, st, o)}

(* -------------------------- C12 / C17 ---------------------------------- *)
\* short mixed histories: in range for C12, anything for C17
PairStarts(x) == IF Prop = "C12" /\ x.kind = "buffer" THEN {}
                 ELSE IF x.v = 1 /\ Prop = "C17" THEN {}
                 ELSE {St(Ramp(9), 0, 0), St(Ramp(9), 3, 27), St(<<>>, 0, 0)}
PairOps(x, st) ==
  LET few == {o \in CursorOps(x, st) : "w" \in DOMAIN o => o.w \in {1, 4} \/ Deep}
      all == few \cup SizeOps(x, st) \cup {AllBits(0), AllBits(2)}
             \cup (IF Prop = "C17" /\ x.kind = "buffer" THEN BadOps(x, st) ELSE {})
  IN  IF Prop = "C12" \/ x.kind = "mini" THEN {o \in all : InRange(x, st, o)} ELSE all

(* ----------------------------------------------------------------------- *)
Starts(x) ==
  CASE Prop = "C01" -> RwStarts(x)
    [] Prop = "C02" -> ReadStarts(x)
    [] Prop = "C03" -> FloatStarts(x)
    [] Prop = "C04" -> BitStarts(x)
    [] Prop = "C05" -> FieldStarts(x)
    [] Prop = "C06" -> RangeStarts(x)
    [] Prop = "C07" -> BadStarts(x)
    [] Prop = "C08" -> CursorStarts(x)
    [] Prop \in {"C09", "C10", "C18"} -> SizeStarts(x)
    [] Prop \in {"C12", "C17"} -> PairStarts(x)

Alphabet(x, st, n) ==
  CASE Prop = "C01" -> Writes(x, st, IntFams(x))
    [] Prop = "C02" -> Reads(x, st, IntFams(x))
    [] Prop = "C03" -> FloatOps(x, st)
    [] Prop = "C04" -> BitOps(x, st)
    [] Prop = "C05" -> FieldOps(x, st)
    [] Prop = "C06" -> RangeOps(x, st)
    [] Prop = "C07" -> IF n = 1 THEN BadOps(x, st) ELSE Follow(x, st)
    [] Prop = "C08" -> CursorOps(x, st)
    [] Prop \in {"C09", "C10"} -> SizeOps(x, st)
    [] Prop = "C18" -> MaskOps(x, st)
    [] Prop \in {"C12", "C17"} -> PairOps(x, st)

Depth ==
  CASE Prop \in {"C01", "C02", "C03", "C04", "C05", "C06"} -> 1
    [] Prop = "C07" -> 2
    [] Prop \in {"C12", "C17"} -> IF Deep THEN 3 ELSE 2
    [] Prop = "C08" -> IF Deep THEN 3 ELSE 2
    [] Prop \in {"C09", "C10"} -> IF Deep THEN 5 ELSE 4
    [] Prop = "C18" -> IF Deep THEN 5 ELSE 4

Hash(x, st) == x.v * 3 + Len(x.kind) + Len(st.d) * 7 + st.off * 5 + st.boff * 11 + (IF st.d = <<>> THEN 0 ELSE st.d[1])

\* VERSION restricts the enumeration to one version.
Wanted == IF "VERSION" \in DOMAIN IOEnv THEN {x \in Targets : x.v = atoi(IOEnv.VERSION)} ELSE Targets

Init == /\ t \in Wanted
        /\ s \in {st \in Starts(t) : Hash(t, st) % Shards = Shard}
        /\ h = <<>>

Emit == PrintT("VEC " \o ToJson([t |-> t, h |-> h']))

Step == /\ Len(h) < Depth
        /\ \E o \in Alphabet(t, s, Len(h) + 1) :
             LET x == Exp(t, s, o) IN
             /\ t' = t
             /\ h' = Append(h, [s |-> s, o |-> o, x |-> x])
             /\ IF x.ok THEN \E f \in x.offs : s' = [d |-> x.d, off |-> f, boff |-> x.boff]
                ELSE s' = s
             /\ IF Len(h') = Depth THEN Emit ELSE TRUE

Spec == Init /\ [][Step]_vars
=============================================================================
