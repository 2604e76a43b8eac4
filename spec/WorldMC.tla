------------------------------- MODULE WorldMC -------------------------------
(***************************************************************************)
(* Two buffers on concrete blocks of memory: under the library's design    *)
(* each behaves as Crunch.tla says a buffer alone does and lists handed    *)
(* out stay as they are; under the other designs not.  With DUMP = 1 the   *)
(* interleavings are printed for replay into the real library.             *)
(*                                                                         *)
(* DESIGN: good         every buffer has its own blocks                    *)
(*         resetpool    reset also puts the storage in a pool from which   *)
(*                      growth takes                                       *)
(*         sharedempty  new empty buffers start on one common block        *)
(*         scratch      typed reads return one common list                 *)
(*         leftovers    reset storage goes to the next new buffer, while   *)
(*                      the buffer goes on using it                        *)
(***************************************************************************)
EXTENDS Ops, TLC, Json, IOUtils

Design == IOEnv.DESIGN
Dump   == IOEnv.DUMP = "1"
Depth  == atoi(IOEnv.DEPTH)
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Narrow == IOEnv.ALPHABET = "narrow"    \* fewer calls, for longer histories

T == [v |-> 3, kind |-> "buffer"]
J == {1, 2}

VARIABLES mem,    \* the blocks
          buf,    \* [blk, lo, n, c]: storage of each buffer
          pool,   \* a block somebody gave away, 0: none
          held,   \* lists handed out: [blk, was]
          a,      \* the contents each buffer has alone
          h

vars == <<mem, buf, pool, held, a, h>>

View(m, b) == SubSeq(m[b.blk], b.lo + 1, b.lo + b.n)

NewOp(n) == [op |-> "new", off |-> 0, n |-> n]
\* as the driver fills new buffers
NewD(n) == [x \in 1 .. n |-> ((x - 1) * 37 + n) % 256]

Common == 1       \* block 1: the storage shared by the bad designs

Room == 12

Init ==
  /\ \E n1, n2 \in {0, 3} :
       LET ns == <<n1, n2>> IN
       /\ mem = <<Fill(Room, 0), NewD(n1) \o Fill(Room, 0), NewD(n2) \o Fill(Room, 0)>>
       /\ buf = [j \in J |-> IF Design = "sharedempty" /\ ns[j] = 0 THEN [blk |-> Common, lo |-> 0, n |-> 0, c |-> Room]
                             ELSE [blk |-> j + 1, lo |-> 0, n |-> ns[j], c |-> ns[j]]]
       /\ a = [j \in J |-> NewD(ns[j])]
       /\ h = [j \in J |-> [j |-> j, o |-> NewOp(ns[j])]]
  /\ pool = 0 /\ held = <<>>

U16 == <<"U", 2, "LE">>
Raw == <<"bytes", 1, "LE">>

Calls(d) ==
  IF Narrow THEN {NewOp(0), Nullary("reset"), SizeOp("grow", 4), AllBits(1)} ELSE
  {NewOp(0), NewOp(3), Nullary("reset"), SizeOp("grow", 1), SizeOp("grow", 4), AllBits(1), AllBits(2)}
  \cup (IF Len(d) >= 2 THEN {WriteOp(Raw, FALSE, 1, <<<<200 + Len(h)>>>>), ReadOp(U16, FALSE, 0, 1)} ELSE {})
  \cup (IF Len(d) >= 1 THEN {SizeOp("trl", 1), SizeOp("trr", 1)} ELSE {})

Alone(j, o) == IF o.op = "new" THEN NewD(o.n) ELSE Exp(T, [d |-> a[j], off |-> 0, boff |-> 0], o).d

InPlace(j, d) == mem' = [mem EXCEPT ![buf[j].blk] = Overlay(@, buf[j].lo, d)] /\ UNCHANGED <<buf, pool, held>>

\* where buffer j keeps n bytes d from now on
Move(j, d, blk, c) == buf' = [buf EXCEPT ![j] = [blk |-> blk, lo |-> 0, n |-> Len(d), c |-> c]]

Do(j, o) ==
  LET b == buf[j]
      d == View(mem, b)
      x == Exp(T, [d |-> d, off |-> 0, boff |-> 0], o)
      top == Len(mem) + 1
  IN  CASE o.op = "new" ->
             IF o.n = 0 /\ Design = "sharedempty" THEN Move(j, <<>>, Common, Room) /\ UNCHANGED <<mem, pool, held>>
             ELSE IF o.n = 0 /\ Design = "leftovers" /\ pool # 0
             THEN Move(j, <<>>, pool, Len(mem[pool])) /\ pool' = 0 /\ UNCHANGED <<mem, held>>
             ELSE mem' = Append(mem, NewD(o.n)) /\ Move(j, NewD(o.n), top, o.n) /\ UNCHANGED <<pool, held>>
        [] o.op = "reset" ->
             /\ buf' = [buf EXCEPT ![j].n = 0]
             /\ pool' = IF Design \in {"resetpool", "leftovers"} /\ b.lo = 0 THEN b.blk ELSE pool
             /\ UNCHANGED <<mem, held>>
        [] o.op = "grow" ->
             IF b.n + o.n <= b.c
             THEN /\ mem' = [mem EXCEPT ![b.blk] = Overlay(@, b.lo + b.n, Fill(o.n, 0))]
                  /\ buf' = [buf EXCEPT ![j].n = @ + o.n] /\ UNCHANGED <<pool, held>>
             ELSE IF Design = "resetpool" /\ pool # 0 /\ Len(mem[pool]) >= b.n + o.n
             THEN /\ mem' = [mem EXCEPT ![pool] = Overlay(@, 0, d \o Fill(o.n, 0))]
                  /\ Move(j, d \o Fill(o.n, 0), pool, Len(mem[pool])) /\ pool' = 0 /\ held' = held
             ELSE /\ mem' = Append(mem, d \o Fill(o.n, 0) \o Fill(4, 0))
                  /\ Move(j, d \o Fill(o.n, 0), top, b.n + o.n + 4) /\ UNCHANGED <<pool, held>>
        [] o.op = "read" ->
             LET v == SubSeq(d, 1, 2) IN
             IF Design = "scratch"
             THEN /\ mem' = [mem EXCEPT ![Common] = Overlay(@, 0, v)]
                  /\ held' = Append(held, [blk |-> Common, was |-> v]) /\ UNCHANGED <<buf, pool>>
             ELSE /\ mem' = Append(mem, v) /\ held' = Append(held, [blk |-> top, was |-> v]) /\ UNCHANGED <<buf, pool>>
        [] o.op = "trl" -> buf' = [buf EXCEPT ![j].lo = @ + 1, ![j].n = @ - 1, ![j].c = @ - 1] /\ UNCHANGED <<mem, pool, held>>
        [] o.op = "trr" -> buf' = [buf EXCEPT ![j].n = @ - 1] /\ UNCHANGED <<mem, pool, held>>
        [] OTHER -> InPlace(j, x.d)

Code(o) == Len(o.op) + (IF "n" \in DOMAIN o THEN 3 * o.n ELSE 0) + (IF "v" \in DOMAIN o THEN o.v ELSE 0)
Mine(o) == (Code(o) + Len(a[1]) + 2 * Len(a[2])) % Shards = Shard

\* the first call is on the first buffer: the kinds of the two are varied
Next == \E j \in J : \E o \in Calls(a[j]) :
  /\ Len(h) < Depth + 2
  /\ Len(h) = 2 => j = 1 /\ Mine(o)
  /\ Do(j, o)
  /\ a' = [a EXCEPT ![j] = Alone(j, o)]
  /\ h' = Append(h, [j |-> j, o |-> o])
  /\ IF Dump /\ Len(h') = Depth + 2 THEN PrintT("WORLD " \o ToJson([h |-> h'])) ELSE TRUE

Spec == Init /\ [][Next]_vars

Independent == \A j \in J : View(mem, buf[j]) = a[j]
HeldStay    == \A q \in DOMAIN held : SubSeq(mem[held[q].blk], 1, 2) = held[q].was

\* the buffers' storage has nothing in common
Apart == buf[1].blk # buf[2].blk \/ Design # "good"
=============================================================================
