------------------------------- MODULE HeapMC -------------------------------
(***************************************************************************)
(* A concrete memory (blocks and references into them) beside the contract *)
(* of Heap.tla: the library's design keeps the promises, other designs do  *)
(* not.  With DUMP = 1 the histories are printed for replay into the real  *)
(* library.                                                                *)
(*                                                                         *)
(* DESIGN: good       the library's                                        *)
(*         copyone    a buffer built from one slice copies it              *)
(*         appendfirst several slices are appended to the first            *)
(*         skipempty  empty slices are ignored in counting them            *)
(*         aliasread  typed reads return a view of the storage             *)
(*         scratch    typed reads return one shared scratch list           *)
(*         retain     writing the whole contents keeps the caller's list   *)
(*         copyview   the accessor returns a copy                          *)
(*         forward    data is stored one byte at a time                    *)
(***************************************************************************)
EXTENDS Heap, TLC, Json, IOUtils

Design == IOEnv.DESIGN
Dump   == IOEnv.DUMP = "1"
Depth  == atoi(IOEnv.DEPTH)
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES shape,   \* the input slices: <<bytes before, length, room after>>
          mem,     \* the blocks
          buf,     \* [blk, lo, n, c]: the storage of the buffer; c: capacity
          refs,    \* the client's objects as references [blk, lo, n]
          w,       \* what Heap.tla says
          h        \* the calls so far

vars == <<shape, mem, buf, refs, w, h>>

Shapes == {<< >>,
           <<<<0, 8, 0>>>>, <<<<1, 9, 3>>>>, <<<<2, 0, 9>>>>, <<<<0, 0, 0>>>>,
           <<<<0, 5, 0>>, <<0, 3, 0>>>>, <<<<1, 4, 9>>, <<1, 4, 1>>>>,
           <<<<1, 8, 2>>, <<0, 0, 0>>>>, <<<<0, 0, 9>>, <<1, 8, 1>>>>,
           <<<<0, 0, 4>>, <<0, 0, 0>>>>,
           <<<<1, 3, 8>>, <<0, 0, 2>>, <<2, 6, 0>>>>}

Block(j, s) == [x \in 1 .. s[1] + s[2] + s[3] |-> 30 * j + x]

Conc(r) == SubSeq(mem[r.blk], r.lo + 1, r.lo + r.n)
Contents == SubSeq(mem[buf.blk], buf.lo + 1, buf.lo + buf.n)

Total(s) == IF s = <<>> THEN 0 ELSE LET RECURSIVE T(_) T(n) == IF n = 0 THEN 0 ELSE s[n][2] + T(n - 1) IN T(Len(s))

Init ==
  /\ shape \in Shapes
  /\ h = <<>>
  /\ LET m == Len(shape)
         blocks == [j \in 1 .. m |-> Block(j, shape[j])]
         ins == [j \in 1 .. m |-> [b |-> blocks[j], lo |-> shape[j][1], n |-> shape[j][2]]]
         cat == BuiltContents(ins)
         fresh == /\ mem = Append(blocks, cat)
                  /\ buf = [blk |-> m + 1, lo |-> 0, n |-> Len(cat), c |-> Len(cat)]
         alias(j) == /\ mem = blocks
                     /\ buf = [blk |-> j, lo |-> shape[j][1], n |-> shape[j][2], c |-> shape[j][2] + shape[j][3]]
         full == {j \in 1 .. m : shape[j][2] > 0}
     IN  /\ refs = [j \in 1 .. m |-> [blk |-> j, lo |-> 0, n |-> Len(blocks[j])]]
         /\ w = Built(ins)
         /\ CASE m = 1 /\ Design # "copyone" -> alias(1)
              [] m > 1 /\ Design = "appendfirst" /\ Len(cat) <= shape[1][2] + shape[1][3] ->
                   /\ mem = [blocks EXCEPT ![1] = Overlay(@, shape[1][1], cat)]
                   /\ buf = [blk |-> 1, lo |-> shape[1][1], n |-> Len(cat), c |-> shape[1][2] + shape[1][3]]
              [] m > 1 /\ Design = "skipempty" /\ \E j \in full : full = {j} -> alias(CHOOSE j \in full : TRUE)
              [] OTHER -> fresh

Tag == 150 + 10 * Len(h)
Data(n) == [x \in 1 .. n |-> Tag + x]

NewBlock(bs, b) == Append(bs, b)
RefTo(blk, n) == [blk |-> blk, lo |-> 0, n |-> n]

\* the histories are dealt to the shards by their first call
Mine(a) == (Total(shape) + 5 * Len(shape) + 7 * a.p + 3 * a.w + a.n) % Shards = Shard
Log(a) == (Len(h) > 0 \/ Mine(a)) /\ h' = Append(h, a)

\* typed writes and reads of n values of wd bytes at position p
Spans == {s \in {<<p, wd, n>> : p \in {0, 1, 3}, wd \in {1, 2, 4, 8}, n \in {1, 2, 4, 8}} :
            /\ s[1] + s[2] * s[3] <= buf.n
            /\ \/ s[1] + s[2] * s[3] = buf.n       \* up to the end
               \/ s[1] = 0 /\ s[3] = 1}

Write == \E s \in Spans :
  LET len == s[2] * s[3]
      data == Data(len)
      blk == Len(mem) + 1
      whole == s[1] = 0 /\ len = buf.n
  IN  /\ refs' = Append(refs, RefTo(blk, len))
      /\ w' = Obtain(InPlace(w, Overlay(w.d, s[1], data)), Own(data))
      /\ IF Design = "retain" /\ whole /\ s[2] = 1
         THEN mem' = NewBlock(mem, data) /\ buf' = [blk |-> blk, lo |-> 0, n |-> len, c |-> len]
         ELSE mem' = NewBlock([mem EXCEPT ![buf.blk] = Overlay(@, buf.lo + s[1], data)], data) /\ buf' = buf
      /\ Log([a |-> "write", p |-> s[1], w |-> s[2], n |-> s[3]])

Read == \E s \in {x \in Spans : x[2] > 1} :
  LET len == s[2] * s[3]
      data == Slice(Contents, s[1], len)
      blk == Len(mem) + 1
      scratch == {j \in 1 .. Len(h) : h[j].a = "read" /\ h[j].w = s[2] /\ h[j].n = s[3]}
      old == Len(shape) + Len(SelectSeq(SubSeq(h, 1, (CHOOSE j \in scratch : TRUE)), LAMBDA a : a.a \in {"write", "read", "view"}))
  IN  /\ w' = Obtain(w, Own(data))
      /\ CASE Design = "aliasread" ->
                mem' = mem /\ refs' = Append(refs, [blk |-> buf.blk, lo |-> buf.lo + s[1], n |-> len])
           [] Design = "scratch" /\ scratch # {} ->
                mem' = [mem EXCEPT ![refs[old].blk] = data] /\ refs' = Append(refs, refs[old])
           [] OTHER -> mem' = NewBlock(mem, data) /\ refs' = Append(refs, RefTo(blk, len))
      /\ buf' = buf
      /\ Log([a |-> "read", p |-> s[1], w |-> s[2], n |-> s[3]])

TakeView ==
  /\ w' = Obtain(w, View(w))
  /\ buf' = buf
  /\ CASE Design = "copyview" -> mem' = NewBlock(mem, Contents) /\ refs' = Append(refs, RefTo(Len(mem) + 1, buf.n))
       [] OTHER -> mem' = mem /\ refs' = Append(refs, [blk |-> buf.blk, lo |-> buf.lo, n |-> buf.n])
  /\ Log([a |-> "view", p |-> 0, w |-> 0, n |-> 0])

Flip ==
  LET d2 == [x \in 1 .. buf.n |-> 255 - Contents[x]]
  IN  /\ buf.n > 0
      /\ w' = InPlace(w, d2) /\ mem' = [mem EXCEPT ![buf.blk] = Overlay(@, buf.lo, d2)] /\ UNCHANGED <<buf, refs>>
      /\ Log([a |-> "flip", p |-> 0, w |-> 0, n |-> 0])

Refresh == UNCHANGED <<mem, buf, refs, w>> /\ Log([a |-> "refresh", p |-> 0, w |-> 0, n |-> 0])

Poke == \E j \in 1 .. Len(refs) :
  LET o == w.objs[j]
      n == Len(o.b)
      \* the ends of the memory and of the window
      is == {i \in {0, n - 1} \cup (IF Live(o) THEN {o.lo, o.lo + Len(w.d) - 1} ELSE {n \div 2}) : i >= 0 /\ i < n}
  IN  /\ o.st # "free"
      /\ \E i \in is :
           /\ w' = Poked(w, j, i, Tag)
           /\ mem' = [mem EXCEPT ![refs[j].blk] = Overlay(@, refs[j].lo + i, <<Tag>>)]
           /\ UNCHANGED <<buf, refs>>
           /\ Log([a |-> "poke", p |-> i, w |-> j, n |-> Tag])

\* the contents moved by one place, from a view of themselves
Move == \E j \in 1 .. Len(refs), p \in {0, 1} :
  LET o == w.objs[j]
      n == buf.n - 1
      i == o.lo + 1 - p
      data == [x \in 1 .. n |-> IF Design = "forward" /\ p = 1 THEN Contents[1] ELSE Contents[x + 1 - p]]
  IN  /\ Live(o) /\ n > 1
      /\ w' = Put(w, j, i, n, p)
      /\ mem' = [mem EXCEPT ![buf.blk] = Overlay(@, buf.lo + p, data)]
      /\ UNCHANGED <<buf, refs>>
      /\ Log([a |-> "put", p |-> p, w |-> j, n |-> n])

Grow == \E n \in {1, 9} :
  /\ w' = Resized(w, w.d \o Fill(n, 0))
  /\ IF n <= buf.c - buf.n
     THEN mem' = [mem EXCEPT ![buf.blk] = Overlay(@, buf.lo + buf.n, Fill(n, 0))] /\ buf' = [buf EXCEPT !.n = @ + n]
     ELSE /\ mem' = NewBlock(mem, Contents \o Fill(2 * (buf.c + n) - buf.n, 0))
          /\ buf' = [blk |-> Len(mem) + 1, lo |-> 0, n |-> buf.n + n, c |-> 2 * (buf.c + n)]
  /\ refs' = refs
  /\ Log([a |-> "grow", p |-> 0, w |-> 0, n |-> n])

Truncate == \E a \in {"trl", "trr"}, n \in {1} :
  /\ n <= buf.n
  /\ IF a = "trl"
     THEN w' = Resized(w, SubSeq(w.d, n + 1, Len(w.d))) /\ buf' = [blk |-> buf.blk, lo |-> buf.lo + n, n |-> buf.n - n, c |-> buf.c - n]
     ELSE w' = Resized(w, SubSeq(w.d, 1, Len(w.d) - n)) /\ buf' = [buf EXCEPT !.n = @ - n]
  /\ UNCHANGED <<mem, refs>>
  /\ Log([a |-> a, p |-> 0, w |-> 0, n |-> n])

Reset ==
  /\ w' = Resized(w, <<>>) /\ buf' = [buf EXCEPT !.n = 0]
  /\ UNCHANGED <<mem, refs>>
  /\ Log([a |-> "reset", p |-> 0, w |-> 0, n |-> 0])

Next == /\ Len(h) < Depth
        /\ Write \/ Read \/ TakeView \/ Flip \/ Refresh \/ Poke \/ Move \/ Grow \/ Truncate \/ Reset
        /\ shape' = shape
        /\ IF Dump /\ Len(h') = Depth THEN PrintT("HEAP " \o ToJson([shape |-> shape, h |-> h'])) ELSE TRUE

Spec == Init /\ [][Next]_vars

\* The memory is as the contract says.
Owns == /\ Contents = w.d
        /\ \A j \in 1 .. Len(refs) : w.objs[j].st # "free" => Conc(refs[j]) = w.objs[j].b

\* Live objects show the contents.
Exposes == \A j \in 1 .. Len(w.objs) : Live(w.objs[j]) => Slice(w.objs[j].b, w.objs[j].lo, Len(w.d)) = w.d
=============================================================================
