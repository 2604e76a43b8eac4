------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* A buffer as it is stored: a window base .. base+len-1 of an array, with *)
(* room up to end, and cached capacities.  Growing happens in the room if  *)
(* there is enough and else in a new array; truncating and resetting move  *)
(* the window and leave the bytes where they are.                          *)
(*                                                                         *)
(* The machine runs beside the contract's own (s, Crunch.tla); Refines     *)
(* says that what it shows is what the contract says.  DESIGN selects the  *)
(* sound design or one with a flaw, which TLC must refute:                 *)
(*   dirty     growing in the room leaves what was there                   *)
(*   stale     truncating leaves the cached capacities                     *)
(*   halfstale growing refreshes the byte capacity only                    *)
(*   wholecap  the capacity is taken from the array, not the window        *)
(*   keeppos   resetting leaves the positions                              *)
(*   slide     truncating on the left slides the window along the room     *)
(*   copyn     moving to a new array copies only as much as was asked for  *)
(*   fillroom  whole-buffer operations go over the room, too               *)
(*   adopt     several slices are concatenated into the room of the first  *)
(*   movepos   truncating on the left takes the position along             *)
(*                                                                         *)
(* With DUMP, a shortest history into every shape of the storage (VIEW     *)
(* Shape) followed by every call is printed for replay: the histories that *)
(* matter to resizing, much longer than what can be enumerated blindly.    *)
(***************************************************************************)
EXTENDS Ops, TLC, Json, IOUtils

Design == IOEnv.DESIGN
Dump   == IOEnv.DUMP = "1"
Depth  == atoi(IOEnv.DEPTH)
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

MaxLen == 6
MaxRoom == 16

VARIABLES t,    \* version and kind
          m,    \* the buffer as stored
          s,    \* the buffer as the contract has it
          h     \* the calls made

vars == <<t, m, s, h>>

(* m.mem: the arrays; m.a: the one in use (0: none); m.orig: the arrays the
   client handed over, as they were; m.client: how many of mem are its own;
   m.resized: a resizing call was made *)
Content(x) == IF x.a = 0 THEN <<>> ELSE Slice(x.mem[x.a], x.base, x.len)
Room(x)    == IF x.a = 0 THEN <<>> ELSE Slice(x.mem[x.a], x.base + x.len, x.end - x.base - x.len)

Store(x, d) == IF x.a = 0 THEN x ELSE [x EXCEPT !.mem[x.a] = Overlay(@, x.base, d)]

Refreshed(x) ==
  LET n == IF Design = "wholecap" THEN x.end - x.base ELSE x.len IN [x EXCEPT !.cap = n, !.bcap = 8 * n]

Moved(x, d, size) == [x EXCEPT !.mem = Append(@, d \o Fill(size - Len(d), 0)), !.a = Len(x.mem) + 1,
                               !.base = 0, !.len = Len(d), !.end = size]

Grown(x, n) ==
  LET r == [x EXCEPT !.resized = TRUE]
      old == Content(x)
      y == IF n <= x.end - x.base - x.len
           THEN IF Design = "dirty" THEN [r EXCEPT !.len = @ + n]
                ELSE [Store([r EXCEPT !.len = @ + n], old \o Fill(n, 0)) EXCEPT !.len = x.len + n]
           ELSE Moved(r, (IF Design = "copyn" THEN SubSeq(old, 1, Min2(n, Len(old))) \o Fill(Len(old) - Min2(n, Len(old)), 0) ELSE old) \o Fill(n, 0),
                      2 * (x.end - x.base + n))
  IN  IF Design = "halfstale" THEN [y EXCEPT !.cap = y.len] ELSE Refreshed(y)

Cut(x, o) ==
  LET y == IF o.op = "trr" THEN [x EXCEPT !.len = @ - o.n]
           ELSE IF Design = "slide" THEN [x EXCEPT !.base = @ + o.n, !.len = Min2(@, x.end - x.base - o.n)]
           ELSE [x EXCEPT !.base = @ + o.n, !.len = @ - o.n]
      z == [y EXCEPT !.resized = TRUE, !.off = IF Design = "movepos" /\ o.op = "trl" THEN Max2(0, @ - o.n) ELSE @]
  IN  IF Design = "stale" THEN z ELSE Refreshed(z)

Cleared(x) ==
  LET y == [x EXCEPT !.len = 0, !.cap = 0, !.bcap = 0, !.resized = TRUE]
  IN  IF Design = "keeppos" THEN y ELSE [y EXCEPT !.off = 0, !.boff = 0]

InPlace(x, o) ==
  LET e == Exp(t, [d |-> Content(x), off |-> x.off, boff |-> x.boff], o)
      y == Store([x EXCEPT !.off = CHOOSE f \in e.offs : TRUE, !.boff = e.boff], e.d)
  IN  IF Design = "fillroom" /\ o.op = "allb" /\ x.a # 0 /\ o.v < 2
      THEN [y EXCEPT !.mem[x.a] = Overlay(@, x.base, Fill(x.end - x.base, 255 * o.v))] ELSE y

\* the client changes a byte of the storage it shares
Poked(x, o) == Store(x, [Content(x) EXCEPT ![o.off + 1] = o.v])

Do(x, o) ==
  CASE o.op = "grow" -> Grown(x, o.n)
    [] o.op \in {"trl", "trr"} -> Cut(x, o)
    [] o.op = "reset" -> Cleared(x)
    [] o.op = "refresh" -> Refreshed(x)
    [] o.op = "poke" -> Poked(x, o)
    [] OTHER -> InPlace(x, o)

(* ------------------------------ beginnings ----------------------------- *)
Array(n, j) == [q \in 1 .. n |-> 16 * j + q]

None == [mem |-> <<>>, client |-> 0, orig |-> <<>>, several |-> FALSE, a |-> 0, base |-> 0, len |-> 0, end |-> 0, cap |-> 0, bcap |-> 0,
         off |-> 0, boff |-> 0, resized |-> FALSE, lay |-> 0]

\* one slice, in an array of its own with pre bytes before and room after it
One(pre, n, room) ==
  LET w == <<Array(pre + n + room, 1)>> IN
  Refreshed([None EXCEPT !.mem = w, !.orig = w, !.client = 1, !.a = 1, !.base = pre, !.len = n, !.end = pre + n + room,
                         !.lay = IF pre + room = 0 THEN 0 ELSE IF room = 0 THEN 3 + 4 * pre ELSE 1 + 4 * (pre + 6 * (room - 1))])

\* two slices: a new array, exactly as large as needed
Two(n1, n2) ==
  LET w == <<Array(n1 + 2, 1), Array(n2, 2)>>
      d == SubSeq(w[1], 1, n1) \o w[2]
      x == [None EXCEPT !.mem = w, !.orig = w, !.client = 2, !.several = TRUE, !.lay = 6]
  IN  Refreshed(IF Design = "adopt" /\ n2 <= 2
                THEN [x EXCEPT !.mem[1] = Overlay(@, n1, w[2]), !.a = 1, !.len = n1 + n2, !.end = n1 + 2]
                ELSE Moved(x, d, n1 + n2))

Starts == {None} \cup {One(p, n, r) : p \in {0, 2}, n \in {1, 3}, r \in {0, 1, 4}} \cup {Two(1, 2)}

\* positions other than 0, where they are of interest
At(x) == {[x EXCEPT !.off = f, !.boff = 5 * f] : f \in {0, 3}}

\* VERSION restricts the enumeration to one version.
Wanted == {y \in Targets : /\ (y.v * 2 + (IF y.kind = "mini" THEN 1 ELSE 0)) % Shards = Shard
                           /\ "VERSION" \in DOMAIN IOEnv => y.v = atoi(IOEnv.VERSION)}

Init == /\ t \in Wanted
        /\ m \in UNION {At(x) : x \in Starts}
        /\ s = [d |-> Content(m), off |-> m.off, boff |-> m.boff]
        /\ h = <<>>

(* -------------------------------- calls -------------------------------- *)
Calls ==
  LET n == Len(s.d) IN
  GrowOps({0, 1, 2, 5}) \cup TruncOps(t, {1, 2, n} \cap 0 .. n) \cup ResetOps(t) \cup {Nullary("refresh")}
  \cup {AllBits(v) : v \in 0 .. 2}
  \cup {o \in {WriteOp(<<"bytes", 1, "LE">>, FALSE, n - 1, <<<<171>>>>), BitFlip(FALSE, 8 * n - 1), BitSet(TRUE, 0, 1)} : InRange(t, s, o)}
  \cup (IF n > 0 THEN {[op |-> "poke", off |-> n - 1, v |-> 77]} ELSE {})

Want(o) == IF o.op = "poke" THEN [Keep(s) EXCEPT !.d[o.off + 1] = o.v] ELSE Exp(t, s, o)

Emit == PrintT("VEC " \o ToJson([lay |-> m.lay, t |-> t, h |-> h']))

Next ==
  /\ Len(h) < Depth
  /\ \E o \in Calls :
       LET x == Want(o) IN
       /\ t' = t
       /\ m' = Do(m, o)
       /\ s' = [d |-> x.d, off |-> CHOOSE f \in x.offs : TRUE, boff |-> x.boff]
       /\ h' = Append(h, [s |-> s, o |-> o, x |-> x])
       /\ IF Dump THEN Emit ELSE TRUE

Spec == Init /\ [][Next]_vars

Small == Len(s.d) <= MaxLen /\ m.end - m.base <= MaxRoom

\* Two states of one shape are not told apart: same target, window, room and
\* what is in the room (zeros or not), positions at 0 or not, storage shared
\* or not.
Shape == <<t, m.base, m.len, m.end, [j \in DOMAIN Room(m) |-> Room(m)[j] # 0], m.off = 0, m.boff, m.a \in 1 .. m.client, m.resized,
           {q \in DOMAIN s.d : s.d[q] = 0} = {}, m.lay>>

(* ------------------------------ refinement ----------------------------- *)
Refines == /\ Content(m) = s.d
           /\ m.cap = Len(s.d) /\ m.bcap = 8 * Len(s.d)
           /\ m.off = s.off /\ m.boff = s.boff

\* what is outside the contents is nobody's to change before a resizing, and
\* slices that were concatenated are never changed
Outside ==
  \A j \in 1 .. m.client :
    IF m.several THEN m.mem[j] = m.orig[j]
    ELSE m.resized \/ \A q \in DOMAIN m.mem[j] : (q - 1 \in m.base .. m.base + m.len - 1) \/ m.mem[j][q] = m.orig[j][q]
=============================================================================
