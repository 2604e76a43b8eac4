------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* C11: recorded histories of real memory against Heap.tla.                *)
(*                                                                         *)
(* A trace has the inputs ins of the constructor and events ev:            *)
(*   build  d, objs (the inputs afterwards), new (objects of other buffers)*)
(*   call   o, resize, d, objs, new: the objects the call handed over      *)
(*   poke   the client changed byte i of object j to v                     *)
(*   put    n bytes of object j from i on were written at p                *)
(*   other  another buffer whose contents are object j was used            *)
(* d and objs are what is observed after the event; objs[j] is <<>> for a  *)
(* free object.                                                            *)
(***************************************************************************)
EXTENDS Heap, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, w, bad

vars == <<k, i, w, bad>>

Empty == [d |-> <<>>, objs |-> <<>>]

Init == /\ k \in 1 .. Len(Traces) /\ i = 0 /\ w = Empty /\ bad = {}
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Flag(cond, name) == IF cond THEN {} ELSE {name}

SameSize(e) == Len(e.d) = Len(w.d)

Expected(tr, e) ==
  CASE e.op = "build" -> Built(tr.ins)
    [] e.op = "poke"  -> Poked(w, e.j, e.i, e.v)
    [] e.op = "put"   -> Put(w, e.j, e.i, e.n, e.p)
    [] e.op = "other" -> [w EXCEPT !.objs[e.j].b = e.objs[e.j]]
    [] e.op = "call"  -> IF e.resize THEN Resized(w, e.d)
                         ELSE IF SameSize(e) THEN InPlace(w, e.d)
                         ELSE Resized(w, e.d)         \* C09's matter

Judge(e, x) ==
  (CASE e.op = "build" -> Flag(e.d = x.d, "contents of the new buffer")
     [] e.op = "poke" -> Flag(e.d = x.d, IF InWindow(w, e.j, e.i) THEN "the buffer does not see the change of its storage"
                                         ELSE "the buffer changed with data that is not its storage")
     [] e.op = "put" -> Flag(e.d = x.d, "the data of an object was not stored as it was")
     [] e.op = "other" -> Flag(e.d = w.d, "the buffer changed with another buffer")
     [] OTHER -> {})
  \cup UNION {LET o == x.objs[j] IN
              IF o.st = "free" \/ e.objs[j] = o.b THEN {}
              ELSE IF o.st = "own" THEN {"a copy or input changed"}
              ELSE IF Len(e.objs[j]) = Len(o.b) /\ Slice(e.objs[j], o.lo, Len(x.d)) = x.d THEN {"memory around the storage changed"}
              ELSE {"shared storage does not show the contents"}
              : j \in DOMAIN x.objs}
  \cup UNION {Flag(n.st # "live" \/ n.b = e.d, "the accessor does not return the contents") : n \in {e.new[q] : q \in DOMAIN e.new}}

\* the observed world
Adopt(e, x) ==
  [d |-> e.d,
   objs |-> [j \in DOMAIN x.objs |-> IF x.objs[j].st = "free" \/ (Live(x.objs[j]) /\ Len(e.objs[j]) # Len(x.objs[j].b))
                                     THEN [x.objs[j] EXCEPT !.st = "free"]
                                     ELSE [x.objs[j] EXCEPT !.b = e.objs[j]]]
            \o [q \in 1 .. Len(e.new) |-> [b |-> e.new[q].b, lo |-> e.new[q].lo, st |-> e.new[q].st]]]

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

Step ==
  /\ i < Len(Traces[k].ev)
  /\ LET e == Traces[k].ev[i + 1]
         x == Expected(Traces[k], e)
         b == Judge(e, x)
     IN  /\ bad' = b
         /\ IF DOMAIN x.objs # {} THEN Count(1) ELSE TRUE
         /\ Count(2)
         /\ IF b # {} THEN /\ Count(3)
                           /\ PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, spec |-> "Heap", broken |-> b, o |-> e,
                                                        state |-> w, expected |-> x, observed |-> e]))
            ELSE TRUE
         /\ k' = k /\ i' = i + 1
         /\ w' = Adopt(e, x)

Spec == Init /\ [][Step]_vars

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

Consumed ==
  LET total == Sum([n \in 1 .. Len(Traces) |-> Len(Traces[n].ev)], Len(Traces))
  IN  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                    events |-> total, traces |-> Len(Traces)]))
      /\ TLCGet("stats").distinct = total + Len(Traces)
=============================================================================
