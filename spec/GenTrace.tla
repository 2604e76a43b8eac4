------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* C16: recorded runs of the real generator against Gen.tla.               *)
(*                                                                         *)
(* A trace is the history of one directory: ev is a sequence of            *)
(*   [op |-> "edit", dir]        the directory was changed to dir by hand  *)
(*   [op |-> "run", ok, dir, faults]                                       *)
(*                               the generator was run and left dir behind *)
(*   [op |-> "expand", ...]      the generator was given one directive     *)
(* dir is a set of files [x, sort, c]; a content is a sequence of segment  *)
(* numbers.  seg[n] = [class, exp] describes segment n: class "either" is  *)
(* a malformed directive, which may be kept or replaced by a comment (its  *)
(* exp).  The expansions exp are those the generator gives the directive   *)
(* when it is alone in a directory (learned from "expand" events, which    *)
(* check their shape), so that the outcome is compared with a function of  *)
(* the templates only.                                                     *)
(***************************************************************************)
EXTENDS Gen, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, dir, bad

vars == <<k, i, dir, bad>>

Init == /\ k \in 1 .. Len(Traces) /\ i = 0 /\ dir = <<>> /\ bad = {}
        /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Range(q) == {q[j] : j \in 1 .. Len(q)}

\* A listed directory as a function.
Dir(l) == LET fs == Range(l) IN
          [n \in {[x |-> f.x, sort |-> f.sort] : f \in fs} |->
             (CHOOSE f \in fs : f.x = n.x /\ f.sort = n.sort).c]

Flag(cond, name) == IF cond THEN {} ELSE {name}

\* both readings of malformed directives
ClassOf(tr, kept) == [n \in 1 .. Len(tr.seg) |->
                        IF tr.seg[n].class = "either" THEN (IF kept THEN "text" ELSE "invalid") ELSE tr.seg[n].class]
ExpOf(tr) == [n \in 1 .. Len(tr.seg) |-> tr.seg[n].exp]

RunJudge(tr, e) ==
  LET faults == [unread |-> Range(e.faults.unread), unwrit |-> Range(e.faults.unwrit), idle |-> e.faults.idle]
      healthy == faults = NoFaults
      goals == {Generate(dir, faults, ClassOf(tr, b), ExpOf(tr)) : b \in {TRUE, FALSE}}
      after == Dir(e.dir)
      goal == CHOOSE g \in goals : TRUE
      written == Written(dir, faults)
      \* a way round may be found to write these: then it has to be right
      risky == {Output(x) : x \in faults.unwrit}
      whole == {Generate(dir, [faults EXCEPT !.unwrit = {}], ClassOf(tr, b), ExpOf(tr)) : b \in {TRUE, FALSE}}
      hand == DOMAIN dir \ (written \cup risky)
  IN  IF ~e.ok /\ healthy THEN {"the generator failed"}
      ELSE Flag(\E g \in goals : \A f \in written : f \in DOMAIN after /\ after[f] = g[f], "output")
           \cup Flag(\A f \in risky : \/ /\ (f \in DOMAIN after) = (f \in DOMAIN dir)
                                        /\ f \in DOMAIN dir => after[f] = dir[f]
                                     \/ \E g \in whole : f \in DOMAIN after /\ f \in DOMAIN g /\ after[f] = g[f], "blocked output")
           \cup Flag(\A f \in hand : f.sort = "template" => f \in DOMAIN after /\ after[f] = dir[f], "template modified")
           \cup Flag(\A f \in hand : f.sort # "template" => f \in DOMAIN after /\ after[f] = dir[f], "unrelated file modified")
           \cup Flag(DOMAIN after \subseteq DOMAIN goal \cup risky, "extra file")

\* The replacement of one directive: a valid one becomes its positional and
\* its Next operation, an invalid one a comment, a malformed one may stay.
ExpandJudge(e) ==
  IF e.class = "valid"
  THEN Flag(e.parsed, "expansion is not Go")
       \cup Flag({[recv |-> d.recv, name |-> d.name] : d \in Range(e.decls)}
                 = {[recv |-> e.recv, name |-> e.name], [recv |-> e.recv, name |-> e.name \o "Next"]}
                 /\ Len(e.decls) = 2, "operations")
       \cup Flag(\A d \in Range(e.decls) :
                   d.sig = (IF d.name = e.name THEN e.sig ELSE e.signext), "signature")
       \cup Flag(e.others = 0, "other declarations")
  ELSE Flag(e.comment, "not a comment")

Count(reg) == TLCSet(reg, TLCGet(reg) + 1)

Report(tr, e, b) ==
  IF b = {} THEN TRUE
  ELSE /\ Count(3)
       /\ PrintT("VIOL " \o ToJson([k |-> k, i |-> i + 1, prop |-> "C16", broken |-> b,
                 o |-> [op |-> e.op], observed |-> IF e.op = "run" THEN [ok |-> e.ok] ELSE e]))

Next == /\ i < Len(Traces[k].ev)
        /\ LET tr == Traces[k]
               e == tr.ev[i + 1]
               b == CASE e.op = "edit" -> {}
                      [] e.op = "run" -> RunJudge(tr, e)
                      [] e.op = "expand" -> ExpandJudge(e)
           IN /\ bad' = b
              /\ Report(tr, e, b)
              /\ Count(2)
              /\ IF e.op # "edit" THEN Count(1) ELSE TRUE
              /\ dir' = IF e.op = "expand" THEN dir ELSE Dir(e.dir)
        /\ i' = i + 1 /\ k' = k

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Traces[n].ev) + Total(n - 1)

Consumed ==
  /\ PrintT("STATS " \o ToJson([relevant |-> TLCGet(1), judged |-> TLCGet(2), violations |-> TLCGet(3),
                                events |-> Total(Len(Traces)), traces |-> Len(Traces)]))
  /\ TLCGet("stats").distinct = Total(Len(Traces)) + Len(Traces)
=============================================================================
