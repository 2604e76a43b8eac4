--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* C16: the code generator as a function of the templates alone.           *)
(*                                                                         *)
(* A directory maps file names to contents; a content is a sequence of     *)
(* segments (the text between line ends).  Class tells what a segment is:  *)
(*   "text"     kept                                                       *)
(*   "valid"    a directive naming an operation                            *)
(*   "invalid"  a directive naming none                                    *)
(* and Exp what a directive is replaced by (a sequence of segments).       *)
(* Generate(dir, faults) is what a run leaves behind: faults.unread are    *)
(* the templates that cannot be read, which are left out; faults.unwrit    *)
(* the ones whose output cannot be written.  Neither keeps the others from *)
(* being written.  A run that is not asked for a known kind of generation  *)
(* (faults.idle) leaves everything as it is.                               *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets

\* Names are records [x, sort]: sort "template" is _x.go, "output" is
\* x.generated.go, "other" anything else.
Template(x) == [x |-> x, sort |-> "template"]
Output(x)   == [x |-> x, sort |-> "output"]

TemplatesOf(dir) == {f \in DOMAIN dir : f.sort = "template"}

RECURSIVE Expand(_, _, _)
Expand(content, Class, Exp) ==
  IF content = <<>> THEN <<>>
  ELSE LET c == Head(content) IN
       (IF Class[c] = "text" THEN <<c>> ELSE Exp[c]) \o Expand(Tail(content), Class, Exp)

NoFaults == [unread |-> {}, unwrit |-> {}, idle |-> FALSE]

Written(dir, faults) ==
  IF faults.idle THEN {}
  ELSE {Output(f.x) : f \in {g \in TemplatesOf(dir) : g.x \notin faults.unread \cup faults.unwrit}}

Generate(dir, faults, Class, Exp) ==
  LET w == Written(dir, faults) IN
  [f \in DOMAIN dir \cup w |->
     IF f \in w THEN Expand(dir[Template(f.x)], Class, Exp) ELSE dir[f]]
=============================================================================
