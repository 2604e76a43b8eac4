-------------------------------- MODULE GenMC --------------------------------
(***************************************************************************)
(* The generator as a program, step by step: it reads the templates, then  *)
(* for each one, in any order, opens the output and writes it.  Refines    *)
(* Generate whatever the directory held, and repeating it changes nothing. *)
(*                                                                         *)
(* DESIGN selects how outputs are written:                                 *)
(*   "truncate"  the old content goes when the file is opened (the code)   *)
(*   "overwrite" the new content is written over the old one               *)
(*   "append"    the new content is written after the old one              *)
(*   "skip"      an existing output is left alone                          *)
(*   "partial"   what could be read of an unreadable template is expanded  *)
(*   "abort"     the first file that cannot be read or written ends a run  *)
(*   "default"   a run not asked for a known kind generates all the same   *)
(* Only the first is right.  With DUMP = 1 the initial directories are     *)
(* printed, to be built on disk and given to the real generator.           *)
(***************************************************************************)
EXTENDS Gen, TLC, Json, IOUtils

Design == IOEnv.DESIGN
Dump   == IOEnv.DUMP = "1"

Segs  == {"t1", "t2", "v1", "v2", "i1", "e1", "e2", "e3", "c1", "o1"}
Class == [g \in Segs |-> IF g \in {"v1", "v2"} THEN "valid" ELSE IF g = "i1" THEN "invalid" ELSE "text"]
Exp   == [g \in Segs |-> CASE g = "v1" -> <<"e1", "e2">> [] g = "v2" -> <<"e3">> [] g = "i1" -> <<"c1">> [] OTHER -> <<g>>]

Absent == <<"absent">>
TemplateContents == {Absent, <<>>, <<"t1">>, <<"t1", "v1", "t2">>, <<"v2">>, <<"i1", "t1", "v1", "v1">>}
OutputContents   == {Absent, <<>>, <<"o1">>, <<"t1", "e1", "e2", "t2">>, <<"o1", "o1", "o1", "o1", "o1", "o1", "o1", "o1">>}

Names == {Template("a"), Template("b"), Output("a"), Output("b"), Output("c"), [x |-> "a", sort |-> "other"]}

Options(f) == CASE f.sort = "template" -> IF f.x = "a" THEN TemplateContents ELSE {Absent, <<"t2", "v2">>, <<"v1", "i1">>}
                [] f.sort = "output" -> IF f.x = "a" THEN OutputContents
                                        ELSE IF f.x = "b" THEN {Absent, <<"o1", "o1", "o1", "o1", "o1">>}
                                        ELSE {Absent, <<"t1", "v1">>}
                [] OTHER -> {Absent, <<"v1", "t1">>}

VARIABLES dir, start, pc, read, todo, cur, runs, faults

vars == <<dir, start, pc, read, todo, cur, runs, faults>>

Choices == {c \in [Names -> UNION {Options(f) : f \in Names}] : \A f \in Names : c[f] \in Options(f)}

\* Nothing wrong, an idle run, or one file that cannot be read or written.
FaultsOf(d) ==
  LET xs == {f.x : f \in TemplatesOf(d)}
      one(r, w) == [unread |-> r, unwrit |-> w, idle |-> FALSE]
      few == ~Dump \/ DOMAIN d \cap {Output("c"), [x |-> "a", sort |-> "other"]} = {}
  IN  {NoFaults}
      \cup IF few THEN {one({x}, {}) : x \in xs} \cup {one({}, {x}) : x \in xs} \cup {[NoFaults EXCEPT !.idle = TRUE]} ELSE {}

Init == /\ \E ta \in Options(Template("a")), tb \in Options(Template("b")), oa \in Options(Output("a")),
              ob \in Options(Output("b")), oc \in Options(Output("c")), ot \in Options([x |-> "a", sort |-> "other"]) :
             LET c == [f \in Names |-> CASE f = Template("a") -> ta [] f = Template("b") -> tb [] f = Output("a") -> oa
                                         [] f = Output("b") -> ob [] f = Output("c") -> oc [] OTHER -> ot]
             IN  dir = [f \in {g \in Names : c[g] # Absent} |-> c[f]]
        /\ start = dir
        /\ faults \in FaultsOf(dir)
        /\ pc = "scan" /\ read = <<>> /\ todo = {} /\ cur = <<>> /\ runs = 0
        /\ IF Dump THEN PrintT("DIR " \o ToJson([files |-> {[x |-> f.x, sort |-> f.sort, c |-> dir[f]] : f \in DOMAIN dir}, faults |-> faults])) ELSE TRUE

Scan == /\ pc = "scan"
        /\ LET all == {f.x : f \in TemplatesOf(dir)}
               got == IF Design = "partial" THEN all ELSE all \ faults.unread
           IN
           /\ read' = [x \in got |-> IF x \in faults.unread THEN <<>> ELSE Expand(dir[Template(x)], Class, Exp)]
           /\ todo' = IF faults.idle /\ Design # "default" THEN {}
                      ELSE IF Design = "abort" /\ faults.unread # {} THEN {} ELSE got
        /\ pc' = "open"
        /\ UNCHANGED <<dir, start, cur, runs, faults>>

Set(f, v) == dir' = [g \in DOMAIN dir \cup {f} |-> IF g = f THEN v ELSE dir[g]]
Old(f) == IF f \in DOMAIN dir THEN dir[f] ELSE <<>>

Open == /\ pc = "open" /\ todo # {}
        /\ \E x \in todo :
             /\ cur' = <<x>>
             /\ IF x \in faults.unwrit
                THEN /\ todo' = IF Design = "abort" THEN {} ELSE todo \ {x}
                     /\ UNCHANGED <<dir, pc>>
                ELSE /\ todo' = todo \ {x}
                     /\ Set(Output(x), IF Design \in {"overwrite", "append", "skip"} THEN Old(Output(x)) ELSE <<>>)
                     /\ pc' = IF Design = "skip" /\ Output(x) \in DOMAIN dir THEN "open" ELSE "write"
        /\ UNCHANGED <<start, read, runs, faults>>

Over(old, new) == [i \in 1 .. (IF Len(old) > Len(new) THEN Len(old) ELSE Len(new)) |-> IF i <= Len(new) THEN new[i] ELSE old[i]]

Write == /\ pc = "write"
         /\ LET x == cur[1] IN
            Set(Output(x), CASE Design = "append" -> Old(Output(x)) \o read[x]
                             [] OTHER -> Over(Old(Output(x)), read[x]))
         /\ pc' = "open"
         /\ UNCHANGED <<start, read, todo, cur, runs, faults>>

Again == /\ pc = "open" /\ todo = {} /\ runs = 0
         /\ runs' = 1 /\ pc' = "scan"
         /\ UNCHANGED <<dir, start, read, todo, cur, faults>>

Next == Scan \/ Open \/ Write \/ Again

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "open" /\ todo = {}
Goal == Generate(start, faults, Class, Exp)

Correct    == Done => dir = Goal
Untouched  == \A f \in DOMAIN start : f \notin Written(start, faults) => f \in DOMAIN dir /\ dir[f] = start[f]
Idempotent == Generate(Goal, faults, Class, Exp) = Goal
OnlyTemplatesMatter ==
  \A f \in Written(start, faults) : Goal[f] = Generate([g \in TemplatesOf(start) |-> start[g]], NoFaults, Class, Exp)[f]
Terminates == <>(runs = 1 /\ Done)
=============================================================================
