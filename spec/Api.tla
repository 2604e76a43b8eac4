--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* C15, the static half: what the regenerated package offers is what the   *)
(* shipped one offers.  A package is modelled by the set of its exported   *)
(* declarations with their types.  The file named by TRACE lists, one per  *)
(* line, comparisons [shipped, regen] of packages read from real code;     *)
(* each is a state, and the two must be equal as sets.                     *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Sequences, Naturals, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k

Range(q) == {q[j] : j \in 1 .. Len(q)}

Shipped == Range(Traces[k].shipped)
Regen   == Range(Traces[k].regen)

Init == k \in 1 .. Len(Traces)
Spec == Init /\ [][FALSE]_k

Same == \/ Shipped = Regen
        \/ /\ PrintT("DIFF " \o ToJson([name |-> Traces[k].name, lost |-> Shipped \ Regen, new |-> Regen \ Shipped]))
           /\ FALSE
=============================================================================
