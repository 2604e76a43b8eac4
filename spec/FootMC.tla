------------------------------- MODULE FootMC -------------------------------
(***************************************************************************)
(* Foot.tla checked against the contract, and designs of implementations   *)
(* checked against Foot.tla.                                               *)
(*                                                                         *)
(* In every small state, for every call of the alphabet of CrunchMC:       *)
(*   - the contract changes only what Writes says, and that is granted;    *)
(*   - its outcome depends only on what Reads says, and that is granted;   *)
(*   - calls whose footprints are disjoint commute.                        *)
(*                                                                         *)
(* DESIGN selects how an implementation accesses memory: a sequence of     *)
(* loads and stores for each call.  The good designs stay within what is   *)
(* granted in every state; each of the others is refuted, although what it *)
(* computes is right.                                                      *)
(***************************************************************************)
EXTENDS Foot, CrunchMC

Design == IOEnv.DESIGN

Fixed(o) == o.op \notin Resizes

\* Contents that agree with st on the bytes the call reads.
Alike(st, o) == {[st EXCEPT !.d = d] : d \in {e \in Contents : /\ Len(e) = Len(st.d)
                                                            /\ \A j \in Reads(st, o) : j + 1 \in DOMAIN e => e[j + 1] = st.d[j + 1]}}

Contract(st, o) ==
  LET x == Exp(t, st, o) IN
  Fixed(o) =>
    /\ Len(x.d) = Len(st.d)
    /\ \A j \in 1 .. Len(st.d) : x.d[j] # st.d[j] => j - 1 \in Writes(st, o)
    /\ Quiet(t, st, o) => x.d = st.d
    /\ (x.ok /\ x.rej = {}) =>
         /\ \A j \in Writes(st, o) : MayWrite(t, st, o, "store", j, 0, Len(st.d))
         /\ \A j \in Reads(st, o) : MayRead(st, o, "store", j, 0, Len(st.d))
         /\ \A u \in Alike(st, o) :
              LET y == Exp(t, u, o) IN
              /\ y.ok = x.ok /\ y.rej = x.rej /\ y.v = x.v /\ y.offs = x.offs /\ y.boff = x.boff
              /\ \A j \in Writes(st, o) : y.d[j + 1] = x.d[j + 1]

\* Two positional calls that touch different bytes do not notice each other.
Apart(st, o, p) == /\ Writes(st, o) \cap (Reads(st, p) \cup Writes(st, p)) = {}
                   /\ Writes(st, p) \cap Reads(st, o) = {}
Then(st, o) == [st EXCEPT !.d = Exp(t, st, o).d]
Commute(st, o, p) ==
  (Apart(st, o, p) /\ InRange(t, st, o) /\ InRange(t, st, p)) =>
    /\ Exp(t, Then(st, o), p).v = Exp(t, st, p).v
    /\ Exp(t, Then(st, p), o).v = Exp(t, st, o).v
    /\ Then(Then(st, o), p).d = Then(Then(st, p), o).d

(* ------------------------------- designs -------------------------------- *)
\* An access: <<how, object, address>>.
Acc(how, in, set) == {<<how, in, j>> : j \in set}

Word == 4       \* bytes accessed at once by the designs that do

\* The words that cover the bytes in set, starting at its first.
Wide(set) == IF set = {} THEN {}
             ELSE LET lo == CHOOSE j \in set : \A k \in set : j <= k
                      hi == CHOOSE j \in set : \A k \in set : j >= k
                  IN  lo .. lo + Word * ((hi - lo) \div Word + 1) - 1

ListLen(o) == CASE o.op = "write" -> Len(o.vals) * o.w
                [] o.op = "read" /\ "pre" \in DOMAIN o -> Len(o.pre) * o.w
                [] OTHER -> 0
ListBytes(o) == Bytes(0, IF o.op = "write" THEN ListLen(o) ELSE IF "pre" \in DOMAIN o THEN o.n * o.w ELSE 0)

Plain(st, o) ==
  Acc("read", "store", Reads(st, o)) \cup Acc("write", "store", Writes(st, o))
  \cup Acc(IF o.op = "write" THEN "read" ELSE "write", "list", IF o.op \in {"write", "read"} THEN ListBytes(o) ELSE {})

Fits(st, set) == set \subseteq 0 .. Len(st.d) - 1

Accesses(st, o) ==
  CASE Design = "bytes"     -> Plain(st, o)
    \* words where they fit, bytes elsewhere
    [] Design = "words"     -> Plain(st, o)
                               \cup (LET r == Wide(Reads(st, o)) IN IF Fits(st, r) THEN Acc("read", "store", r) ELSE {})
                               \cup (LET q == Wide(Writes(st, o)) IN
                                     IF o.op \in {"setb", "flip", "sbits"} /\ Fits(st, q)
                                     THEN Acc("read", "store", q) \cup Acc("write", "store", q) ELSE {})
    \* whole words always: the last may hang over
    [] Design = "overhang"  -> Plain(st, o) \cup Acc("read", "store", Wide(Reads(st, o)))
    \* the list is taken two elements at a time
    [] Design = "pairs"     -> Plain(st, o)
                               \cup (IF o.op = "write" THEN Acc("read", "list", Bytes(0, 2 * o.w * ((Len(o.vals) + 1) \div 2))) ELSE {})
    \* bytes are swapped in place and swapped back
    [] Design = "swaplist"  -> Plain(st, o) \cup (IF o.op = "write" /\ o.e = "BE" THEN Acc("write", "list", ListBytes(o)) ELSE {})
    [] Design = "swapstore" -> Plain(st, o) \cup (IF o.op = "read" /\ o.e = "BE" THEN Acc("write", "store", Reads(st, o)) ELSE {})
    \* a byte that was looked at is put back
    [] Design = "putback"   -> Plain(st, o) \cup (IF o.op = "rbits" THEN Acc("write", "store", Reads(st, o)) ELSE {})
    \* a sentinel behind the contents
    [] Design = "sentinel"  -> Plain(st, o) \cup (IF o.op = "allb" THEN Acc("write", "store", {Len(st.d)}) ELSE {})
    [] OTHER                -> Plain(st, o)

\* A rejected call accesses nothing, unless bounds are checked byte by byte
\* and what was written is undone when one is outside.
Undone(st, o) == IF Design = "rollback" /\ o.op = "write"
                 THEN Acc("write", "store", Writes(st, o) \cap Bytes(0, Len(st.d))) ELSE {}

Within(st, o) ==
  LET x == Exp(t, st, o)
      a == IF ~x.ok THEN Undone(st, o) ELSE IF x.rej = {} THEN Accesses(st, o) ELSE {}
  IN  (Fixed(o) /\ (t.kind = "buffer" \/ InRange(t, st, o))) =>
        \A b \in a : Granted(t, st, o, b[1], b[2], b[3], ListLen(o), Len(st.d) + 3)

(* -------------------------------- the check ----------------------------- *)
FewPos == 0 .. MaxLen
Few(tt) ==
  {o \in {WriteOp(f, FALSE, p, Vals(f[2], n)) : f \in {g \in IntFams(tt) : g[2] <= 2}, p \in FewPos, n \in {1, 2}}
        \cup {ReadFor(tt, f, FALSE, p, n) : f \in {g \in IntFams(tt) : g[2] <= 2}, p \in FewPos, n \in {1, 2}}
        : o.k # "byte" \/ (o.op = "read" /\ o.n = 1) \/ (o.op = "write" /\ Len(o.vals) = 1)}
  \cup {BitRead(FALSE, p) : p \in {0, 7, 8}} \cup {BitFlip(FALSE, p) : p \in {0, 7, 8}} \cup {BitSet(FALSE, p, 1) : p \in {3, 12}}
  \cup {BitsRead(FALSE, p, n) : p \in {0, 3, 8}, n \in {3, 8, 9}}
  \cup {BitsSet(FALSE, p, <<0,0,0,0,0,0,129,85>>, n) : p \in {0, 3, 8}, n \in {3, 8, 9}}

FootInit == /\ t \in Targets
            /\ s = [d |-> <<>>, off |-> 0, boff |-> 0]
FootNext == /\ s = [d |-> <<>>, off |-> 0, boff |-> 0]
            /\ t' = t
            /\ s' \in {[d |-> d, off |-> f, boff |-> b] : d \in Contents, f \in {0, 1}, b \in {0, 5}}
FootSpec == FootInit /\ [][FootNext]_vars

FootLaws == IF Design = "bytes"
            THEN /\ \A o \in Alphabet(t) : Contract(s, o) /\ Within(s, o)
                 /\ (s.off = 0 /\ s.boff = 0) =>
                      LET P == {o \in Few(t) : InRange(t, s, o)} IN
                      \A o \in P, p \in P : Commute(s, o, p)
            ELSE \A o \in Alphabet(t) : Within(s, o)
=============================================================================
