------------------------------ MODULE SigSem -------------------------------
(***************************************************************************)
(* Timed regular expressions over signals (signal semantics).              *)
(*                                                                         *)
(* A signal is a sequence of cells, one letter per fine tick; position p   *)
(* (0..Len(cell)) is the boundary after the p-th cell.  Expressions are    *)
(* the records of TRESem.  One time unit is UF fine ticks.                 *)
(* SigEnds(e, cell, p, UF, z): the positions q such that the part of the   *)
(* signal between p and q is in the language of e.  z tells whether an     *)
(* atom may have zero length: the unit tests accept signals of zero-length *)
(* letters and the documentation gives an atom the durations [0,oo), while *)
(* the automata ask for one event per (merged) letter; a match that needs  *)
(* a letter of zero length may therefore be reported but need not be.      *)
(***************************************************************************)
EXTENDS TimedWord

InIntervalF(d, e, UF) ==
  /\ IF e.loc = 1 THEN d >= e.lo * UF ELSE d > e.lo * UF
  /\ e.hi = -1 \/ (IF e.hic = 1 THEN d <= e.hi * UF ELSE d < e.hi * UF)

RECURSIVE RunLen(_, _, _)
RunLen(cell, p, c) == IF p < Len(cell) /\ cell[p + 1] = c THEN RunLen(cell, p + 1, c) ELSE p

\* The letters of an expression, and the durations up to N fine ticks of an
\* expression over one letter (which do not depend on the position).
RECURSIVE LettersOf(_)
LettersOf(e) == CASE e.op = "atom" -> {e.c}
                  [] e.op = "eps"  -> {"eps"}
                  [] e.op \in {"in", "plus"} -> LettersOf(e.a)
                  [] OTHER -> LettersOf(e.a) \cup LettersOf(e.b)
Sums(A, B, N) == { d \in 0..N : \E x \in A : x <= d /\ (d - x) \in B }
RECURSIVE Durs(_, _, _, _)
RECURSIVE DurIter(_, _, _, _)
Durs(e, N, UF, z) ==
  CASE e.op = "atom" -> (IF z THEN 0 ELSE 1)..N
    [] e.op = "cat"  -> Sums(Durs(e.a, N, UF, z), Durs(e.b, N, UF, z), N)
    [] e.op = "or"   -> Durs(e.a, N, UF, z) \cup Durs(e.b, N, UF, z)
    [] e.op = "and"  -> Durs(e.a, N, UF, z) \cap Durs(e.b, N, UF, z)
    [] e.op = "in"   -> { d \in Durs(e.a, N, UF, z) : InIntervalF(d, e, UF) }
    [] e.op = "plus" -> LET one == Durs(e.a, N, UF, z) IN DurIter(one, one, one, N)
DurIter(one, S, new, N) ==
  LET more == { d \in (0..N) \ S : \E x \in new : x <= d /\ (d - x) \in one }
  IN  IF more = {} THEN S ELSE DurIter(one, S \cup more, more, N)

RECURSIVE SigEnds(_, _, _, _, _)
RECURSIVE SigIter(_, _, _, _, _, _)
SigEnds(e, cell, p, UF, z) ==
  CASE e.op = "atom" -> (IF z THEN p ELSE p + 1)..RunLen(cell, p, e.c)
    [] e.op = "eps"  -> {p}
    [] e.op = "cat"  -> UNION { SigEnds(e.b, cell, q, UF, z) : q \in SigEnds(e.a, cell, p, UF, z) }
    [] e.op = "or"   -> SigEnds(e.a, cell, p, UF, z) \cup SigEnds(e.b, cell, p, UF, z)
    [] e.op = "and"  -> SigEnds(e.a, cell, p, UF, z) \cap SigEnds(e.b, cell, p, UF, z)
    [] e.op = "in"   -> { q \in SigEnds(e.a, cell, p, UF, z) : InIntervalF(q - p, e, UF) }
    [] e.op = "plus" /\ Cardinality(LettersOf(e)) = 1 /\ "eps" \notin LettersOf(e) ->
         LET c == CHOOSE x \in LettersOf(e) : TRUE
         IN  { p + d : d \in Durs(e, RunLen(cell, p, c) - p, UF, z) }
    [] OTHER -> LET one == SigEnds(e.a, cell, p, UF, z) IN SigIter(e.a, cell, one, one, UF, z)
SigIter(a, cell, S, new, UF, z) ==
  LET more == UNION { SigEnds(a, cell, q, UF, z) : q \in new } \ S
  IN  IF more = {} THEN S ELSE SigIter(a, cell, S \cup more, more, UF, z)

\* The letters of w as cells: letter w[i].c holds on (w[i-1].t, w[i].t].
Cells(w, F) == [ x \in 1..(F * Tau(w, Len(w))) |->
                   w[CHOOSE i \in 1..Len(w) : Tau(w, i - 1) * F < x /\ x <= w[i].t * F].c ]
=============================================================================
