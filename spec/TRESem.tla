------------------------------ MODULE TRESem -------------------------------
(***************************************************************************)
(* Timed regular expressions over timed words (event semantics).           *)
(*                                                                         *)
(* Expressions are records:                                                *)
(*   [op |-> "atom", c], [op |-> "eps"], [op |-> "plus", a],               *)
(*   [op |-> "cat", a, b], [op |-> "or", a, b], [op |-> "and", a, b],      *)
(*   [op |-> "in", a, lo, loc, hi, hic]   (hi = -1: unbounded)             *)
(*                                                                         *)
(* A segment of w is a pair of positions p <= q (0..Len(w)): the events    *)
(* p+1..q, with duration T(q) - T(p), where T(0) is the start of the word. *)
(* Ends(e, w, b, p) = positions q such that segment (p, q) is in [[e]];    *)
(* b is the absolute time of position 0.                                   *)
(***************************************************************************)
EXTENDS TimedWord

TimeAt(w, b, p) == IF p = 0 THEN b ELSE w[p].t

InInterval(d, e, U) ==
  /\ IF e.loc = 1 THEN d >= e.lo * U ELSE d > e.lo * U
  /\ e.hi = -1 \/ (IF e.hic = 1 THEN d <= e.hi * U ELSE d < e.hi * U)

RECURSIVE Ends(_, _, _, _, _)
RECURSIVE Iter(_, _, _, _, _)
Ends(e, w, b, p, U) ==
  CASE e.op = "atom" -> IF p < Len(w) /\ w[p + 1].c = e.c THEN {p + 1} ELSE {}
    [] e.op = "eps"  -> {p}
    [] e.op = "cat"  -> UNION { Ends(e.b, w, b, q, U) : q \in Ends(e.a, w, b, p, U) }
    [] e.op = "or"   -> Ends(e.a, w, b, p, U) \cup Ends(e.b, w, b, p, U)
    [] e.op = "and"  -> Ends(e.a, w, b, p, U) \cap Ends(e.b, w, b, p, U)
    [] e.op = "in"   -> { q \in Ends(e.a, w, b, p, U) :
                            InInterval(TimeAt(w, b, q) - TimeAt(w, b, p), e, U) }
    [] e.op = "plus" -> LET one == Ends(e.a, w, b, p, U) IN Iter(e.a, w, b, one, U)
\* least set containing S and closed under one more iteration
Iter(a, w, b, S, U) ==
  LET more == UNION { Ends(a, w, b, q, U) : q \in S }
  IN  IF more \subseteq S THEN S ELSE Iter(a, w, b, S \cup more, U)

InTRE(e, U, w, b) == Len(w) \in Ends(e, w, b, 0, U)
=============================================================================
