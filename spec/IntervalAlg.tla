---------------------------- MODULE IntervalAlg ----------------------------
(***************************************************************************)
(* The algebra of intervals of non-negative reals, as sets.                *)
(*                                                                         *)
(* An interval is <<lower, closed, upper, closed>> in halves of a unit;    *)
(* INF stands for no upper bound.  The bounds of the operands are whole    *)
(* units, so a set obtained from them is determined by its halves; a sum   *)
(* of two is looked for on quarters.                                       *)
(*                                                                         *)
(* case = [id, op, left, right, result, top]: the operation of the code    *)
(* turned the lists left and right into the list result; every half up to  *)
(* top is judged.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(kk) == Cases[kk]
INF == 1000000
VARIABLES k, x       \* case, point (in halves)
vars == <<k, x>>

\* v quarters
In(v, I) == /\ IF I[2] = 1 THEN 2 * I[1] <= v ELSE 2 * I[1] < v
            /\ I[3] >= INF \/ (IF I[4] = 1 THEN v <= 2 * I[3] ELSE v < 2 * I[3])
InSome(v, L) == \E i \in 1..Len(L) : In(v, L[i])
InSum(v, L, M) == \E y \in 0..v : InSome(y, L) /\ InSome(v - y, M)

\* v in the set of sums of n[i] elements of each L[i].  The sets are convex,
\* so the sums of n elements of one of them are its multiples by n.
Times(L, n, b) == LET RECURSIVE go(_)
                      go(i) == IF i = 0 THEN 0 ELSE go(i - 1) + (IF n[i] = 0 THEN 0 ELSE n[i] * L[i][b])
                  IN  go(Len(L))
InMultiple(v, L, n) ==
  LET used == { i \in 1..Len(L) : n[i] > 0 }
      closed(b) == \A i \in used : L[i][b] = 1
  IN  In(v, <<Times(L, n, 1), IF closed(2) THEN 1 ELSE 0,
              IF \E i \in used : L[i][3] >= INF THEN INF ELSE Times(L, n, 3), IF closed(4) THEN 1 ELSE 0>>)
\* enough repetitions to reach v with the shortest elements
InPlus(v, L) == \E n \in [1..Len(L) -> 0..C(k).reps] : (\E i \in 1..Len(L) : n[i] > 0) /\ InMultiple(v, L, n)

Expected ==
  LET v == 2 * x  c == C(k) IN
  CASE c.op \in {"and", "land1", "land"} -> InSome(v, c.left) /\ InSome(v, c.right)
    [] c.op \in {"sum", "sums"} -> InSum(v, c.left, c.right)
    [] c.op \in {"plus1", "plus"} -> InPlus(v, c.left)
    [] c.op = "contain" -> InSome(v, c.left)
Actual == IF C(k).op = "contain" THEN C(k).verdicts[x + 1] = 1 ELSE InSome(2 * x, C(k).result)

Init == k \in 1..Len(Cases) /\ x = 0
Next == x < C(k).top /\ x' = x + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
Right == IF Actual = Expected THEN TRUE
         ELSE PrintT(<<"REJECT", IF Actual THEN "extra" ELSE "missing", C(k).id, x>>)
=============================================================================
