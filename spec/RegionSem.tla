----------------------------- MODULE RegionSem -----------------------------
(***************************************************************************)
(* Clock regions of a timed automaton (Alur and Dill), as the independent  *)
(* oracle of the zone constructions.                                       *)
(*                                                                         *)
(* A region is its canonical point: a function from clocks 1..n to ticks,  *)
(* D = n + 1 ticks per time unit.  The distinct positive fractional parts  *)
(* are spaced 1, 2, ... in their order.  A clock above the maximal         *)
(* constant cm has the value Top(cm) and no fractional part.  Between two   *)
(* letters time passes strictly: timed words are strictly increasing.  An  *)
(* unobservable transition may happen without delay, and after it the      *)
(* next transition, too (the matching takes such steps).                   *)
(***************************************************************************)
EXTENDS TASem

D(n) == n + 1
Top(n, cm) == (cm + 1) * D(n)

Frac(n, v) == v % D(n)
Fracs(n, cm, p) == { Frac(n, p[x]) : x \in { y \in 1..n : p[y] # Top(n, cm) } } \ {0}
\* rank of a fractional part among the present ones
Rank(n, cm, p, f) == IF f = 0 THEN 0 ELSE Cardinality({ g \in Fracs(n, cm, p) : g <= f })
Canon(n, cm, p) == [x \in 1..n |->
   IF p[x] >= Top(n, cm) THEN Top(n, cm)
   ELSE IF p[x] > cm * D(n) THEN Top(n, cm)
   ELSE (p[x] \div D(n)) * D(n) + Rank(n, cm, p, Frac(n, p[x]))]

\* immediate time successor
TimeSucc(n, cm, p) ==
  LET active == { x \in 1..n : p[x] # Top(n, cm) }
      zero   == { x \in active : Frac(n, p[x]) = 0 }
      top    == { x \in active : \A y \in active : Frac(n, p[y]) <= Frac(n, p[x]) }
  IN  IF active = {} THEN p
      ELSE IF zero # {}
           \* the clocks at integers move into the open interval, below all the others
           THEN Canon(n, cm, [x \in 1..n |-> IF x \in zero THEN (IF p[x] = cm * D(n) THEN Top(n, cm) ELSE p[x] + 1)
                                             ELSE IF x \in active THEN p[x] + 1 ELSE p[x]])
           \* the clocks with the largest fractional part reach the next integer
           ELSE Canon(n, cm, [x \in 1..n |-> IF x \in top THEN (p[x] \div D(n) + 1) * D(n) ELSE p[x]])

RECURSIVE Elapse(_, _, _, _)
Elapse(n, cm, S, new) ==
  LET more == { TimeSucc(n, cm, p) : p \in new } \ S
  IN  IF more = {} THEN S ELSE Elapse(n, cm, S \cup more, more)

\* What a strictly positive delay leads to: the region itself only if it is open
\* in the direction of time, that is, if no clock has an integer value.
Later(n, cm, p) ==
  LET S == Elapse(n, cm, {p}, {p})
  IN  IF \E x \in 1..n : p[x] # Top(n, cm) /\ Frac(n, p[x]) = 0 THEN S \ {p} ELSE S

\* comparison of a clock value with an integer constant c <= cm
RCmp(n, v, op, c) == Cmp(v, op, c * D(n))
RGuard(n, g, p) == \A i \in 1..Len(g) : RCmp(n, p[g[i][1]], g[i][2], g[i][3])
RReset(n, cm, p, r) == Canon(n, cm, [x \in 1..n |-> IF x \in Rng(r) THEN 0 ELSE p[x]])

\* symbolic configurations <<location, region>>
RStart(ta) == { <<s, [x \in 1..ta.nc |-> 0]>> : s \in Rng(ta.init) }
EpsTargets(ta) == { e.t : e \in { x \in Rng(ta.edges) : x.c = "eps" } }
RStep(ta, cm, confs, c) ==
  UNION { LET later == IF c = "eps" \/ k[1] \in EpsTargets(ta) THEN Elapse(ta.nc, cm, {k[2]}, {k[2]})
                       ELSE Later(ta.nc, cm, k[2])
          IN  { <<e.t, RReset(ta.nc, cm, p, e.r)>> :
                  <<e, p>> \in { ep \in Rng(ta.edges) \X later :
                                   ep[1].s = k[1] /\ ep[1].c = c /\ RGuard(ta.nc, ep[1].g, ep[2]) } }
        : k \in confs }
RECURSIVE REps(_, _, _, _)
REps(ta, cm, S, new) ==
  LET more == RStep(ta, cm, new, "eps") \ S
  IN  IF more = {} THEN S ELSE REps(ta, cm, S \cup more, more)
Locs(confs) == { k[1] : k \in confs }
=============================================================================
