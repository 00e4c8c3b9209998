------------------------------ MODULE ZoneOps ------------------------------
(***************************************************************************)
(* Zones as sets of clock values, and their operations.                    *)
(*                                                                         *)
(* A set of values is a set of clock regions, unbounded but cut off at the *)
(* horizon; a region is its canonical point: D = n + 1 ticks per unit, the  *)
(* distinct fractional parts spaced 1, 2, ... in their order.  The bounds  *)
(* of zones are whole units, so a zone is a union of regions.              *)
(*                                                                         *)
(* case = [id, n, kind, M, box, horizon, other, otherSat, steps]: the      *)
(* history steps[j] = [op, a, m, sat, guard, eq] was recorded from the     *)
(* code: m is the matrix after the operation.  Zones are compared inside   *)
(* the box; the horizon is so far behind it that every value in the box    *)
(* has its witnesses below the horizon.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(kk) == Cases[kk]
INF == 1000000
VARIABLES k, j, Z       \* case, number of steps, set of regions
vars == <<k, j, Z>>

D(kk) == C(kk).n + 1
Clocks(p) == DOMAIN p
Frac(d, v) == v % d
Canon(d, p) ==
  LET fr == { Frac(d, p[x]) : x \in Clocks(p) } \ {0}
      rank(f) == IF f = 0 THEN 0 ELSE Cardinality({ g \in fr : g <= f })
  IN  [x \in Clocks(p) |-> (p[x] \div d) * d + rank(Frac(d, p[x]))]
Inside(kk, p, units) == \A x \in Clocks(p) : p[x] <= units * D(kk)

\* immediate successor in time
TimeSucc(d, p) ==
  LET ints == { x \in Clocks(p) : Frac(d, p[x]) = 0 }
      top  == { x \in Clocks(p) : \A y \in Clocks(p) : Frac(d, p[y]) <= Frac(d, p[x]) }
  IN  IF ints # {} THEN Canon(d, [x \in Clocks(p) |-> p[x] + 1])
      ELSE Canon(d, [x \in Clocks(p) |-> IF x \in top THEN (p[x] \div d + 1) * d ELSE p[x]])
RECURSIVE Close(_, _, _)
Close(kk, S, new) ==
  LET more == { q \in { TimeSucc(D(kk), p) : p \in new } : Inside(kk, q, C(kk).horizon) } \ S
  IN  IF more = {} THEN S ELSE Close(kk, S \cup more, more)
\* a delay, maybe none
StayOrElapse(kk, S) == Close(kk, S, S)
\* a positive delay; it stays in the region if no clock is an integer
Elapse(kk, S) ==
  LET first == { q \in { TimeSucc(D(kk), p) : p \in S } : Inside(kk, q, C(kk).horizon) }
      open  == { p \in S : \A x \in Clocks(p) : Frac(D(kk), p[x]) # 0 }
  IN  open \cup Close(kk, first, first)

\* clock x (from 1) or the constant (0)
Val(p, x) == IF x = 0 THEN 0 ELSE p[x]
Le(kk, v, b) == b[1] >= INF \/ (IF b[2] = 1 THEN v <= b[1] * D(kk) ELSE v < b[1] * D(kk))
Holds(kk, p, m) == \A x, y \in 0..(Len(m) - 1) : Le(kk, Val(p, x) - Val(p, y), m[x + 1][y + 1])
Meant(kk, S, m) == { p \in S : Holds(kk, p, m) }

All(kk) == { Canon(D(kk), p) : p \in [1..C(kk).n -> 0..(C(kk).horizon * D(kk))] }
Begin(kk) == IF C(kk).kind = "z" THEN { [x \in 1..C(kk).n |-> 0] } ELSE All(kk)
\* the abstraction is taken over from the code, and judged below
Do(kk, s, S) ==
  CASE s.op = "t" -> { p \in S : Le(kk, Val(p, s.a[1] + 1) - Val(p, s.a[2] + 1), <<s.a[3], s.a[4]>>) }
    [] s.op = "r" -> { Canon(D(kk), [p EXCEPT ![s.a[1] + 1] = 0]) : p \in S }
    [] s.op = "e" -> Elapse(kk, S)
    [] s.op = "w" -> StayOrElapse(kk, S)
    [] s.op = "a" -> Meant(kk, All(kk), s.m)
    [] s.op = "i" -> Meant(kk, S, C(kk).other)
    [] s.op = "k" -> { Canon(D(kk), [x \in 1..(s.a[2] - s.a[1] + 1) |-> p[s.a[1] + x]]) : p \in S }
    [] s.op = "u" -> {}
    [] OTHER -> S                  \* s (start), c, g, q

Init == /\ k \in 1..Len(Cases) /\ j = 1 /\ Z = Begin(k)
Next == /\ j < Len(C(k).steps) /\ j' = j + 1 /\ k' = k
        /\ Z' = Do(k, C(k).steps[j + 1], Z)
Spec == Init /\ [][Next]_vars

St == C(k).steps[j]
Box(S) == { p \in S : Inside(k, p, C(k).box) }
AllOf(S) == IF St.op = "k" THEN { Canon(D(k), [x \in 1..(St.a[2] - St.a[1] + 1) |-> p[St.a[1] + x]]) : p \in All(k) } ELSE All(k)
Say(kind) == PrintT(<<"REJECT", kind, C(k).id, j>>)

\* the matrix stands for the set
SameSet == IF Z = {} \/ Box(Z) = Meant(k, Box(AllOf(Z)), St.m) THEN TRUE ELSE Say("values")
\* satisfiable means some values
Verdict == IF (St.sat = 1) = (Z # {}) THEN TRUE ELSE Say("satisfiable")
\* a canonical zone has the tightest bounds
Plus(a, b) == IF a[1] >= INF \/ b[1] >= INF THEN <<INF, 0>> ELSE <<a[1] + b[1], IF a[2] = 1 /\ b[2] = 1 THEN 1 ELSE 0>>
LeqB(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[1] >= INF \/ a[2] <= b[2]))
Tight == IF St.op # "c" \/ Z = {} THEN TRUE
         ELSE IF \A x, y, z \in 1..Len(St.m) : x = y \/ LeqB(St.m[x][y], Plus(St.m[x][z], St.m[z][y])) THEN TRUE ELSE Say("not canonical")
\* equality of zones is equality of sets
Equal == IF St.op # "q" THEN TRUE
         ELSE IF (St.eq = 1) = (Box(Z) = Meant(k, Box(All(k)), C(k).other)) THEN TRUE ELSE Say("equality")

\* the abstraction adds values, only finitely many bounds are left, and a single
\* bound up to M is satisfiable in the abstraction only if it was before
Sat1(S, x, op, c) == \E p \in S : CASE op = 0 -> p[x] < c * D(k) [] op = 1 -> p[x] <= c * D(k)
                                    [] op = 2 -> p[x] >= c * D(k) [] op = 3 -> p[x] > c * D(k)
Abstraction == [][IF C(k).steps[j'].op # "a" THEN TRUE
   ELSE LET s == C(k).steps[j'] IN
        IF /\ Z \subseteq Z'
           /\ \A x, y \in 1..Len(s.m) : x # y => s.m[x][y][1] >= INF \/ (-C(k).M <= s.m[x][y][1] /\ s.m[x][y][1] <= C(k).M)
           /\ \A x \in 1..C(k).n : \A c \in 0..C(k).M : \A op \in 0..3 : Sat1(Z', x, op, c) => Sat1(Z, x, op, c)
        THEN TRUE ELSE PrintT(<<"REJECT", "abstraction", C(k).id, j'>>)]_vars

\* the guard made from a zone: of all guards with constants up to M the strongest
\* which holds in the zone.  Constraint orders: 0 <, 1 <=, 2 >=, 3 >
GHolds(v, g) == CASE g[2] = 0 -> v < g[3] * D(k) [] g[2] = 1 -> v <= g[3] * D(k)
                  [] g[2] = 2 -> v >= g[3] * D(k) [] g[2] = 3 -> v > g[3] * D(k)
\* the value v and v' satisfy the same bounds up to M
Hull(x, v) ==
  /\ \A c \in 0..C(k).M : \A g \in { <<x, o, c>> : o \in 0..3 } : (\A p \in Z : GHolds(p[x], g)) => GHolds(v, g)
Guard == IF St.op # "g" THEN TRUE
         ELSE IF /\ \A i \in 1..Len(St.guard) : 0 <= St.guard[i][3] /\ St.guard[i][3] <= C(k).M
                 /\ \A x \in 1..C(k).n : \A v \in 0..(D(k) * (C(k).M + 2)) :
                      (\A i \in 1..Len(St.guard) : St.guard[i][1] = x => GHolds(v, St.guard[i])) = Hull(x, v)
              THEN TRUE ELSE Say("guard")
=============================================================================
