------------------------------- MODULE TASem -------------------------------
(***************************************************************************)
(* Timed automata: configurations, steps and languages.                    *)
(*                                                                         *)
(* ta = [n, init, acc, nc, edges]; init, acc and edges are sequences (as   *)
(* they are deserialised from JSON); an edge is                            *)
(*    [s, c, t, g, r] with g a sequence of <<clock, op, constant>> and r a *)
(* sequence of clocks; clocks and states are numbered from 1.  The letter  *)
(* "eps" is the unobservable letter.                                       *)
(*                                                                         *)
(* A configuration is <<state, z>> where z[x] is the absolute tick at which*)
(* clock x was last reset.                                                 *)
(***************************************************************************)
EXTENDS TimedWord

Rng(s) == { s[i] : i \in 1..Len(s) }

Cmp(v, op, c) == CASE op = "<"  -> v < c
                   [] op = "<=" -> v <= c
                   [] op = ">"  -> v > c
                   [] op = ">=" -> v >= c

GuardOK(g, z, now, U) ==
  \A i \in 1..Len(g) : Cmp(now - z[g[i][1]], g[i][2], g[i][3] * U)

Start(ta, now) == { <<s, [x \in 1..ta.nc |-> now]>> : s \in Rng(ta.init) }

StepBy(ta, U, confs, c, now) ==
  { <<ce[2].t, [x \in 1..ta.nc |-> IF x \in Rng(ce[2].r) THEN now ELSE ce[1][2][x]]>> :
      ce \in { p \in confs \X Rng(ta.edges) :
                 /\ p[2].s = p[1][1]
                 /\ p[2].c = c
                 /\ GuardOK(p[2].g, p[1][2], now, U) } }

Accepts(ta, confs) == \E k \in confs : k[1] \in Rng(ta.acc)

\* Configurations after reading events lo..hi of w, started at absolute time t.
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(ta, U, w, confs, lo, hi) ==
  IF lo > hi \/ confs = {} THEN confs
  ELSE RunFrom(ta, U, w, StepBy(ta, U, confs, w[lo].c, w[lo].t), lo + 1, hi)

\* Membership of a whole timed word (time origin 0), epsilon-free automata.
Member(ta, U, w) == Accepts(ta, RunFrom(ta, U, w, Start(ta, 0), 1, Len(w)))
=============================================================================
