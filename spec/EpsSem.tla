------------------------------- MODULE EpsSem ------------------------------
(***************************************************************************)
(* Timed automata with unobservable transitions, read over a signal.       *)
(*                                                                         *)
(* Unobservable transitions (letter "eps") happen at any time, in order,   *)
(* between two events.  Their times are chosen from a lattice of F fine    *)
(* ticks per tick: with at most F - 1 unobservable transitions in a run    *)
(* whatever is possible at some real time is possible on the lattice (the  *)
(* times are the unknowns of a system of difference constraints whose      *)
(* constants are whole ticks).                                             *)
(*                                                                         *)
(* strict: the delay before every transition is positive.  The code treats *)
(* unobservable transitions as ends of letters of positive length; a match *)
(* which needs a delay of zero may be reported but need not be.            *)
(*                                                                         *)
(* A configuration is <<state, z, last>>: z[x] is the fine tick of the     *)
(* last reset of clock x and last the one of the last transition.          *)
(***************************************************************************)
EXTENDS TASem

LOCAL ResetTo(ta, e, z, now) == [x \in 1..ta.nc |-> IF x \in Rng(e.r) THEN now ELSE z[x]]

\* one unobservable transition between the fine ticks lo and hi
EpsStep(ta, UF, confs, lo, hi, strict) ==
  UNION { LET k == p[1]
              e == p[2]
          IN  { <<e.t, ResetTo(ta, e, k[2], x), x>> :
                  x \in { y \in MaxOf(k[3] + (IF strict THEN 1 ELSE 0), lo)..hi : GuardOK(e.g, k[2], y, UF) } } :
          p \in { q \in confs \X Rng(ta.edges) : q[2].s = q[1][1] /\ q[2].c = "eps" } }
RECURSIVE EpsClosure(_, _, _, _, _, _, _)
EpsClosure(ta, UF, all, new, lo, hi, strict) ==
  LET more == EpsStep(ta, UF, new, lo, hi, strict) \ all
  IN  IF more = {} THEN all ELSE EpsClosure(ta, UF, all \cup more, more, lo, hi, strict)

ReadLetter(ta, UF, confs, c, now, strict) ==
  { <<p[2].t, ResetTo(ta, p[2], p[1][2], now), now>> :
      p \in { q \in confs \X Rng(ta.edges) :
                /\ q[2].s = q[1][1] /\ q[2].c = c
                /\ (IF strict THEN q[1][3] < now ELSE q[1][3] <= now) /\ GuardOK(q[2].g, q[1][2], now, UF) } }

\* The ends (in ticks) of matches in the segments j, j + 1, ...: the segment j
\* ends with the event j, and its last letter may be cut anywhere in it.
RECURSIVE EpsEnds(_, _, _, _, _, _, _, _)
EpsEnds(ta, U, F, w, confs, j, t, strict) ==
  IF j > Len(w) \/ confs = {} THEN {}
  ELSE LET UF  == U * F
           lo  == Tau(w, j - 1) * F
           all == EpsClosure(ta, UF, confs, confs, lo, w[j].t * F, strict)
           now == { u \in (MaxOf(t, Tau(w, j - 1)) + 1)..w[j].t :
                      Accepts(ta, ReadLetter(ta, UF, all, w[j].c, u * F, strict)) }
       IN  now \cup EpsEnds(ta, U, F, w, ReadLetter(ta, UF, all, w[j].c, w[j].t * F, strict), j + 1, t, strict)

EpsMatches(ta, U, F, w, t, must) ==
  EpsEnds(ta, U, F, w, { <<s, [x \in 1..ta.nc |-> t * F], t * F>> : s \in Rng(ta.init) },
          FirstAfter(w, t), t, must)
=============================================================================
