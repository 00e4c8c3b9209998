----------------------------- MODULE TimedWord -----------------------------
(***************************************************************************)
(* Timed words over a discretised time line.                               *)
(*                                                                         *)
(* A word is a sequence of records [c |-> letter, t |-> ticks], strictly   *)
(* increasing in t.  One time unit is U ticks.  A word whose time stamps   *)
(* are all multiples of 3 ticks (with 3 dividing U) has the property that  *)
(* every region of the plane (begin, end) cut out by the time stamps and   *)
(* integer constants contains a tick point, so quantifying over ticks      *)
(* decides statements about all real begin / end points.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b

\* Time stamp of the i-th event (1-based); position 0 is the origin of time.
Tau(w, i) == IF i = 0 THEN 0 ELSE w[i].t

\* Events strictly inside the open interval (t, u), as the index range
\* FirstAfter(w, t)..LastBefore(w, u).
FirstAfter(w, t) == 1 + Cardinality({ i \in 1..Len(w) : w[i].t <= t })
LastBefore(w, u) == Cardinality({ i \in 1..Len(w) : w[i].t < u })

\* w|(t,u): the trimmed word, shifted by -t, without the terminal symbol.
Inside(w, t, u) == [ k \in 1..(LastBefore(w, u) - FirstAfter(w, t) + 1) |->
                       [c |-> w[FirstAfter(w, t) + k - 1].c,
                        t |-> w[FirstAfter(w, t) + k - 1].t - t] ]
=============================================================================
