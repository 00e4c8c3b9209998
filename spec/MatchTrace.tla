----------------------------- MODULE MatchTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the matching functions.                 *)
(*                                                                         *)
(* One behaviour per recorded run.  The variable begin sweeps the begin    *)
(* ticks; in every state the set of (begin, end) pairs reported by the     *)
(* code is compared with the match set which the denotational semantics    *)
(* (TASem, EpsSem, TRESem, SigSem) defines for the recorded word.                  *)
(*                                                                         *)
(* case = [id, mode, kind, U, pat, w, cmax, F, b0, b1, span, log]; begin   *)
(* ranges over b0..b1 and the end over the span ticks after begin.  With   *)
(* b0 = 0 and b1, span = the horizon, every region of the (begin, end)     *)
(* plane is judged; long recordings are judged in windows.                 *)
(***************************************************************************)
EXTENDS EpsSem, TRESem, SigSem, TLC, TLCExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NC == Len(Cases)

VARIABLES k,      \* case
          begin   \* begin tick being judged
vars == <<k, begin>>

Inf == 2000000000
C(kk) == Cases[kk]
W(kk) == C(kk).w
NE(kk) == Len(W(kk))
Horizon(kk) == Tau(W(kk), NE(kk)) + (C(kk).cmax + 1) * C(kk).U
EndTicks(kk, t) == (t + 1)..MinOf(t + C(kk).span, Horizon(kk))

\* ------------------------------------------------------------ match sets
\* The reachable configurations after each prefix of w[lo..].
RECURSIVE ConfSeq(_, _, _, _, _, _)
ConfSeq(ta, U, w, confs, i, last) ==
  IF i > last \/ confs = {} THEN <<confs>>
  ELSE <<confs>> \o ConfSeq(ta, U, w, StepBy(ta, U, confs, w[i].c, w[i].t), i + 1, last)

WithEnd(seg, c, u) == Append(seg, [c |-> c, t |-> u])

\* Matches from t of an automaton; must = TRUE leaves out the ones which the
\* code need not report (a match of no event at all).
TAMatches(kk, t, must) ==
  LET w  == W(kk)
      ta == C(kk).pat
      U  == C(kk).U
      lo == FirstAfter(w, t)
      cs == ConfSeq(ta, U, w, Start(ta, t), lo, LastBefore(w, t + C(kk).span + 1))
      At(j) == IF j - lo + 2 <= Len(cs) THEN cs[j - lo + 2] ELSE {}  \* after events lo..j
      EndsAt(u, c) == Accepts(ta, StepBy(ta, U, At(LastBefore(w, u)), c, u))
      DollarEnd(u) == /\ must => LastBefore(w, u) >= lo
                      /\ EndsAt(u, "$")
  IN  CASE C(kk).mode = "dollar" -> { u \in EndTicks(kk, t) : DollarEnd(u) }
        [] C(kk).mode = "signal" -> { u \in EndTicks(kk, t) :
               LET cl == FirstAfter(w, u - 1) IN cl <= Len(w) /\ EndsAt(u, w[cl].c) }
        [] C(kk).mode = "usual" -> { u \in EndTicks(kk, t) :
               DollarEnd(u) \/ \E j \in lo..Len(w) : w[j].t = u /\ Accepts(ta, At(j)) }

TREMatches(kk, t, must) ==
  LET w  == W(kk)
      lo == FirstAfter(w, t)
  IN  { u \in EndTicks(kk, t) :
          LET hi == LastBefore(w, u)
          IN  (must => hi >= lo) /\ InTRE(C(kk).pat, C(kk).U, WithEnd(SubSeq(w, lo, hi), "$", u), t) }

\* Signal expressions: all the ends of matches from t, on a lattice of C.F
\* fine ticks per tick.
SigMatches(kk, t, z) ==
  LET F == C(kk).F
  IN  IF t >= Tau(W(kk), NE(kk)) THEN {}
      ELSE { q \div F : q \in { x \in SigEnds(C(kk).pat, Cells(W(kk), F), t * F, C(kk).U * F, z) : x % F = 0 } }
           \ {t} \* (the whole signal is judged: b0 = 0 and the horizon as span)

Matches(kk, t, must) ==
  CASE C(kk).kind = "sig" -> SigMatches(kk, t, ~must)
    [] C(kk).kind = "tre" -> TREMatches(kk, t, must)
    [] C(kk).kind = "ta"  -> TAMatches(kk, t, must)
    [] C(kk).kind = "eps" -> { u \in EpsMatches(C(kk).pat, C(kk).U, C(kk).F, W(kk), t, must) : u <= t + C(kk).span }

\* ------------------------------------------------------- reported zones
Bnd(v, lo, loc, hi, hic) ==
  /\ IF loc = 1 THEN v >= lo ELSE v > lo
  /\ hi >= Inf \/ (IF hic = 1 THEN v <= hi ELSE v < hi)
InZone(z, t, u) ==
  /\ Bnd(1000 * t, z[2], z[3], z[4], z[5])
  /\ Bnd(1000 * u, z[6], z[7], z[8], z[9])
  /\ Bnd(1000 * (u - t), z[10], z[11], z[12], z[13])
ReportSet(kk, t) ==
  LET zs == SelectSeq(C(kk).log, LAMBDA z : z[1] = "zone" /\ Bnd(1000 * t, z[2], z[3], z[4], z[5]))
  IN  { u \in EndTicks(kk, t) : \E i \in 1..Len(zs) : InZone(zs[i], t, u) }

Wrong(kk, t)  == ReportSet(kk, t) \ Matches(kk, t, FALSE)
Missed(kk, t) == Matches(kk, t, TRUE) \ ReportSet(kk, t)

\* ------------------------------------------------------------ behaviour
Init == k \in 1..NC /\ begin = C(k).b0
Next == /\ begin < MinOf(C(k).b1, Horizon(k))
        /\ begin' = begin + 1
        /\ k' = k
Spec == Init /\ [][Next]_vars

Judge(kind, b) == IF b = {} THEN TRUE ELSE PrintT(<<"REJECT", kind, C(k).id, begin, b>>)
Sound    == Judge("sound", Wrong(k, begin))
Complete == Judge("complete", Missed(k, begin))
=============================================================================
