------------------------------ MODULE ZATrace ------------------------------
(***************************************************************************)
(* The zone automaton which the code built from a timed automaton against  *)
(* its region automaton, letter by letter: after every untimed word both   *)
(* must be in the same set of locations of the timed automaton, before and *)
(* after the removal of the dead states the same words are accepted, and   *)
(* the emptiness verdicts are right.                                       *)
(*                                                                         *)
(* case = [id, ta, cm, letters, depth, all, live, empty, emptyLive]        *)
(*   all, live = [loc, acc, init, edges] with edges <<source, letter,      *)
(*   target>>                                                              *)
(***************************************************************************)
EXTENDS RegionSem, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(kk) == Cases[kk]

VARIABLES k, w, R, Z, L   \* case, word, region configurations, zone states (all, live)
vars == <<k, w, R, Z, L>>

ZStep(za, S, c) == { e[3] : e \in { x \in Rng(za.edges) : x[1] \in S /\ x[2] = c } }
RECURSIVE ZEps(_, _, _)
ZEps(za, S, new) == LET more == ZStep(za, new, "eps") \ S
                    IN  IF more = {} THEN S ELSE ZEps(za, S \cup more, more)
ZClose(za, S) == ZEps(za, S, S)
RClose(kk, S) == REps(C(kk).ta, C(kk).cm, S, S)

Init == /\ k \in 1..Len(Cases)
        /\ w = <<>>
        /\ R = RClose(k, RStart(C(k).ta))
        /\ Z = ZClose(C(k).all, Rng(C(k).all.init))
        /\ L = ZClose(C(k).live, Rng(C(k).live.init))
Next == /\ Len(w) < C(k).depth
        /\ R # {} \/ Z # {}
        /\ \E i \in 1..Len(C(k).letters) :
             LET c == C(k).letters[i]
             IN  /\ w' = Append(w, c)
                 /\ R' = RClose(k, RStep(C(k).ta, C(k).cm, R, c))
                 /\ Z' = ZClose(C(k).all, ZStep(C(k).all, Z, c))
                 /\ L' = ZClose(C(k).live, ZStep(C(k).live, L, c))
                 /\ k' = k
Spec == Init /\ [][Next]_vars
\* what has been read does not matter beyond the sets reached
View == <<k, R, Z, L, Len(w)>>

ZLocs(za, S) == { za.loc[s] : s \in S }
RAcc == Locs(R) \cap Rng(C(k).ta.acc) # {}
Say(kind) == PrintT(<<"REJECT", kind, C(k).id, w>>)
SameLocations == IF ZLocs(C(k).all, Z) = Locs(R) THEN TRUE ELSE Say("locations")
SameLanguage  == IF (Z \cap Rng(C(k).all.acc) # {}) = RAcc THEN TRUE ELSE Say("accepts")
SameLive      == IF (L \cap Rng(C(k).live.acc) # {}) = RAcc THEN TRUE ELSE Say("accepts-live")

\* emptiness, by a fixpoint over all the regions
Letters(ta) == { ta.edges[i].c : i \in 1..Len(ta.edges) }
RECURSIVE Reach(_, _, _)
Reach(kk, S, new) ==
  LET more == UNION { RStep(C(kk).ta, C(kk).cm, new, c) : c \in Letters(C(kk).ta) } \ S
  IN  IF more = {} THEN S ELSE Reach(kk, S \cup more, more)
IsEmpty(kk) == Locs(Reach(kk, RStart(C(kk).ta), RStart(C(kk).ta))) \cap Rng(C(kk).ta.acc) = {}
RightVerdict == IF Len(w) > 0 THEN TRUE
                ELSE LET e == IsEmpty(k) IN
                     IF (C(k).empty = 1) = e /\ (C(k).emptyLive = 1) = e THEN TRUE ELSE Say("emptiness")
=============================================================================
