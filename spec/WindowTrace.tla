----------------------------- MODULE WindowTrace ----------------------------
(***************************************************************************)
(* How the matching functions use the word: recorded sequences of calls on *)
(* the word container and of reported zones.                               *)
(*                                                                         *)
(* Whatever the stream, every call is one the container (WordBuffer)       *)
(* answers: events are looked at only after they were fetched and before   *)
(* they are dropped, the front never moves back nor beyond the end.  The   *)
(* matching is online: once the search has come to the begin of a match    *)
(* (the front was moved there), the match is reported before any event is  *)
(* asked for which comes after the first one at or after its end.  For     *)
(* patterns without loops the window is bounded (case.bound; 0: no bound). *)
(*                                                                         *)
(* case = [id, w, bound, bare, log] with entries <<"fetch", n, answer>>,   *)
(* <<"get", n>>, <<"front", n>>, <<"zone", ...>> (see MatchTrace).  bare:  *)
(* there are matches without any event, which are not judged as online.    *)
(***************************************************************************)
EXTENDS WordBuffer, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(k) == Cases[k]
VARIABLES k, i, s,
  asked   \* the last event asked for since the front was moved
vars == <<k, i, s, asked>>
E == C(k).log[i]
T(n) == IF n < 0 THEN 0 ELSE C(k).w[n + 1].t

Op == <<IF E[1] = "get" THEN "at" ELSE E[1], E[2]>>
IsOp == E[1] # "zone"

Init == /\ k \in 1..Len(Cases)
        /\ i = 1
        /\ s = Opened("lazy", Len(C(k).w))
        /\ asked = 0 - 1
Next == /\ i <= Len(C(k).log)
        /\ s' = IF IsOp /\ Allowed("lazy", s, Op) THEN After("lazy", s, Op) ELSE s
        /\ asked' = CASE E[1] = "front" -> 0 - 1
                       [] E[1] = "fetch" -> IF E[3] = 1 /\ E[2] > asked THEN E[2] ELSE asked
                       [] OTHER -> asked
        /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

Expect(b, kind) == IF b THEN TRUE ELSE PrintT(<<"REJECT", kind, C(k).id, i, E>>)
InWindow ==
  IF i > Len(C(k).log) \/ ~IsOp THEN TRUE
  ELSE CASE E[1] = "get"   -> Expect(Result("lazy", s, Op) >= 0, "looks outside the window")
         [] E[1] = "front" -> Expect(Allowed("lazy", s, Op) /\ Result("lazy", s, Op) = 0, "moves the front wrongly")
         [] E[1] = "fetch" -> Expect(E[2] >= s.front, "asks for a dropped event")
Online ==
  IF i > Len(C(k).log) \/ IsOp \/ C(k).bare = 1 THEN TRUE
  ELSE Expect(asked < 1 \/ 1000 * T(asked - 1) < E[8], "reported late")
Bounded ==
  IF C(k).bound = 0 THEN TRUE
  ELSE IF s.held <= C(k).bound THEN TRUE ELSE PrintT(<<"REJECT", "window grows", C(k).id, i, s.held>>)
=============================================================================
