----------------------------- MODULE BufferTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the word containers against WordBuffer: every     *)
(* answer is the one of the specification, events come back as they are in *)
(* the stream, no more of the stream is read than asked for, and no more   *)
(* events are kept than have been read and not dropped.                    *)
(*                                                                         *)
(* case = [id, kind, w, steps]; w is the word in the stream, a step is     *)
(* <<name, n, answer, letter, ticks, records read, events held>> (-1 for   *)
(* what was not observed).                                                 *)
(***************************************************************************)
EXTENDS WordBuffer, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(k) == Cases[k]
VARIABLES k, i, s
vars == <<k, i, s>>
Step == C(k).steps[i]
Op == <<Step[1], Step[2]>>

Init == /\ k \in 1..Len(Cases)
        /\ i = 1
        /\ s = Opened(C(k).kind, Len(C(k).w))
Next == /\ i <= Len(C(k).steps)
        /\ Allowed(C(k).kind, s, Op)
        /\ s' = After(C(k).kind, s, Op)
        /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

Say(kind) == PrintT(<<"REJECT", kind, C(k).id, i, Op>>)
Expect(b, kind) == IF b THEN TRUE ELSE Say(kind)
Answers ==
  IF i > Len(C(k).steps) THEN TRUE
  ELSE /\ Expect(Step[3] = Result(C(k).kind, s, Op), "answer")
       /\ IF Step[1] = "at" /\ Step[3] >= 0 /\ Result(C(k).kind, s, Op) >= 0
          THEN Expect(C(k).w[Op[2] + 1] = [c |-> Step[4], t |-> Step[5]], "event")
          ELSE TRUE
       /\ LET r == After(C(k).kind, s, Op)
          IN  /\ Expect(Step[6] <= Read(r), "reads ahead")
              /\ Expect(Step[7] <= r.held, "keeps too much")
=============================================================================
