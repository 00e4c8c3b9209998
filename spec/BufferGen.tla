------------------------------ MODULE BufferGen -----------------------------
(***************************************************************************)
(* Every transition of the word container (WordBuffer), each with a        *)
(* history that leads to it, printed for the replay on the code.           *)
(***************************************************************************)
EXTENDS WordBuffer, TLC, IOUtils

MaxTotal == atoi(IOEnv.MAXTOTAL)
Ops(s) == { <<o, n>> : o \in {"fetch", "at", "front"}, n \in 0..s.total + 2 } \cup {<<"size", 0>>}

VARIABLES kind, s, hist
Init == /\ kind \in {"lazy", "vector"}
        /\ \E t \in 0..MaxTotal : s = Opened(kind, t)
        /\ hist = <<>>
Next == \E op \in Ops(s) :
          /\ Allowed(kind, s, op)
          /\ s' = After(kind, s, op)
          /\ hist' = Append(hist, op)
          /\ PrintT(<<"HISTORY", kind, s.total, hist'>>)
          /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, s, hist>>
View == <<kind, s>>
\* The container never holds what is not in the stream.
Sane == s.held >= 0 /\ Read(s) <= s.total
\* What has been dropped or read never comes back.
Monotone == [][s'.front >= s.front /\ Read(s') >= Read(s) /\ (s.known => s'.known)]_<<kind, s, hist>>
=============================================================================
