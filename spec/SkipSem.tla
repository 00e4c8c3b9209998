------------------------------ MODULE SkipSem ------------------------------
(***************************************************************************)
(* Which skips of the matching functions are safe, over all timed words.   *)
(*                                                                         *)
(* The tables of the code (case.m, .delta, .end, .beta) are judged against *)
(* the runs of the pattern on its clock regions:                           *)
(*                                                                         *)
(*  what = "one": all matches.  None has fewer than m letters; a letter    *)
(*    which occurs at position i < m of a match is never skipped by more   *)
(*    than m - i, and the m-th letter of a match is an end letter.         *)
(*  what = "two": a run which has come to a location s, and a match which  *)
(*    begins n events after the run began.  Then the skip value of s is at *)
(*    most n: otherwise the match would be jumped over.                    *)
(*                                                                         *)
(* Both parts are explored to the end: the timed words are not bounded.    *)
(*                                                                         *)
(* case = [id, ta, mode, cm, letters, m, delta, end, beta]; the letter "#" *)
(* stands for all the letters which the pattern does not know.             *)
(***************************************************************************)
EXTENDS RegionSem, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(k) == Cases[k]
TA(k) == C(k).ta
NC(k) == TA(k).nc

VARIABLES k, what,
          n,      \* two: the distance between the two beginnings
          q1, run1,        \* two: the first run and whether it still goes on
          wait,   \* two: events until the second one may begin
          q2,     \* location of the match (0: not begun)
          some,   \* the match has read an event
          done,   \* the match has ended
          mid,    \* time has passed since the last event
          close,  \* the letter the next event must have ("": any)
          p,      \* region of the clocks of both
          len,    \* one: letters read, up to m
          mem     \* one: a letter <<c, i>> of the match (<<>>: none chosen)
vars == <<k, what, n, q1, run1, wait, q2, some, done, mid, close, p, len, mem>>

\* clocks 1..nc belong to the first run, nc+1..2nc to the match
N(kk) == 2 * NC(kk)
Shift(kk, g) == [i \in 1..Len(g) |-> <<g[i][1] + NC(kk), g[i][2], g[i][3]>>]
First(kk) == 1..NC(kk)
Second(kk) == NC(kk) + 1..N(kk)
With(kk, reg, S, v) == Canon(N(kk), C(kk).cm, [x \in 1..N(kk) |-> IF x \in S THEN v ELSE reg[x]])
Off(kk) == Top(N(kk), C(kk).cm)
After(kk, reg) == Later(N(kk), C(kk).cm, reg)
Delays == IF mid THEN Elapse(N(k), C(k).cm, {p}, {p}) ELSE After(k, p)

Edges(kk) == Rng(TA(kk).edges)
Final(kk, s) == s \in Rng(TA(kk).acc)

Init ==
  /\ k \in 1..Len(Cases)
  /\ what \in {"one", "two"}
  /\ mid = FALSE /\ close = "" /\ some = FALSE /\ done = FALSE /\ len = 0 /\ mem = <<>>
  /\ IF what = "one"
     THEN /\ n = 0 /\ q1 = 0 /\ run1 = FALSE /\ wait = 0
          /\ q2 \in Rng(TA(k).init)
          /\ p = [x \in 1..N(k) |-> IF x \in First(k) THEN Off(k) ELSE 0]
     ELSE /\ n \in 1..C(k).m /\ wait = n /\ q2 = 0
          /\ q1 \in Rng(TA(k).init) /\ run1 = TRUE
          /\ p = [x \in 1..N(k) |-> IF x \in First(k) THEN 0 ELSE Off(k)]

\* what the first run does at an event: new <<location, goes on, region>>
FirstMoves(c, reg) ==
  IF ~run1 THEN {<<q1, FALSE, reg>>}
  ELSE {<<q1, FALSE, With(k, reg, First(k), Off(k))>>} \cup
       { <<e.t, TRUE, With(k, reg, Rng(e.r), 0)>> :
           e \in { x \in Edges(k) : x.s = q1 /\ x.c = c /\ RGuard(N(k), x.g, reg) } }
\* what the match does: new <<location, waiting, event read, ended, region>>
SecondMoves(c, reg) ==
  IF done THEN {<<q2, 0, some, TRUE, reg>>}
  ELSE IF wait > 0
  THEN {<<0, wait - 1, FALSE, FALSE, reg>>} \cup
       (IF wait > 1 THEN {}            \* it begins exactly at this event
        ELSE { <<s, 0, FALSE, FALSE, With(k, reg, Second(k), 0)>> : s \in Rng(TA(k).init) })
  ELSE IF q2 = 0 THEN {}
  ELSE LET es == { x \in Edges(k) : x.s = q2 /\ x.c = c /\ RGuard(N(k), Shift(k, x.g), reg) }
           R(e) == With(k, reg, { y + NC(k) : y \in Rng(e.r) }, 0)
       IN  { <<e.t, 0, TRUE, FALSE, R(e)>> : e \in es } \cup
           \* with an optional terminator the match may end with this event
           (IF C(k).mode = "usual" THEN { <<e.t, 0, TRUE, TRUE, R(e)>> : e \in { x \in es : Final(k, x.t) } } ELSE {})

Letters == Rng(C(k).letters) \cup {"#"}
Event ==
  \E c \in (IF close = "" THEN Letters ELSE {close}) : \E reg \in Delays :
    \E b \in SecondMoves(c, reg) : \E a \in FirstMoves(c, b[5]) :
      /\ what = "one" => ~done
      /\ q1' = a[1] /\ run1' = a[2] /\ p' = (IF b[4] THEN With(k, a[3], Second(k), Off(k)) ELSE a[3])
      /\ q2' = (IF b[4] THEN 0 ELSE b[1]) /\ wait' = b[2] /\ some' = b[3] /\ done' = b[4]
      /\ mid' = FALSE /\ close' = ""
      /\ IF what = "one" /\ len < C(k).m
         THEN len' = len + 1 /\ mem' \in (IF mem = <<>> THEN {<<>>, <<c, len>>} ELSE {mem})
         ELSE len' = len /\ mem' = mem
      /\ UNCHANGED <<k, what, n>>
\* the match begins between two events
Begin ==
  /\ what = "two" /\ wait = 0 /\ q2 = 0 /\ ~done
  /\ \E reg \in After(k, p) : \E s \in Rng(TA(k).init) :
       q2' = s /\ p' = With(k, reg, Second(k), 0)
  /\ mid' = FALSE
  /\ UNCHANGED <<k, what, n, q1, run1, wait, some, done, close, len, mem>>
\* the match ends between two events, or at the next one
End ==
  /\ q2 # 0 /\ ~done
  /\ \E reg \in After(k, p) :
       \E e \in { x \in Edges(k) : x.s = q2 /\ Final(k, x.t) /\ RGuard(N(k), Shift(k, x.g), reg) } :
         /\ IF C(k).mode = "signal"
            THEN /\ close' = e.c
                 /\ IF what = "one" /\ len < C(k).m
                    THEN len' = len + 1 /\ mem' \in (IF mem = <<>> THEN {<<>>, <<e.c, len>>} ELSE {mem})
                    ELSE len' = len /\ mem' = mem
            ELSE e.c = "$" /\ some /\ close' = "" /\ len' = len /\ mem' = mem
         /\ p' = With(k, reg, Second(k), Off(k))
  /\ done' = TRUE /\ mid' = TRUE /\ q2' = 0
  /\ UNCHANGED <<k, what, n, q1, run1, wait, some>>
Next == Event \/ Begin \/ End
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- properties
Say(kind, x) == PrintT(<<"REJECT", kind, C(k).id, x>>)
Expect(b, kind, x) == IF b THEN TRUE ELSE Say(kind, x)
Delta(c) == IF c \in DOMAIN C(k).delta THEN C(k).delta[c] ELSE C(k).m + 1

ShortestMatch == (what = "one" /\ done) => Expect(len >= C(k).m, "shortest", len)
EndLetters    == (what = "one" /\ done /\ mem # <<>>) =>
                   (mem[2] = C(k).m - 1 => Expect(mem[1] \in Rng(C(k).end), "end letter", mem))
LetterSkips   == (what = "one" /\ done /\ mem # <<>>) => Expect(Delta(mem[1]) <= C(k).m - mem[2], "letter skip", mem)
RunSkips      == (what = "two" /\ done) => Expect(C(k).beta[q1] <= n, "run skip", <<q1, n>>)
\* every skip makes progress, and none is longer than a shortest match and one event
Progress == (what = "one" /\ len = 0) =>
              /\ \A c \in DOMAIN C(k).delta : Expect(1 <= C(k).delta[c] /\ C(k).delta[c] <= C(k).m + 1, "letter skip range", c)
              /\ \A s \in DOMAIN C(k).beta : Expect(1 <= C(k).beta[s] /\ C(k).beta[s] <= C(k).m, "run skip range", s)
=============================================================================
