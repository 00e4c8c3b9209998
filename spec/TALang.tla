------------------------------ MODULE TALang -------------------------------
(***************************************************************************)
(* The language of the automaton which the code built from an expression   *)
(* (event semantics), from a pair of automata (product), or read from a    *)
(* file, against the language which the construction must have.            *)
(*                                                                         *)
(* A behaviour grows a timed word letter by letter; the configurations of  *)
(* the automaton under test and the ones of the reference automata are     *)
(* kept as state, so every word up to Depth letters over the letters and   *)
(* gaps of the case is judged (gaps in ticks, U ticks per time unit).      *)
(*                                                                         *)
(* case = [id, kind, U, letters, gaps, depth, ta, ...]                     *)
(*   kind "tre":  pat an expression            L(ta) = [[pat]]             *)
(*   kind "sig":  pat an expression over signals, F fine ticks per tick    *)
(*                L(ta) = the signals of pat (SigSem), up to letters of    *)
(*                zero length; judged on words whose neighbours differ     *)
(*   kind "text": chars the text of an expression; rejected = 1 if the     *)
(*                code refused it          L(ta) = [[parse of the text]]   *)
(*   kind "and":  a, b automata                L(ta) = L(a) \cap L(b)      *)
(*   kind "same": a an automaton               L(ta) = L(a)                *)
(*   kind "dot":  chars the text of an automaton file  L(ta) = the         *)
(*                language of the automaton which the text describes       *)
(*   kind "member": verdicts of the membership test of the code for every  *)
(*                word, in breadth-first order: verdict = (word \in L(ta))  *)
(* Unobservable steps happen at multiples of one tick.                     *)
(***************************************************************************)
EXTENDS TASem, TRESem, SigSem, TREText, DotText, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, w, P, A, B,  \* case, word, configurations (test, references)
          n,              \* breadth-first number of the word
          ref             \* the automaton to compare with
vars == <<k, w, P, A, B, n, ref>>

C(kk) == Cases[kk]
Parsed == [kk \in 1..Len(Cases) |-> IF C(kk).kind = "text" THEN ParseText(C(kk).chars) ELSE Fail]
Reference(kk) == CASE C(kk).kind = "dot" -> ParseDot(C(kk).chars)
                   [] C(kk).kind \in {"and", "same"} -> C(kk).a
                   [] OTHER -> <<>>
HasEps(ta) == \E i \in 1..Len(ta.edges) : ta.edges[i].c = "eps"

\* all configurations reachable by unobservable steps at time t, in any order
RECURSIVE EpsAt(_, _, _, _)
EpsAt(ta, U, confs, t) ==
  LET more == confs \cup StepBy(ta, U, confs, "eps", t)
  IN  IF more = confs THEN confs ELSE EpsAt(ta, U, more, t)
RECURSIVE EpsFrom(_, _, _, _, _)
EpsFrom(ta, U, confs, t, u) ==       \* ... at any of the ticks t..u
  IF t > u THEN confs ELSE EpsFrom(ta, U, EpsAt(ta, U, confs, t), t + 1, u)

Move(ta, U, confs, c, now, then) ==
  IF confs = {} THEN {}
  ELSE StepBy(ta, U, IF HasEps(ta) THEN EpsFrom(ta, U, confs, now, then) ELSE confs, c, then)

\* acceptance at the end of the word: unobservable steps may follow at once
\* (now) but time may not pass
Acc(ta, U, confs, now) == Accepts(ta, IF HasEps(ta) THEN EpsAt(ta, U, confs, now) ELSE confs)

Now(ww) == Tau(ww, Len(ww))
None == {}

Init == /\ k \in 1..Len(Cases)
        /\ w = <<>>
        /\ n = 1
        /\ ref = Reference(k)
        /\ P = IF C(k).kind = "text" /\ C(k).rejected = 1 THEN {} ELSE Start(C(k).ta, 0)
        /\ A = IF C(k).kind \in {"and", "same", "dot"} THEN Start(ref, 0) ELSE None
        /\ B = IF C(k).kind = "and" THEN Start(C(k).b, 0) ELSE None

Read(c, g) ==
  LET now == Now(w)  then == now + g  U == C(k).U
  IN  /\ w' = Append(w, [c |-> c, t |-> then])
      /\ P' = Move(C(k).ta, U, P, c, now, then)
      /\ A' = IF A = None THEN None ELSE Move(ref, U, A, c, now, then)
      /\ B' = IF B = None THEN None ELSE Move(C(k).b, U, B, c, now, then)
      /\ UNCHANGED <<k, ref>>

\* A word none of whose automata can read on is not extended.
Alive == \/ C(k).kind \in {"tre", "sig", "member"}
         \/ C(k).kind = "text" /\ C(k).rejected = 0 /\ Parsed[k].ok
         \/ C(k).kind \in {"same", "dot", "and"} /\ P # None
         \/ C(k).kind \in {"same", "dot"} /\ A # None
         \/ C(k).kind = "and" /\ A # None /\ B # None

Next == /\ Len(w) < C(k).depth
        /\ Alive
        /\ \E i \in 1..Len(C(k).letters), j \in 1..Len(C(k).gaps) :
             /\ C(k).kind = "sig" /\ w # <<>> => w[Len(w)].c # C(k).letters[i]
             /\ LET m == Len(C(k).letters) * Len(C(k).gaps)
                IN  /\ Read(C(k).letters[i], C(k).gaps[j])
                    /\ n' = m * (n - 1) + 1 + (i - 1) * Len(C(k).gaps) + j
Spec == Init /\ [][Next]_vars

Expected ==
  CASE C(k).kind = "tre"  -> InTRE(C(k).pat, C(k).U, w, 0)
    [] C(k).kind = "text" -> InTRE(Parsed[k].e, C(k).U, w, 0)
    [] C(k).kind = "and"  -> Acc(C(k).a, C(k).U, A, Now(w)) /\ Acc(C(k).b, C(k).U, B, Now(w))
    [] C(k).kind \in {"same", "dot"} -> Acc(ref, C(k).U, A, Now(w))
    [] C(k).kind = "member" -> C(k).verdicts[n] = 1
Actual == Acc(C(k).ta, C(k).U, P, Now(w))

Syntax == IF C(k).kind = "text" /\ w = <<>> /\ (C(k).rejected = 1) = Parsed[k].ok
          THEN PrintT(<<"REJECT", IF Parsed[k].ok THEN "refused" ELSE "taken", C(k).id, k>>) ELSE TRUE
Contradictory(g) == \E h, l \in Rng(g) : h[1] = l[1] /\ h[2] \in {"<", "<="} /\ l[2] \in {">", ">="} /\ h[3] < l[3]
\* Every clock is declared, with a constant not below the ones it is compared to.
Maxima == IF w # <<>> \/ C(k).kind = "member" THEN TRUE
          ELSE LET ta == C(k).ta
                   G  == UNION { Rng(ta.edges[i].g) : i \in { j \in 1..Len(ta.edges) : ~Contradictory(ta.edges[j].g) } }
               IN  IF \A g \in G : g[1] <= Len(ta.max) /\ g[3] <= ta.max[g[1]] THEN TRUE
                   ELSE PrintT(<<"REJECT", "maxima", C(k).id, k>>)
\* Letters of zero length may be asked for (zero) but need not be accepted.
InSig(zero) == Now(w) * C(k).F \in SigEnds(C(k).pat, Cells(w, C(k).F), 0, C(k).U * C(k).F, zero)
SameSignals == IF w = <<>> THEN TRUE
               ELSE IF Actual THEN IF InSig(TRUE) THEN TRUE ELSE PrintT(<<"REJECT", "extra", C(k).id, w>>)
               ELSE IF InSig(FALSE) THEN PrintT(<<"REJECT", "missing", C(k).id, w>>) ELSE TRUE
SameLanguage == IF C(k).kind = "sig" THEN SameSignals
                ELSE IF C(k).kind = "text" /\ (C(k).rejected = 1 \/ ~Parsed[k].ok) THEN TRUE
                ELSE IF Actual = Expected THEN TRUE
                ELSE PrintT(<<"REJECT", IF Actual THEN "extra" ELSE "missing", C(k).id, w>>)
=============================================================================
