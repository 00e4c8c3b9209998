-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The programs monaa and tre2ta as their users see them: from the options *)
(* to the exit status and the kind of output.                              *)
(*                                                                         *)
(* An invocation is processed in phases: options, early exits, conflicts,  *)
(* pattern, word, matching.  Faults of the same phase or of different      *)
(* phases may both be present; the program may stop at any of them, but at *)
(* one of them it must stop, with the status of that fault, a message on   *)
(* the error stream and nothing on the output.                             *)
(*                                                                         *)
(* One behaviour per invocation: the phases run until the end, and the     *)
(* outcomes are printed for the replay on the programs.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

MaxOdd == atoi(IOEnv.MAXODD)   \* how many options differ from the plain call

VARIABLES inv, phase, status, out
vars == <<inv, phase, status, out>>

Monaa == [ prog    : {"monaa"},
           early   : {"none", "help", "version", "both"},
           quiet   : BOOLEAN,
           format  : {"none", "a", "b", "ab"},
           mode    : {"none", "E", "S", "ES"},
           source  : {"positional", "expression", "automaton", "both", "none"},
           pattern : {"event", "signal", "unmatched", "malformed", "scanner", "empty", "missing"},
           word    : {"stdin", "input", "positional", "missing", "nowhere", "void"},
           unknown : BOOLEAN ]
\* one letter options cannot be told apart from their long form in what they do
PlainMonaa == [ prog |-> "monaa", early |-> "none", quiet |-> FALSE, format |-> "none", mode |-> "none",
                source |-> "positional", pattern |-> "event", word |-> "stdin", unknown |-> FALSE ]
Tre2ta == [ prog    : {"tre2ta"},
            early   : {"none", "help", "version", "both"},
            source  : {"positional", "expression", "none"},
            pattern : {"event", "signal", "malformed", "scanner"},
            output  : {"stdout", "file", "stale", "unwritable"},   \* stale: a longer file of that name exists
            unknown : BOOLEAN ]
PlainTre2ta == [ prog |-> "tre2ta", early |-> "none", source |-> "positional", pattern |-> "event",
                 output |-> "stdout", unknown |-> FALSE ]

Odd(i, plain) == Cardinality({ f \in DOMAIN plain : i[f] # plain[f] })
\* a missing file can only be a file; a scanner error only an expression's
Sensible(i) ==
  /\ i.prog = "monaa" /\ i.source \in {"positional", "expression"} => i.pattern # "missing"
  /\ i.source = "none" => i.pattern = "event"
  /\ i.prog = "monaa" /\ i.source \in {"automaton", "both"} => i.pattern \notin {"scanner", "signal"}
  /\ i.prog = "monaa" /\ i.source = "none" => i.word \notin {"positional", "nowhere"}  \* it would be the pattern

\* ------------------------------------------------------------------ faults
NoPattern(i) == i.source = "none"
OptionFault(i)   == i.unknown
ConflictFault(i) == /\ i.prog = "monaa"
                    /\ \/ i.format = "ab" \/ i.mode = "ES" \/ i.source = "both"
                       \/ i.source = "automaton" /\ i.mode \in {"S", "ES"}
PatternFile(i)   == i.prog = "monaa" /\ i.source \in {"automaton", "both"}
FileFault(i)     == PatternFile(i) /\ i.pattern = "missing"
ParseFault(i)    == i.pattern \in {"malformed", "scanner"}
WordFault(i)     == i.prog = "monaa" /\ i.word \in {"missing", "nowhere"}
EmptyFault(i)    == i.prog = "monaa" /\ i.pattern = "empty"
WriteFault(i)    == i.prog = "tre2ta" /\ i.output = "unwritable"
\* the status of every fault an invocation has
Faults(i) == (IF ConflictFault(i) \/ FileFault(i) \/ WordFault(i) \/ WriteFault(i) THEN {1} ELSE {})
             \cup (IF ParseFault(i) THEN {2} ELSE {})
             \cup (IF EmptyFault(i) THEN {10} ELSE {})

\* does the pattern match the word of the test in the mode chosen?
Matches(i) == /\ i.word # "void"
              /\ \/ i.pattern = "event" /\ i.mode \in {"none", "E"}
                 \/ i.pattern = "signal" /\ i.mode = "S"

\* --------------------------------------------------------------- transitions
Init == /\ \/ inv \in Monaa /\ Sensible(inv) /\ Odd(inv, PlainMonaa) <= MaxOdd
           \/ inv \in Tre2ta /\ Sensible(inv) /\ Odd(inv, PlainTre2ta) <= MaxOdd
        /\ phase = "options" /\ status = 99 /\ out = "nothing"

Stop(s, o) == phase' = "end" /\ status' = s /\ out' = o /\ inv' = inv
Go(p) == phase' = p /\ UNCHANGED <<inv, status, out>>

Options == /\ phase = "options"
           /\ IF OptionFault(inv) THEN Stop(1, "nothing") ELSE Go("early")
Early == /\ phase = "early"
         /\ CASE inv.early \in {"version", "both"} -> Stop(0, "version")
              [] inv.early \notin {"version", "both"} /\ (inv.early = "help" \/ NoPattern(inv)) -> Stop(0, "help")
              [] OTHER -> Go("work")
Work == /\ phase = "work"
        /\ IF Faults(inv) # {} THEN \E s \in Faults(inv) : Stop(s, "nothing")
           ELSE IF inv.prog = "tre2ta"
                THEN Stop(0, IF inv.output = "stdout" THEN "automaton" ELSE "file")
                ELSE Stop(0, IF Matches(inv) /\ ~inv.quiet THEN "zones" ELSE "nothing")
Next == /\ Options \/ Early \/ Work
        /\ IF phase' = "end" THEN PrintT("OUTCOME" \o ToJson([inv |-> inv, status |-> status', out |-> out'])) ELSE TRUE
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
Ends == <>(phase = "end")
\* nothing is written to the output unless all went well
CleanFailure == phase = "end" /\ status # 0 => out = "nothing"
\* success is never claimed for a call with a fault that was carried out
NoFalseSuccess == phase = "end" /\ status = 0 /\ out \in {"zones", "automaton", "file"} =>
                    Faults(inv) = {} /\ ~OptionFault(inv)
Documented == phase = "end" => status \in {0, 1, 2, 10}
=============================================================================
