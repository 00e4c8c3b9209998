------------------------------ MODULE DotText ------------------------------
(***************************************************************************)
(* The file format of timed automata: the part of the DOT language which   *)
(* MONAA reads and writes.                                                 *)
(*                                                                         *)
(*   graph : "digraph" [name] "{" stmt* "}"                                *)
(*   stmt  : node [attrs] [";"] | node "->" node [attrs] [";"]             *)
(*   attrs : "[" (name "=" value [","|";"])* "]"                           *)
(*   value : word, number, or quoted string                                *)
(* node attributes init, match (0 or 1); edge attributes label (one        *)
(* character), guard "{x0 < 1, x1 >= 2}", reset "{0, 1}"; others are       *)
(* ignored.  Clocks and states are numbered from 1 in the result.          *)
(***************************************************************************)
EXTENDS TREText, FiniteSets, SequencesExt

IsWordChar(c) == c \in Lower \cup Upper \cup {"_", ".", "-"} \/ IsDigit(c)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ IsWordChar(s[i]) /\ ~(s[i] = "-" /\ i < Len(s) /\ s[i + 1] = ">")
                 THEN WordEnd(s, i + 1) ELSE i
RECURSIVE QuoteEnd(_, _)
QuoteEnd(s, i) == IF s[i] = "\"" THEN i ELSE QuoteEnd(s, i + 1)

\* tokens: <<kind, sequence of characters>>, kind "w" (word or string) or "p"
RECURSIVE DLex(_, _, _)
DLex(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE CASE s[i] \in {" ", "nl"} -> DLex(s, i + 1, acc)
         [] s[i] = "\"" -> LET e == QuoteEnd(s, i + 1)
                           IN DLex(s, e + 1, Append(acc, <<"w", SubSeq(s, i + 1, e - 1)>>))
         [] s[i] = "-" /\ i < Len(s) /\ s[i + 1] = ">" -> DLex(s, i + 2, Append(acc, <<"p", <<"->">>>>))
         [] IsWordChar(s[i]) -> LET e == WordEnd(s, i)
                                IN DLex(s, e, Append(acc, <<"w", SubSeq(s, i, e - 1)>>))
         [] OTHER -> DLex(s, i + 1, Append(acc, <<"p", <<s[i]>>>>))

IsP(t, i, c) == i <= Len(t) /\ t[i] = <<"p", <<c>>>>
\* attributes as a set of <<name, value>>; result <<set, next position>>
RECURSIVE DAttrs(_, _, _)
DAttrs(t, i, acc) ==
  IF IsP(t, i, "]") THEN <<acc, i + 1>>
  ELSE IF IsP(t, i, ",") \/ IsP(t, i, ";") THEN DAttrs(t, i + 1, acc)
  ELSE DAttrs(t, i + 3, acc \cup {<<t[i][2], t[i + 2][2]>>})
OptAttrs(t, i) == IF IsP(t, i, "[") THEN DAttrs(t, i + 1, {}) ELSE <<{}, i>>

\* statements: <<"node", name, attrs>> and <<"edge", from, to, attrs>>
RECURSIVE DStmts(_, _, _)
DStmts(t, i, acc) ==
  IF IsP(t, i, "}") THEN acc
  ELSE IF IsP(t, i, ";") THEN DStmts(t, i + 1, acc)
  ELSE IF IsP(t, i + 1, "->")
       THEN LET a == OptAttrs(t, i + 3) IN DStmts(t, a[2], Append(acc, <<"edge", t[i][2], t[i + 2][2], a[1]>>))
       ELSE LET a == OptAttrs(t, i + 1) IN DStmts(t, a[2], Append(acc, <<"node", t[i][2], a[1]>>))
DBody(t) == DStmts(t, IF IsP(t, 2, "{") THEN 3 ELSE 4, <<>>)

Attr(a, name) == { x[2] : x \in { y \in a : y[1] = name } }
Num(cs) == Number(cs, 1, 0)[1]
\* "{x0 < 1, x1 >= 2}"
RECURSIVE DGuard(_, _)
DGuard(t, i) ==     \* t: tokens of the string
  IF i > Len(t) THEN <<>>
  ELSE LET x  == Num(Tail(t[i][2])) + 1
           eq == IsP(t, i + 2, "=")
           op == t[i + 1][2][1] \o (IF eq THEN "=" ELSE "")
           j  == IF eq THEN i + 3 ELSE i + 2
       IN  <<<<x, op, Num(t[j][2])>>>> \o DGuard(t, j + 2)
RECURSIVE DReset(_, _)
DReset(t, i) == IF i > Len(t) THEN <<>> ELSE <<Num(t[i][2]) + 1>> \o DReset(t, i + 2)
GuardOf(a) == IF Attr(a, <<"g","u","a","r","d">>) = {} THEN <<>>
              ELSE DGuard(DLex(CHOOSE v \in Attr(a, <<"g","u","a","r","d">>) : TRUE, 1, <<>>), 2)
ResetOf(a) == IF Attr(a, <<"r","e","s","e","t">>) = {} THEN <<>>
              ELSE DReset(DLex(CHOOSE v \in Attr(a, <<"r","e","s","e","t">>) : TRUE, 1, <<>>), 2)
LabelOf(a) == (CHOOSE v \in Attr(a, <<"l","a","b","e","l">>) : TRUE)[1]

Max0(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
ParseDot(s) ==
  LET b     == DBody(DLex(s, 1, <<>>))
      decl  == SelectSeq(b, LAMBDA x : x[1] = "node")
      eds   == SelectSeq(b, LAMBDA x : x[1] = "edge")
      names == SetToSeq({ decl[i][2] : i \in 1..Len(decl) } \cup { eds[i][2] : i \in 1..Len(eds) } \cup { eds[i][3] : i \in 1..Len(eds) })
      num(x) == CHOOSE i \in 1..Len(names) : names[i] = x
      having(at) == SetToSeq({ num(decl[i][2]) : i \in { j \in 1..Len(decl) : Attr(decl[j][3], at) = {<<"1">>} } })
      edges == [i \in 1..Len(eds) |-> [s |-> num(eds[i][2]), t |-> num(eds[i][3]), c |-> LabelOf(eds[i][4]),
                                       g |-> GuardOf(eds[i][4]), r |-> ResetOf(eds[i][4])]]
      clocks == UNION { { edges[i].g[j][1] : j \in 1..Len(edges[i].g) } \cup { edges[i].r[j] : j \in 1..Len(edges[i].r) } : i \in 1..Len(edges) }
  IN  [n |-> Len(names), init |-> having(<<"i","n","i","t">>), acc |-> having(<<"m","a","t","c","h">>),
       nc |-> Max0(clocks), edges |-> edges]
=============================================================================
