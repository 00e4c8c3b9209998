------------------------------ MODULE TREText ------------------------------
(***************************************************************************)
(* Concrete syntax of timed regular expressions.                           *)
(*                                                                         *)
(*   text     : a sequence of one-character strings; a newline ends it     *)
(*   expr     : unit | unit expr | unit "|" expr | unit "&" expr           *)
(*   unit     : letter | "(" expr ")" | unit "+" | unit "*" | unit "%" ival*)
(*   ival     : "(" n "," n ")" and the other three bracketings            *)
(*            | "<" n | "<=" n | "=" n | ">=" n | ">" n | "(" ival ")"     *)
(*                                                                         *)
(* The postfix operators bind tightest; concatenation, "|" and "&" have    *)
(* the same precedence and group to the right.  Results are the records of *)
(* TRESem.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Atoms == Lower \cup Upper \cup {"$"}
Single == {"|", "&", "*", "+", "%", "(", ")", "[", "]", ",", "="}

RECURSIVE Number(_, _, _)
Number(s, i, v) == IF i <= Len(s) /\ IsDigit(s[i]) THEN Number(s, i + 1, 10 * v + DigitVal(s[i])) ELSE <<v, i>>

\* Tokens: <<"atom", c>>, <<"int", n>>, <<symbol>>, <<"bad">>.
RECURSIVE Lex(_, _)
Lex(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == s[i] IN
       CASE c = "nl" -> <<>>
         [] c = " " -> Lex(s, i + 1)
         [] c \in Atoms -> <<<<"atom", c>>>> \o Lex(s, i + 1)
         [] IsDigit(c) -> LET n == Number(s, i, 0) IN <<<<"int", n[1]>>>> \o Lex(s, n[2])
         [] c \in {"<", ">"} -> IF i < Len(s) /\ s[i + 1] = "="
                                THEN <<<<c \o "=">>>> \o Lex(s, i + 2)
                                ELSE <<<<c>>>> \o Lex(s, i + 1)
         [] c \in Single -> <<<<c>>>> \o Lex(s, i + 1)
         [] OTHER -> <<<<"bad">>>>

At(t, i) == IF i <= Len(t) THEN t[i][1] ELSE "end"
Fail == [ok |-> FALSE, i |-> 0, e |-> <<>>]

IvRec(lo, loc, hi, hic, i) == [ok |-> TRUE, i |-> i, e |-> <<lo, loc, hi, hic>>]
RECURSIVE PIval(_, _)
PIval(t, i) ==
  LET n(k) == t[k][2] IN
  CASE At(t, i) = "<"  /\ At(t, i + 1) = "int" -> IvRec(0, 1, n(i + 1), 0, i + 2)
    [] At(t, i) = "<=" /\ At(t, i + 1) = "int" -> IvRec(0, 1, n(i + 1), 1, i + 2)
    [] At(t, i) = "="  /\ At(t, i + 1) = "int" -> IvRec(n(i + 1), 1, n(i + 1), 1, i + 2)
    [] At(t, i) = ">=" /\ At(t, i + 1) = "int" -> IvRec(n(i + 1), 1, -1, 0, i + 2)
    [] At(t, i) = ">"  /\ At(t, i + 1) = "int" -> IvRec(n(i + 1), 0, -1, 0, i + 2)
    [] At(t, i) \in {"(", "["} /\ At(t, i + 1) = "int" ->
         IF At(t, i + 2) = "," /\ At(t, i + 3) = "int" /\ At(t, i + 4) \in {")", "]"}
         THEN IvRec(n(i + 1), IF At(t, i) = "[" THEN 1 ELSE 0, n(i + 3), IF At(t, i + 4) = "]" THEN 1 ELSE 0, i + 5)
         ELSE Fail
    [] At(t, i) = "(" /\ At(t, i + 1) # "int" ->
         LET v == PIval(t, i + 1) IN
         IF v.ok /\ At(t, v.i) = ")" THEN [v EXCEPT !.i = v.i + 1] ELSE Fail
    [] OTHER -> Fail

Plus(e) == [op |-> "plus", a |-> e]
RECURSIVE PExpr(_, _)
RECURSIVE Postfix(_, _, _)
Postfix(t, i, e) ==
  CASE At(t, i) = "+" -> Postfix(t, i + 1, Plus(e))
    [] At(t, i) = "*" -> Postfix(t, i + 1, [op |-> "or", a |-> [op |-> "eps"], b |-> Plus(e)])
    [] At(t, i) = "%" -> LET v == PIval(t, i + 1) IN
         IF v.ok THEN Postfix(t, v.i, [op |-> "in", a |-> e, lo |-> v.e[1], loc |-> v.e[2], hi |-> v.e[3], hic |-> v.e[4]])
         ELSE Fail
    [] OTHER -> [ok |-> TRUE, i |-> i, e |-> e]
PUnit(t, i) ==
  CASE At(t, i) = "atom" -> Postfix(t, i + 1, [op |-> "atom", c |-> t[i][2]])
    [] At(t, i) = "(" -> LET r == PExpr(t, i + 1) IN
         IF r.ok /\ At(t, r.i) = ")" THEN Postfix(t, r.i + 1, r.e) ELSE Fail
    [] OTHER -> Fail
PExpr(t, i) ==
  LET u == PUnit(t, i)
      with(op, j) == LET r == PExpr(t, j) IN
                     IF r.ok THEN [ok |-> TRUE, i |-> r.i, e |-> [op |-> op, a |-> u.e, b |-> r.e]] ELSE Fail
  IN  IF ~u.ok THEN Fail
      ELSE CASE At(t, u.i) \in {"atom", "("} -> with("cat", u.i)
             [] At(t, u.i) = "|" -> with("or", u.i + 1)
             [] At(t, u.i) = "&" -> with("and", u.i + 1)
             [] OTHER -> u

ParseText(s) == LET t == Lex(s, 1)
                    r == PExpr(t, 1)
                IN  IF r.ok /\ r.i = Len(t) + 1 THEN r ELSE Fail
=============================================================================
