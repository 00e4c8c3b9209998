----------------------------- MODULE WordBuffer -----------------------------
(***************************************************************************)
(* The containers of timed words: a stream of `total` events seen through  *)
(* a window.                                                               *)
(*                                                                         *)
(* A state is [total, front, held, known]: the events front .. front+held-1*)
(* (numbered from 0) are held in memory, the events before have been       *)
(* dropped, the ones after have not been read; known says that the end of  *)
(* the stream has been seen.                                               *)
(*                                                                         *)
(* An operation is <<name, n>>; Result gives its answer and After the      *)
(* state it leads to.  The operations may come in any order; only          *)
(* moving the front beyond the end of the stream is ruled out.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Opened(kind, total) == IF kind = "vector" THEN [total |-> total, front |-> 0, held |-> total, known |-> TRUE]
                       ELSE [total |-> total, front |-> 0, held |-> 0, known |-> FALSE]

Max(a, b) == IF a > b THEN a ELSE b

\* an array in memory never drops anything
Allowed(kind, s, op) == op[1] = "front" => op[2] <= s.total

After(kind, s, op) ==
  CASE op[1] = "fetch" /\ op[2] >= s.front ->
         IF op[2] < s.total THEN [s EXCEPT !.held = Max(@, op[2] - s.front + 1)]
         ELSE [s EXCEPT !.held = s.total - s.front, !.known = TRUE]
    [] op[1] = "front" /\ op[2] >= s.front /\ kind # "vector" ->
         [s EXCEPT !.front = op[2], !.held = Max(0, s.front + s.held - op[2])]
    [] OTHER -> s

\* Yes/no for fetch; the number of the event for at, -1 for "out of range";
\* 0 for front, -1 for "out of range"; the length for size, -2 for "not known".
Result(kind, s, op) ==
  CASE op[1] = "fetch" -> IF s.front <= op[2] /\ op[2] < s.total THEN 1 ELSE 0
    [] op[1] = "at"    -> IF s.front <= op[2] /\ op[2] < s.front + s.held THEN op[2] ELSE -1
    [] op[1] = "front" -> IF op[2] >= s.front \/ kind = "vector" THEN 0 ELSE -1
    [] op[1] = "size"  -> IF s.known THEN s.total ELSE -2

\* how much of the stream may have been read
Read(s) == s.front + s.held
=============================================================================
