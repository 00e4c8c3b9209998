----------------------------- MODULE ZoneForm ------------------------------
(***************************************************************************)
(* The form of the reported zones: each one holds a pair, and only pairs   *)
(* of a begin which is not negative and an end after the begin; where a    *)
(* match may have no duration (weak), of an end not before the begin.      *)
(*                                                                         *)
(* case = [id, U, weak, log, top]; the bounds of the zones are multiples of      *)
(* three ticks (in thousandths of ticks), so a zone which holds any pair   *)
(* holds one of ticks; top is a tick above all finite bounds.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
C(kk) == Cases[kk]
Inf == 2000000000
VARIABLES k, i     \* case, zone
vars == <<k, i>>

Bnd(v, lo, loc, hi, hic) ==
  /\ lo <= -Inf \/ (IF loc = 1 THEN v >= lo ELSE v > lo)
  /\ hi >= Inf \/ (IF hic = 1 THEN v <= hi ELSE v < hi)
InZone(z, t, u) ==
  /\ Bnd(1000 * t, z[2], z[3], z[4], z[5])
  /\ Bnd(1000 * u, z[6], z[7], z[8], z[9])
  /\ Bnd(1000 * (u - t), z[10], z[11], z[12], z[13])
Z == C(k).log[i]
Bounds == { Z[j] : j \in {2, 4, 6, 8, 10, 12} }

Init == k \in 1..Len(Cases) /\ i = 1 /\ Len(C(k).log) > 0
Next == i < Len(C(k).log) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

\* the ticks where anything can change
Say(kind) == PrintT(<<"REJECT", kind, C(k).id, Z>>)
IsTime   == IF \A b \in Bounds : b >= Inf \/ b <= -Inf \/ (b # 1999999999 /\ b % 3000 = 0) THEN TRUE ELSE Say("bound")
NotEmpty == IF \E t \in 0..C(k).top : \E u \in (t + 1 - C(k).weak)..(C(k).top + 3) : InZone(Z, t, u) THEN TRUE ELSE Say("empty")
Ordered  == IF \A t \in (0 - 4)..(C(k).top + 3) : \A u \in (0 - 4)..(C(k).top + 3) :
                  InZone(Z, t, u) => 0 <= t /\ t < u + C(k).weak THEN TRUE ELSE Say("order")
=============================================================================
