------------------------------ MODULE Saving ------------------------------
(***************************************************************************)
(* A zone with daylight saving: its standard offset z.st, from local time  *)
(* z.m1 (standard) of day z.n1 on z.sv more, until local time z.m2         *)
(* (saving) of day z.n2.  Offsets and times of day in minutes.             *)
(* What a clock shows at an instant is a local time and a fold: fold 1 is  *)
(* the second time a local time is shown.  The rule Saves decides from     *)
(* these alone; for a local time that is never shown, fold 0 stands for    *)
(* the offset before and fold 1 for the offset after the change.           *)
(***************************************************************************)
EXTENDS Integers
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* seconds of day n, second s from the beginning of day n1; far away is far enough
Rel(z, n, s) == Max2(-400, Min2(400, n - z.n1)) * 86400 + s
Switch(wall, change, fold) == wall + 60 * (IF fold = 0 THEN Max2(change, 0) ELSE Min2(change, 0))
Saves(z, n, s, fold) ==
  LET w == Rel(z, n, s) IN
  /\ w >= Switch(z.m1 * 60, z.sv, fold)
  /\ w < Switch((z.n2 - z.n1) * 86400 + z.m2 * 60, -z.sv, fold)
\* the other way: local standard time (day n, second s) of an instant
AtInstant(z, n, s) ==
  LET w == Rel(z, n, s) IN w >= z.m1 * 60 /\ w + 60 * z.sv < (z.n2 - z.n1) * 86400 + z.m2 * 60
OffsetAt(z, n, s, fold) == 60 * (z.st + (IF Saves(z, n, s, fold) THEN z.sv ELSE 0))
=============================================================================
