------------------------------ MODULE NewYears ------------------------------
(***************************************************************************)
(* The rule of the new year: the year starts on the day (sunset to sunset  *)
(* in Tehran) in which the vernal equinox falls.  The clock moves one year *)
(* at a time; the table of year starts must follow the rule.               *)
(***************************************************************************)
EXTENDS Badi, Greg
CONSTANT Tolerance             \* minutes between equinox and sunset left open
VARIABLES y, start
Eq(yy) == EqTab[yy + 261]      \* <<civil day, equinox minute, sunset minute>>
\* the ordinal of a Badi' day is that of the civil day on whose evening it begins
ByRule(yy) == IF Eq(yy)[2] >= Eq(yy)[3] THEN Eq(yy)[1] ELSE Eq(yy)[1] - 1
Dist(yy) == LET a == Eq(yy)[2] - Eq(yy)[3] IN IF a < 0 THEN -a ELSE a
Close(yy) == Dist(yy) < Tolerance
Allowed(yy) == IF Close(yy) THEN {Eq(yy)[1], Eq(yy)[1] - 1} ELSE {ByRule(yy)}

Init == y = MINY /\ start = YS(MINY)
Next == /\ y <= MAXY
        /\ y' = y + 1
        /\ start' \in {start + 365, start + 366}
        /\ start' = YS(y + 1)
Spec == Init /\ [][Next]_<<y, start>>
Complete == (ENABLED Next) \/ y = MAXY + 1      \* no year of another length
Rule == (y >= -260 /\ y <= MAXY) => start \in Allowed(y)
Published == y \in 172..221 => start = UhjTab[y - 171]
InMarch == y >= -260 => LET g == GFrom(start) IN g[1] = y + 1843 /\ g[2] = 3 /\ g[3] \in 18..21
=============================================================================
