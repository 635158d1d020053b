------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* The calendar as a clock that moves one day at a time.  Every counter is *)
(* advanced by its own local rule (never recomputed from the others); the  *)
(* invariants say that the closed forms of Badi.tla and the counters agree *)
(* on every day.  CONSTANT Starts: years whose first day is a start state; *)
(* each run of the clock ends Span years later.                            *)
(***************************************************************************)
EXTENDS Badi
CONSTANTS Starts, Span
VARIABLES y, m, d, ord, wd, yday, wy, wk, long, y0
vars == <<y, m, d, ord, wd, yday, wy, wk, long, y0>>

Init == /\ y0 \in Starts /\ y = y0 /\ m = 1 /\ d = 1
        /\ ord = YS(y0) /\ wd = WeekdayOrd(YS(y0)) /\ yday = 1
        /\ LET i == Iso(YS(y0)) IN wy = i[1] /\ wk = i[2]
        /\ long = Long(y0)

\* odometer of the long form
NextLong(l) == IF l[3] < 19 THEN <<l[1], l[2], l[3] + 1>>
               ELSE IF l[2] < 19 THEN <<l[1], l[2] + 1, 1>>
               ELSE <<l[1] + 1, 1, 1>>
\* a new week starts on Jalal; it is week 1 when Naw-Ruz is one of its first
\* four days, or was one of the last three days of the week before
WeekStep ==
  IF wd # 6 THEN wy' = wy /\ wk' = wk
  ELSE LET toNext == YS(y' + 1) - ord'          \* days from tomorrow to the next new year
           since  == ord' - YS(y')              \* days since the last one
       IN IF since <= 3 \/ toNext <= 3
          THEN wy' = (IF since <= 3 THEN y' ELSE y' + 1) /\ wk' = 1
          ELSE wy' = wy /\ wk' = wk + 1

SameMonth == /\ d < MonthDays(y, m)
             /\ d' = d + 1 /\ UNCHANGED <<y, m, long>> /\ yday' = yday + 1
MonthEnd  == /\ d = MonthDays(y, m) /\ m \notin {0, 18, 19}
             /\ m' = m + 1 /\ d' = 1 /\ UNCHANGED <<y, long>> /\ yday' = yday + 1
ToAyyam   == /\ d = 19 /\ m = 18
             /\ m' = 0 /\ d' = 1 /\ UNCHANGED <<y, long>> /\ yday' = yday + 1
ToFast    == /\ m = 0 /\ d = AyyamDays(y)
             /\ m' = 19 /\ d' = 1 /\ UNCHANGED <<y, long>> /\ yday' = yday + 1
NewYear   == /\ m = 19 /\ d = 19 /\ y < MAXY
             /\ y' = y + 1 /\ m' = 1 /\ d' = 1 /\ yday' = 1 /\ long' = NextLong(long)
Day == SameMonth \/ MonthEnd \/ ToAyyam \/ ToFast \/ NewYear
Next == /\ y < y0 + Span
        /\ Day
        /\ ord' = ord + 1 /\ wd' = (wd + 1) % 7
        /\ WeekStep
        /\ UNCHANGED y0
Spec == Init /\ [][Next]_vars

TypeOK == ValidDate(y, m, d)
OrdInv == Ord(y, m, d) = ord /\ FromOrd(ord) = <<y, m, d>>
WeekdayInv == WeekdayOrd(ord) = wd
YDayInv == YDay(y, m, d) = yday /\ yday <= YearDays(y)
IsoInv == Iso(ord) = <<wy, wk, wd + 1>> /\ FromIso(wy, wk, wd + 1) = ord
          /\ wk \in 1..WeeksIn(wy) /\ WeeksIn(wy) \in {52, 53}
LongInv == Long(y) = long /\ Short(long[1], long[2], long[3]) = y /\ ValidLong(long[1], long[2], long[3])
LeapInv == YearDays(y) \in {365, 366}
StepInv == NextDay(y, m, d) = (IF y = MAXY /\ m = 19 /\ d = 19 THEN <<y + 1, 1, 1>> ELSE FromOrd(ord + 1))
OrderInv == (y = MAXY /\ m = 19 /\ d = 19) \/ CmpDate(<<y, m, d>>, NextDay(y, m, d)) = -1
Ends == (ord = MINORD <=> <<y, m, d>> = <<MINY, 1, 1>>) /\ (ord = MAXORD <=> <<y, m, d>> = <<MAXY, 19, 19>>)
=============================================================================
