----------------------------- MODULE GregClock -----------------------------
(***************************************************************************)
(* The Gregorian calendar as a clock that moves one day at a time by local *)
(* rules, carrying both Julian day counts (exact and historical). The      *)
(* closed forms of Greg and Greg2 must agree with the counters every day,  *)
(* and the two reckonings must stay one-to-one on the days they share.     *)
(* CONSTANTS: a run starts on 1 January of each year in Starts and takes   *)
(* Span years.                                                             *)
(***************************************************************************)
EXTENDS Greg2
CONSTANTS Starts, Span
VARIABLES y, m, d, n, h, yday, y0
vars == <<y, m, d, n, h, yday, y0>>
StartsAll == {1 + 20 * k : k \in 0..150}
SpanAll == 20
StartsSome == {1, 96, 196, 396, 496, 1496, 1576, 1696, 1896, 1996, 2396, 3000}
SpanSome == 8

Init == /\ y0 \in Starts /\ y = y0 /\ m = 1 /\ d = 1 /\ yday = 1
        /\ n = Exact(y0, 1, 1) /\ h = HistOf(y0, 1, 1)
Labels == \/ /\ d < GMonthDays(y, m)
             /\ d' = d + 1 /\ yday' = yday + 1 /\ UNCHANGED <<m, y>>
          \/ /\ d = GMonthDays(y, m) /\ m < 12
             /\ d' = 1 /\ m' = m + 1 /\ yday' = yday + 1 /\ UNCHANGED y
          \/ /\ d = 31 /\ m = 12
             /\ d' = 1 /\ m' = 1 /\ y' = y + 1 /\ yday' = 1
\* the historical count: one more day in February of the Julian-only leap
\* years; the ten dropped dates of October 1582 have no count of their own
HStep == CASE m = 2 /\ d = 28 /\ JLeap(y) /\ ~GLeap(y) /\ y <= 1582 -> 2
           [] InGap(y', m', d') -> 0
           [] OTHER -> 1
Next == /\ y < y0 + Span /\ Labels /\ n' = n + 1 /\ h' = h + HStep /\ UNCHANGED y0
Spec == Init /\ [][Next]_vars

Closed == GFrom(n - 1721423) = <<y, m, d>> /\ Exact(y, m, d) = n /\ GValid(y, m, d)
Historical == InGap(y, m, d) \/ HistOf(y, m, d) = h
Steps == InGap(y, m, d) \/ (h - n >= 0 /\ h - n <= 12)
Years == yday <= (IF GLeap(y) THEN 366 ELSE 365)
\* the year by the other rule
AltYears == /\ AltYearStart(y + 1) - AltYearStart(y) = (IF AltLeap(y) THEN 366 ELSE 365)
            /\ (AltExact(y, m, d) < AltExact(y + 1, 1, 1) \/ (m = 12 /\ d > 31))
            /\ (m = 12 /\ d = 31 => AltExact(y, m, d) + 1 = AltExact(y + 1, 1, 1))
\* Julian day 2451544.5 is 1 January 2000 in the historical reckoning
Reference == HistOf(2000, 1, 1) = 2451545 /\ HistOf(1582, 10, 15) = 2299161
             /\ HistOf(1582, 10, 4) = 2299160 /\ Exact(1, 1, 1) = 1721424
============================================================================
