------------------------------- MODULE Greg2 -------------------------------
(***************************************************************************)
(* Days of the Julian period (counted from midnight: Julian day + 1/2) of  *)
(* Gregorian dates in the library's two reckonings.                        *)
(*  exact: the proleptic Gregorian calendar without any gap; the count of  *)
(*         1 January of year 1 is 1721424.                                 *)
(*  historical (Meeus): dates before 15 October 1582 are dates of the      *)
(*         Julian calendar, from then on of the Gregorian calendar, and    *)
(*         the ten dates between do not exist.                             *)
(* The same label (year, month, day) has a count in both; Hist maps the    *)
(* exact count of a label to its historical count.                         *)
(***************************************************************************)
EXTENDS Greg
JLeap(y) == y % 4 = 0
JYearStart(y) == 365 * (y - 1) + (y - 1) \div 4
JOrd(y, m, d) == JYearStart(y) + GBefore[m] + (IF m > 2 /\ JLeap(y) THEN 1 ELSE 0) + d
Exact(y, m, d) == GOrd(y, m, d) + 1721423
Before(y, m, d, q) == y < q[1] \/ (y = q[1] /\ (m < q[2] \/ (m = q[2] /\ d < q[3])))
InGap(y, m, d) == y = 1582 /\ m = 10 /\ d \in 5..14
HistOf(y, m, d) == IF Before(y, m, d, <<1582, 10, 15>>) THEN JOrd(y, m, d) + 1721423
                   ELSE GOrd(y, m, d) + 1721425
\* historical count of an exact count (label kept); only outside the gap
Hist(n) == LET g == GFrom(n - 1721423) IN HistOf(g[1], g[2], g[3])
\* the other rule for leap years (option alt): every fourth but not every 128th year
AltLeap(y) == y % 4 = 0 /\ y % 128 # 0
AltYearStart(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 128)
AltExact(y, m, d) == AltYearStart(y) + GBefore[m] + (IF m > 2 /\ AltLeap(y) THEN 1 ELSE 0) + d + 1721423
HasHist(n) == LET g == GFrom(n - 1721423) IN ~InGap(g[1], g[2], g[3])
============================================================================
