-------------------------------- MODULE Greg --------------------------------
(* The proleptic Gregorian calendar as arithmetic on ordinals; ordinal 1 is *)
(* 1 January of the year 1. The same ordinals count Badi' days (Badi.tla):  *)
(* a Badi' day carries the ordinal of the civil day on whose evening it     *)
(* begins.                                                                  *)
EXTENDS Integers, Sequences
GLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
GMonthDays(y, m) == CASE m = 2 -> (IF GLeap(y) THEN 29 ELSE 28)
                      [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
GBefore == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
GYearStart(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
GValid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= GMonthDays(y, m)
GOrd(y, m, d) == GYearStart(y) + GBefore[m] + (IF m > 2 /\ GLeap(y) THEN 1 ELSE 0) + d
GYearOf(n) == LET g == (n * 10) \div 3652 + 1
              IN CHOOSE y \in (g - 6)..(g + 6) : GYearStart(y) < n /\ n <= GYearStart(y + 1)
GFrom(n) == LET y == GYearOf(n) k == n - GYearStart(y)
                m == CHOOSE m \in 1..12 : GOrd(y, m, 1) <= n /\ n <= GOrd(y, m, GMonthDays(y, m))
            IN <<y, m, n - GOrd(y, m, 1) + 1>>
=============================================================================
