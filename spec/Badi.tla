------------------------------- MODULE Badi -------------------------------
(***************************************************************************)
(* The Badi' calendar as pure arithmetic over the list of year starts:     *)
(* months, days, ordinals, weekdays, week dates and the long form.         *)
(* Month 0 is Ayyam-i-Ha; it lies between month 18 and month 19.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BadiData

MINY == -1842
MAXY == 1161
MINORD == 78
MAXORD == 1097267

YS(y) == YSTab[y + 1844]                   \* -1843 <= y <= 1162
Leap(y) == YS(y + 1) - YS(y) = 366
AyyamDays(y) == IF Leap(y) THEN 5 ELSE 4
YearDays(y) == YS(y + 1) - YS(y)
MonthDays(y, m) == IF m = 0 THEN AyyamDays(y) ELSE 19
DaysBefore(y, m) == CASE m = 0  -> 342
                      [] m = 19 -> 342 + AyyamDays(y)
                      [] OTHER  -> (m - 1) * 19
InYears(y) == y >= MINY /\ y <= MAXY
ValidDate(y, m, d) == /\ InYears(y) /\ m >= 0 /\ m <= 19
                      /\ d >= 1 /\ d <= MonthDays(y, m)
ValidOrd(n) == n >= MINORD /\ n <= MAXORD

YDay(y, m, d) == DaysBefore(y, m) + d
Ord(y, m, d) == YS(y) + YDay(y, m, d) - 1

\* the year an ordinal falls in: a guess corrected by at most two
YearOf(n) ==
  LET g == 1 + ((n - 673220) * 100) \div 36524
      lo == IF g - 2 < MINY - 1 THEN MINY - 1 ELSE g - 2
      hi == IF g + 2 > MAXY THEN MAXY ELSE g + 2
  IN CHOOSE y \in lo..hi : YS(y) <= n /\ n < YS(y + 1)
FromYDay(y, k) ==                           \* k-th day of year y, k >= 1
  LET a == AyyamDays(y)
  IN CASE k <= 342     -> <<y, (k - 1) \div 19 + 1, ((k - 1) % 19) + 1>>
       [] k <= 342 + a -> <<y, 0, k - 342>>
       [] OTHER        -> <<y, 19, k - 342 - a>>
FromOrd(n) == LET y == YearOf(n) IN FromYDay(y, n - YS(y) + 1)

\* the next day and the order of days, by fields alone
NextDay(y, m, d) ==
  CASE d < MonthDays(y, m) -> <<y, m, d + 1>>
    [] m = 18 -> <<y, 0, 1>>
    [] m = 0  -> <<y, 19, 1>>
    [] m = 19 -> <<y + 1, 1, 1>>
    [] OTHER  -> <<y, m + 1, 1>>
MonthPos(m) == CASE m = 0 -> 37 [] m = 19 -> 38 [] OTHER -> 2 * m
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpDate(a, b) == IF a[1] # b[1] THEN Cmp(a[1], b[1])
                 ELSE IF a[2] # b[2] THEN Cmp(MonthPos(a[2]), MonthPos(b[2]))
                 ELSE Cmp(a[3], b[3])

\* weekdays: 0 Jalal .. 6 Istiqlal
WeekdayOrd(n) == (n + 1) % 7
IsoWd(n) == WeekdayOrd(n) + 1
\* week 1 holds at least four days of its year; weeks start on Jalal
Week1(y) == LET w == WeekdayOrd(YS(y))
            IN IF w <= 3 THEN YS(y) - w ELSE YS(y) - w + 7
IsoYear(n) == LET y == YearOf(n)
              IN IF n < Week1(y) THEN y - 1
                 ELSE IF y + 1 <= MAXY + 1 /\ n >= Week1(y + 1) THEN y + 1 ELSE y
Iso(n) == LET y == IsoYear(n) IN <<y, (n - Week1(y)) \div 7 + 1, IsoWd(n)>>
WeeksIn(y) == (Week1(y + 1) - Week1(y)) \div 7
FromIso(y, w, d) == Week1(y) + (w - 1) * 7 + d - 1

\* long form: 361-year Kull-i-Shay of nineteen 19-year Vahids
Kull(y) == (y - 1) \div 361 + 1
Vahid(y) == ((y - 1) % 361) \div 19 + 1
YearIn(y) == ((y - 1) % 19) + 1
Long(y) == <<Kull(y), Vahid(y), YearIn(y)>>
Short(k, v, r) == (k - 1) * 361 + (v - 1) * 19 + r
ValidLong(k, v, r) == k \in -6..5 /\ v \in 1..19 /\ r \in 1..19 /\ InYears(Short(k, v, r))
===========================================================================
