---------------------------- MODULE ConfOptions ----------------------------
(***************************************************************************)
(* What the options and the forms of one conversion must have in common    *)
(* (C31). Only the first row of each record is free; it is the answer in   *)
(* the short form with all fields. Every other row is a function of it.    *)
(* Which moment that first row must be is decided in ConfSun (C12, C25).   *)
(***************************************************************************)
EXTENDS ConfSun

\* rows of different lengths, one after the other, each behind its length
RECURSIVE Rows(_, _)
Rows(r, i) == IF i > Len(r) THEN <<>>
              ELSE LET n == IF r[i] \in 0..20 THEN r[i] ELSE 0
                   IN <<Sub(r, i + 1, i + n)>> \o Rows(r, i + 1 + n)
Bit(k, n) == (k \div n) % 2 = 1
\* x = y m d h mi s us, as asked for with the options short, us, trim;
\* without us the last field counts the microseconds of the second and its fraction
DayF(x, short) == IF short THEN Sub(x, 1, 3) ELSE Long(x[1]) \o Sub(x, 2, 3)
TimeF(x, us, trim) ==
  LET t == Sub(x, 4, 5) \o (IF us THEN Sub(x, 6, 7) ELSE <<x[6] * 1000000 + x[7]>>)
  IN IF trim THEN Trim(t) ELSE t
Form(x, short, us, trim) == DayF(x, short) \o TimeF(x, us, trim)
\* the day and its elapsed fraction, in millionths
Micro(x) == x[3] * 1000000 + (Secs(x[4], x[5], x[6]) * 10000) \div 864 + x[7] \div 86400
NearNum(p, q, tol) == Mod(p, 500000000) /\ Abs(p - q) <= tol
\* the nearest day, and at noon either
Nearest(x) ==
  LET s == Secs(x[4], x[5], x[6]) this == Sub(x, 1, 3) nxt == FromOrd(Ord(x[1], x[2], x[3]) + 1)
  IN (IF s <= 43200 THEN {this} ELSE {}) \cup (IF s >= 43199 THEN {nxt} ELSE {})
\* what the option rtd may add to the date: nothing or empty fields
OnlyDate(row, short, days) ==
  \E d \in days : LET w == IF short THEN d ELSE Long(d[1]) \o Sub(d, 2, 3)
                  IN Len(row) >= Len(w) /\ Sub(row, 1, Len(w)) = w
                     /\ \A i \in (Len(w) + 1)..Len(row) : row[i] = 0
Full(row) == Len(row) = 7 /\ DateOk(row)
\* two dates that name the same moment to within tol; next to a sunset the day may differ
SameMoment(x, z, tol) ==
  LET s == Secs(x[4], x[5], x[6]) IN
  \/ Sub(x, 1, 3) = Sub(z, 1, 3) /\ NearM(HmsM(From(x, 4)), HmsM(From(z, 4)), tol)
  \/ (s < 2 \/ s > 85800) /\ Mod(Ord(x[1], x[2], x[3]) - Ord(z[1], z[2], z[3]), 2)
PLACE == 2000000       \* the place that is meant when none is given, to two seconds

\* a = n sec us lat lon zone mode
\* rows: 1 base, 2 with the place in full, 3..10 options of badi_date_from_jd,
\* 11..14 rtd, 15 16 fraction, 17 refused, 18..25 kvymdhms_from_b_date, 26 27 the other way,
\* 28..35 short and long with and without trim,
\* 36..46 from the Gregorian date: base, options, rounded; 47..57 the same from the timestamp,
\* 58.. kvymdhms_from_b_date of a day with a fraction
VOptsFrom(e) ==
  LET R == Rows(e.r, 1) x == R[1] IN
  Ret(e, IF Len(R) # 65 THEN {"number of answers"} ELSE
    IF ~Full(x) THEN {"fields of the date"}
    ELSE C(Full(R[2]) /\ SameMoment(x, R[2], PLACE), "no place means the place of the calendar")
    \cup C(\A k \in 0..7 : R[3 + k] = Form(x, Bit(k, 1), Bit(k, 2), Bit(k, 4) \/ ~Bit(k, 2)), "form and precision of the same date")
    \cup C(\A k \in 0..3 : OnlyDate(R[11 + k], Bit(k, 1), Nearest(x)), "rounded to the nearest day")
    \cup C(\A k \in 0..1 : Len(R[15 + k]) = 3 /\ Sub(R[15 + k], 1, 2) = Sub(x, 1, 2)
                           /\ NearNum(R[15 + k][3], Micro(x), 2), "day with its fraction")
    \cup C(R[17] = <<1, 1, 1, 1>>, "one way of giving the fraction at a time")
    \cup C(\A k \in 0..7 : R[18 + k] = Form(x, Bit(k, 1), Bit(k, 2), Bit(k, 4)), "form and precision of the same date")
    \cup C(\A k \in 0..1 : LET w == DayF(x, k = 1) n == Len(w) row == R[26 + k] IN
               Len(row) = n /\ Sub(row, 1, n - 1) = Sub(w, 1, n - 1) /\ NearNum(row[n], Micro(x), 2), "day with its fraction")
    \cup C(\A k \in 0..7 : R[28 + k] = Form(x, Bit(k, 1), Bit(k, 2), Bit(k, 4)), "form and precision of the same date")
    \cup C(\A b \in {36, 47} : Full(R[b]) /\ SameMoment(x, R[b], TEN), "same moment from any reckoning")
    \cup C(\A b \in {36, 47} : Full(R[b]) /\ \A k \in 0..7 :
              R[b + 1 + k] = Form(R[b], Bit(k, 1), Bit(k, 2), Bit(k, 4) \/ ~Bit(k, 2)), "form and precision of the same date")
    \cup C(\A b \in {36, 47} : Full(R[b]) /\ \A k \in 0..1 : OnlyDate(R[b + 9 + k], k = 1, Nearest(R[b])), "rounded to the nearest day")
    \* the millionth part of a day is a little less than a tenth of a second
    \cup C(\A k \in 0..7 : LET us == Bit(k, 2) w == DayF(x, Bit(k, 1)) n == Len(w) row == R[58 + k]
               t == From(row, n + 1)
               full == t \o [i \in 1..((IF us THEN 4 ELSE 3) - Len(t)) |-> 0]
               m == IF us THEN HmsM(full) ELSE IF Len(full) = 3 /\ \A i \in 1..3 : Mod(full[i], 61000000)
                      THEN <<0, Secs(full[1], full[2], full[3] \div 1000000), full[3] % 1000000>> ELSE <<BADINT, 0, 0>>
               IN /\ Len(t) <= (IF us THEN 4 ELSE 3) /\ (Bit(k, 4) => Trim(t) = t) /\ (Bit(k, 4) \/ Len(t) = (IF us THEN 4 ELSE 3))
                  /\ \/ Sub(row, 1, n) = w /\ NearM(m, HmsM(From(x, 4)), 5000)
                     \/ Secs(x[4], x[5], x[6]) = 86399 /\ x[7] > 990000, "fields of a day with a fraction"))

\* a = y m d sec us lat lon zone mode
\* rows, instants: 1 the fields, 2 with the place in full, 3 seconds with a fraction, 4 minutes, 5 hours, 6 days,
\* 7 empty fields left off, 8 with fields that are None (if the time is zero), 9 the start of the day
\* 10 timestamp; 11 12 Gregorian date and time (hms, us); 13 clock time of sunset;
\* 14 15 16 start of the year: instant, day with fraction, hms; 17 18 19 the same of Ridvan
\* 20 21 midday: fraction, hms in the short form; 22 23 in the long form; 24 25 length of the day, and hms
Greg(row) == IF Len(row) = 7 /\ Mod(row[1], 10000) /\ row[2] \in 1..12 /\ row[3] \in 1..31 /\ InHms(From(row, 4), 23)
             THEN Shift(HmsM(From(row, 4)), Exact(row[1], row[2], row[3])) ELSE <<BADINT, 0, 0>>
GregDay(row) == IF Len(row) = 5 /\ Mod(row[1], 10000) /\ row[2] \in 1..12 /\ row[3] \in 1..31
                THEN Shift(<<0, row[4], row[5]>>, Exact(row[1], row[2], row[3])) ELSE <<BADINT, 0, 0>>
Zoned(p, z) == IF SaneM(p) THEN Norm(p[1], p[2] + 900 * z, p[3]) ELSE <<BADINT, 0, 0>>
VOptsTo(e) ==
  LET R == Rows(e.r, 1) p == R[1] z == IF e.a[9] = 0 THEN e.a[8] ELSE 14
      near(k, q, tol) == NearM(R[k], q, tol)
      st == R[9] clk == R[13]
  IN Ret(e, IF Len(R) # 25 THEN {"number of answers"} ELSE
    IF ~SaneM(p) \/ ~SaneM(st) THEN {"shape of the instant"}
    ELSE C(near(2, p, PLACE), "no place means the place of the calendar")
    \cup C(\A k \in 3..5 : near(k, p, TEN), "fraction of a field")
    \cup C(near(6, p, 50000), "fraction of the day")
    \cup C(near(7, p, 0) /\ near(8, IF e.a[4] = 0 /\ e.a[5] = 0 THEN p ELSE st, 0), "fields left off are zero")
    \cup C(NearM(p, Plus(st, <<0, e.a[4], e.a[5]>>), TEN), "time of day counts from the start of the day")
    \cup C(near(10, p, TEN), "timestamp of the same moment")
    \cup C(NearM(Greg(R[11]), Zoned(p, z), TEN) /\ NearM(Greg(R[12]), Greg(R[11]), 2), "Gregorian date of the same moment")
    \cup C(InHms(clk, 23) /\ (\E k \in -1..1 : NearM(Shift(HmsM(clk), k), <<0, Zoned(st, z)[2], Zoned(st, z)[3]>>, TEN)), "clock time of the sunset")
    \cup C(\A k \in {14, 17} : SaneM(R[k]) /\ NearM(GregDay(R[k + 1]), Zoned(R[k], z), TEN)
                               /\ NearM(Greg(R[k + 2]), Zoned(R[k], z), TEN), "start of the year and of Ridvan")
    \cup C(\A k \in {20, 22} : NearM(R[k], HmsM(R[k + 1]), TEN), "middle of the day")
    \cup C(near(22, R[20], 0), "middle of the day")
    \cup C(NearMissing(Ord(e.a[1], e.a[2], e.a[3])) \/ NearM(R[24], HmsM(R[25]), TEN), "length of the day"))
============================================================================
