----------------------------- MODULE ConfDates -----------------------------
(***************************************************************************)
(* What recorded calls on dates must have returned (C01 - C07).  An event  *)
(* has fields op, a (integers), s (texts): the call; ok: 1 returned, 0     *)
(* raised; ex: class of the error; r (integers), t (texts): the outcome.   *)
(* Each operator gives the set of clauses the event violates.              *)
(***************************************************************************)
EXTENDS Badi, BadiText, Greg, TLC

\* a clause: name if the condition fails
C(cond, name) == IF cond THEN {} ELSE {name}
\* the call must return, then the clauses given must hold
Ret(e, cl) == IF e.ok = 1 THEN cl ELSE {"raises"}
\* the call must be refused with an error
Refuse(e, name) == C(e.ok = 0, name)
RefuseBy(e, exs, name) == C(e.ok = 0 /\ e.ex \in exs, name)
B(b) == IF b THEN 1 ELSE 0
\* parts of what was observed; an observation of another shape matches nothing
BADINT == -2000000001
Sub(r, i, j) == IF j <= Len(r) THEN SubSeq(r, i, j) ELSE <<>>
RA(e, i) == IF i >= 1 /\ i <= Len(e.r) THEN e.r[i] ELSE BADINT
TA(e, i) == IF i <= Len(e.t) THEN e.t[i] ELSE "{none}"


Fields(form, y, m, d) == IF form = 0 THEN <<1, y, m, d>> ELSE <<0>> \o Long(y) \o <<m, d>>
DF(form, t) == Fields(form, t[1], t[2], t[3])

OffByOneYears == {-1796, -1792, -1788}
\* days whose evening lies in the ten days dropped at the Gregorian reform
ReformGap(n) == n >= 577725 /\ n <= 577734

(************************** C01 C02 **************************)
VFromOrd(e) ==
  LET n == e.a[1] IN
  IF ~ValidOrd(n) THEN Refuse(e, "ordinal out of range accepted")
  ELSE Ret(e, C(e.r = DF(e.a[2], FromOrd(n)), "date of ordinal"))
VToOrd(e) == Ret(e, C(e.r = <<Ord(e.a[3], e.a[4], e.a[5])>>, "ordinal of date"))
VYear(e) ==
  LET y == e.a[1] IN
  Ret(e, C(RA(e, 1) = YS(y), "new year")
      \cup C(RA(e, 2) = YS(y + 1) - 1, "last day")
      \cup C(RA(e, 3) = YS(y) + 341, "day before Ayyam-i-Ha")
      \cup C(RA(e, 4) = YS(y + 1) - 19, "first day of the month of fasting")
      \cup C(RA(e, 5) = B(Leap(y)), "fifth day of Ayyam-i-Ha")
      \cup C(y < 172 \/ y > 221 \/ RA(e, 1) = UhjTab[y - 171], "published new year"))

VFestivals(e) ==
  LET n == YS(e.a[1]) IN
  Ret(e, C(Sub(e.r, 1, 3) = GFrom(n), "Gregorian date of the new year")
      \cup C(Sub(e.r, 4, 6) = GFrom(n + 31), "Gregorian date of Ridvan"))

(************************** C03 **************************)
From(s, k) == SubSeq(s, k, Len(s))
Zero4(t) == t \o SubSeq(<<0, 0, 0, 0>>, Len(t) + 1, 4)
RECURSIVE Trim(_)
Trim(t) == IF Len(t) = 0 THEN t ELSE IF t[Len(t)] = 0 THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
VS2L(e, trim) ==
  LET tm == From(e.a, 4)
      want == Long(e.a[1]) \o <<e.a[2], e.a[3]>> \o (IF trim THEN Trim(tm) ELSE tm)
      got == e.r
  IN Ret(e, C(Sub(got, 1, 5) = SubSeq(want, 1, 5), "long form of short form")
       \cup C(Trim(From(got, 6)) = Trim(From(want, 6)), "time carried over"))
VL2S(e, trim) ==
  LET tm == From(e.a, 6)
      got == e.r
  IN Ret(e, C(Sub(got, 1, 3) = <<Short(e.a[1], e.a[2], e.a[3]), e.a[4], e.a[5]>>, "short form of long form")
       \cup C(Trim(From(got, 4)) = Trim(tm), "time carried over"))
VLAcc(e) ==
  LET y == Short(e.a[1], e.a[2], e.a[3]) m == e.a[4] d == e.a[5]
      o == Ord(y, m, d) i == Iso(o) w == WeekdayOrd(o)
  IN Ret(e, C(Sub(e.r, 1, 6) = e.a \o <<0>> /\ Sub(e.r, 14, 19) = e.a \o <<0>>, "accessors of the long form")
       \cup C(RA(e, 7) = o /\ RA(e, 20) = o, "ordinal of the long form")
       \cup C(RA(e, 8) = w /\ RA(e, 9) = w + 1 /\ RA(e, 21) = w, "weekday of the long form")
       \cup C(Sub(e.r, 10, 12) = i, "ISO week of the long form")
       \cup C(RA(e, 13) = YDay(y, m, d) /\ RA(e, 22) = YDay(y, m, d), "day of year of the long form"))

(************************** C04 C05 **************************)
VWeek(e) ==
  LET y == e.a[3] m == e.a[4] d == e.a[5]
      w == WeekdayOrd(Ord(y, m, d)) k == YDay(y, m, d)
  IN Ret(e, C(RA(e, 1) = w /\ RA(e, 2) = w + 1, "weekday")
       \cup C(RA(e, 3) = w /\ RA(e, 4) = k, "time tuple weekday and day of year")
       \cup C(RA(e, 5) = k /\ RA(e, 6) = w + 1, "formatted day of year and weekday")
       \cup C(TA(e, 1) = DayName[w + 1] /\ TA(e, 2) = DayAbv[w + 1], "weekday name")
       \cup C(TA(e, 3) = DayName[w + 1] \o " " \o MonthName[m + 1] \o " " \o Spc(d, 2) \o " 00:00:00 " \o Year4(y), "ctime"))
VIso(e) ==
  LET i == Iso(Ord(e.a[3], e.a[4], e.a[5])) IN
  Ret(e, C(Sub(e.r, 1, 6) = i \o i, "ISO week of date")
      \cup C(RA(e, 7) = i[1] /\ RA(e, 8) = i[2], "formatted ISO week"))
\* years whose Naw-Ruz is on the third or fourth weekday: week 52 is taken for 53
Week52Years(y) == WeekdayOrd(YS(y)) \in {2, 3}
VFromIso(e) ==
  LET y == e.a[1] w == e.a[2] d == e.a[3] n == FromIso(y, w, d) IN
  IF w < 1 \/ w > WeeksIn(y) \/ d < 1 \/ d > 7 THEN Refuse(e, "impossible week accepted")
  ELSE IF ~ValidOrd(n) THEN Refuse(e, "week outside the supported years accepted")
  ELSE Ret(e, C(e.r = DF(e.a[4], FromOrd(n)), "date of ISO week"))
DFromIso(e) ==
  LET y == e.a[1] w == e.a[2] d == e.a[3] n == FromIso(y, w, d) IN
  IF d < 1 \/ d > 7 THEN {}
  ELSE IF w = 53 /\ WeeksIn(y) = 53 /\ e.ok = 0 THEN {"iso-week-53-refused"}
  ELSE IF w = 52 /\ Week52Years(y) /\
          (IF ValidOrd(n + 7) THEN e.ok = 1 /\ e.r = DF(e.a[4], FromOrd(n + 7)) ELSE e.ok = 0)
       THEN {"iso-week-52-late"}
  ELSE {}

(************************** C06 **************************)
Six(c) == <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
VCmpDate(e) ==
  LET c == CmpDate(SubSeq(e.a, 3, 5), SubSeq(e.a, 6, 8)) IN
  Ret(e, C(Sub(e.r, 1, 6) = Six(c) /\ Sub(e.r, 7, 12) = Six(-c), "order of dates")
      \cup C(c # 0 \/ RA(e, 13) = 1, "equal dates hash equal")
      \cup C(RA(e, 14) = (IF c = 0 THEN 1 ELSE 2), "set of dates")
      \cup C(RA(e, 15) = B(c <= 0), "sorted dates"))
VCmpOther(e) == Ret(e, C(Sub(e.r, 1, 4) = <<0, 1, 0, 1>>, "equal to something else")
                   \cup C(Sub(e.r, 5, 12) = <<0, 0, 0, 0, 0, 0, 0, 0>>, "ordered with something else"))

(************************** C07 **************************)
\* days moved by the duration (floor of the duration in days)
NegDays(dd, ds, du) == IF ds = 0 /\ du = 0 THEN -dd ELSE -dd - 1
VDateAdd(e) ==
  LET o == Ord(e.a[2], e.a[3], e.a[4])
      mv == IF e.a[8] = 2 THEN -e.a[5] ELSE e.a[5]
      n == o + mv
  IN IF ~ValidOrd(n) THEN RefuseBy(e, {"OverflowError"}, "leaving the supported years")
     ELSE Ret(e, C(Sub(e.r, 1, Len(e.r) - 1) = DF(e.a[1], FromOrd(n)), "date plus days")
            \cup C(RA(e, Len(e.r)) = 1, "class kept"))
VDateSub(e) == Ret(e, C(e.r = <<Ord(e.a[3], e.a[4], e.a[5]) - Ord(e.a[6], e.a[7], e.a[8]), 0, 0>>, "difference of dates"))
VDateBad(e) == RefuseBy(e, {"TypeError"}, "nonsense operands accepted")
============================================================================
