------------------------------ MODULE ConfText ------------------------------
(***************************************************************************)
(* What calls that write and read text must have returned (C15).           *)
(***************************************************************************)
EXTENDS ConfTimes, BadiIso

(************************** C15 **************************)
VIsoD(e) == LET a == e.a t == DateText(a[2], a[3], a[4]) IN
  Ret(e, C(TA(e, 1) = t, "ISO text of a date")
     \cup C(TA(e, 2) = (IF a[1] = 0 THEN t ELSE LongText(a[2], a[3], a[4])), "str of a date"))
VIsoDt(e) ==
  LET a == e.a
      tm == <<a[5], a[6], a[7], a[8]>>
      z == IF a[9] = 0 THEN "" ELSE OffText(a[10], a[11], ":")
      t == DateText(a[2], a[3], a[4])
  IN IF e.s[2] \notin {"auto", "hours", "minutes", "seconds", "milliseconds", "microseconds"}
     THEN RefuseBy(e, {"ValueError"}, "unknown precision accepted")
     ELSE Ret(e, C(TA(e, 1) = t \o e.s[1] \o TText(tm, e.s[2]) \o z, "ISO text of a datetime")
            \cup C(TA(e, 2) = (IF a[1] = 0 THEN t ELSE LongText(a[2], a[3], a[4])) \o "T" \o TText(tm, "auto") \o z, "str of a datetime"))
\* the day a reading means
DayOf(q) == IF q[1] = "week" THEN FromOrd(FromIso(q[2], q[3], q[4])) ELSE SubSeq(q, 2, 4)
OffMin(q) == IF q[1] = "naive" THEN <<0, 0, 0>> ELSE <<1, 60 * q[2], 0>>
\* a time a microsecond before (in the same hour)
Shy(tm) ==
  LET s == (60 * tm[3]) + tm[4] IN
  IF tm[5] > 0 THEN [tm EXCEPT ![5] = @ - 1]
  ELSE <<"time", tm[2], (s - 1) \div 60, (s - 1) % 60, 999999>>
DtShape(q) == Shape(0, DayOf(q[2]), SubSeq(q[3], 2, 5), 0, OffMin(q[4]))
\* any text given to date.fromisoformat (form of the result: a[1])
DateReading(t) == IF Find(t, {"T", " "}, 1) # 0 THEN BAD ELSE ReadDate(t)
VReadD(e) ==
  LET q == DateReading(e.s[1]) IN
  CASE q = OPEN -> {}
    [] q = BAD -> Refuse(e, "text accepted as a date")
    [] OTHER -> Ret(e, C(e.r = DF(e.a[1], DayOf(q)), "date read from text"))
VReadDt(e) ==
  LET q == ReadDateTime(e.s[1]) IN
  CASE q = OPEN -> {}
    [] q = BAD -> Refuse(e, "text accepted as a datetime")
    [] OTHER -> Ret(e, C(e.r = DtShape(q) \/ (Len(q[3]) = 6 /\ e.r = DtShape([q EXCEPT ![3] = Shy(q[3])])), "datetime read from text"))
\* a spelling of the fields a[2..4] (a[5..8] a[9..11] for datetimes): the text
\* means these fields, and is read as them
VSpellD(e) == LET q == DateReading(e.s[1]) a == e.a IN
  C(q[1] \in {"date", "week"} /\ DayOf(q) = SubSeq(a, 2, 4), "spelling of the specification") \cup VReadD(e)
VSpellDt(e) == LET q == ReadDateTime(e.s[1]) a == e.a IN
  C(q[1] = "ok" /\ DtShape(q) = Shape(0, SubSeq(a, 1, 3), SubSeq(a, 4, 7), 0, SubSeq(a, 8, 10)), "spelling of the specification") \cup VReadDt(e)
\* written and read back by the code
VIsoBack(e) == LET a == e.a IN
  Ret(e, C(e.r = Shape(0, ADate(a, 1), ATime(a, 1), 0, ShapeZone(a[9], a[10], a[11])) \o <<1>>, "ISO text read back"))
VIsoBackD(e) == LET a == e.a IN Ret(e, C(e.r = DF(a[1], SubSeq(a, 2, 4)) \o <<1>>, "ISO text read back"))
\* deviations of the weeks 52 and 53 (as in fromisocalendar)
DevWeek(e, q, r(_)) ==
  IF q[1] # "week" THEN {}
  ELSE LET y == q[2] w == q[3] d == q[4] n == FromIso(y, w, d) + 7 IN
  IF w = 53 /\ e.ok = 0 THEN {"iso-week-53-refused"}
  ELSE IF w = 52 /\ Week52Years(y) /\ (IF ValidOrd(n) THEN e.ok = 1 /\ e.r = r(FromOrd(n)) ELSE e.ok = 0)
       THEN {"iso-week-52-late"} ELSE {}
DReadD(e) == LET r(t) == DF(e.a[1], t) IN DevWeek(e, DateReading(e.s[1]), r)
DReadDt(e) == LET q == ReadDateTime(e.s[1])
                  r(t) == Shape(0, t, SubSeq(q[3], 2, 5), 0, OffMin(q[4]))
              IN IF q[1] = "ok" THEN DevWeek(e, q[2], r) ELSE {}
=============================================================================
