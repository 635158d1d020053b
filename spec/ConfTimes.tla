----------------------------- MODULE ConfTimes -----------------------------
(***************************************************************************)
(* What recorded calls on times, datetimes and zones must have returned    *)
(* (C08 C09 C10 C18 C19 C20 C21 C22 C26 C27).                              *)
(* A datetime argument is 12 integers  form y m d h mi s us kind os ou     *)
(* fold; a time argument 8 integers  h mi s us kind os ou fold.            *)
(* kind: 0 naive, 1 own zone object, 2 shared zone object, 3 named zone,   *)
(* 6 zone with coordinates.  os, ou: offset in seconds and microseconds.   *)
(***************************************************************************)
EXTENDS ConfDates, BadiTime

NONE == -999999
\* fields of the datetime argument starting at position k
AForm(a, k) == a[k]
ADate(a, k) == <<a[k+1], a[k+2], a[k+3]>>
ATime(a, k) == <<a[k+4], a[k+5], a[k+6], a[k+7]>>
AAware(a, k) == a[k+8] # 0
AOff(a, k) == IF AAware(a, k) THEN <<a[k+9], a[k+10]>> ELSE <<0, 0>>
AFold(a, k) == a[k+11]
AOrd(a, k) == Ord(a[k+1], a[k+2], a[k+3])
\* local moment and instant of it
Local(a, k) == Norm(AOrd(a, k), Secs(a[k+4], a[k+5], a[k+6]), a[k+7])
Instant(a, k) == LET o == AOff(a, k) IN Minus(Local(a, k), <<0, o[1], o[2]>>)
ShapeZone(kind, os, ou) == IF kind = 0 THEN <<0, 0, 0>> ELSE <<1, os, ou>>
\* what is observed of a datetime: form, date, time, fold, offset
Shape(form, t, tm, fold, zone) == DF(form, t) \o tm \o <<fold>> \o zone
AShape(a, k) == Shape(a[k], ADate(a, k), ATime(a, k), AFold(a, k), ShapeZone(a[k+8], a[k+9], a[k+10]))
\* position of the fold in an observed datetime
FoldAt(form) == IF form = 0 THEN 9 ELSE 11
DropFold(r, form) == IF Len(r) < FoldAt(form) THEN r ELSE [r EXCEPT ![FoldAt(form)] = 0]
MShape(form, p, zone) == LET f == MomentFields(p) IN
  Shape(form, SubSeq(f, 1, 3), SubSeq(f, 4, 7), 0, zone)
Mixed(a) == AAware(a, 1) # AAware(a, 13)

(************************** C08 C09 **************************)
VDtAdd(e) ==
  LET a == e.a
      t == <<a[13], a[14], a[15]>>
      p == IF a[16] = 2 THEN Minus(Local(a, 1), t) ELSE Plus(Local(a, 1), t)
      n == Len(e.r)
  IN IF ~MomentValid(p) THEN RefuseBy(e, {"OverflowError"}, "leaving the supported years")
     ELSE Ret(e, C(n > 2 /\ DropFold(Sub(e.r, 1, n - 2), a[1]) =
                   MShape(a[1], p, ShapeZone(a[9], a[10], a[11])), "datetime plus duration")
            \cup C(RA(e, n - 1) = 1 /\ RA(e, n) = 1, "class and zone kept"))
VDtSub(e) ==
  IF Mixed(e.a) THEN RefuseBy(e, {"TypeError"}, "naive minus aware")
  ELSE Ret(e, C(e.r = Minus(Instant(e.a, 1), Instant(e.a, 13)), "difference of datetimes"))
VDtCmp(e) ==
  IF Mixed(e.a)
  THEN Ret(e, C(Sub(e.r, 1, 12) = <<0, 1, 2, 2, 2, 2, 0, 1, 2, 2, 2, 2>>, "naive against aware")
         \cup C(RA(e, 14) = 2, "set of datetimes"))
  ELSE LET c == CmpSeq3(Instant(e.a, 1), Instant(e.a, 13)) IN
       Ret(e, C(Sub(e.r, 1, 6) = Six(c) /\ Sub(e.r, 7, 12) = Six(-c), "order of datetimes")
          \cup C(c # 0 \/ RA(e, 13) = 1, "equal datetimes hash equal")
          \cup C(RA(e, 14) = (IF c = 0 THEN 1 ELSE 2), "set of datetimes"))
VDtRound(e) == Ret(e, C(e.r = <<1, 1, 1>>, "adding a difference undoes it"))
VAstz(e) ==
  LET a == e.a n == Len(e.r)
      p == Plus(Instant(a, 1), <<0, a[14], a[15]>>)
  IN Ret(e, C(n > 1 /\ DropFold(Sub(e.r, 1, n - 1), a[1]) = MShape(a[1], p, <<1, a[14], a[15]>>), "moved to another zone")
       \cup C(RA(e, n) = 1, "same instant in another zone"))

(************************** C10 **************************)
OffText(os, ou, colon) ==
  LET neg == os < 0
      u == IF neg /\ ou > 0 THEN 1000000 - ou ELSE ou
      s == IF neg THEN (IF ou > 0 THEN -(os + 1) ELSE -os) ELSE os
      h == Hms(s)
  IN (IF neg THEN "-" ELSE "+") \o P2(h[1]) \o colon \o P2(h[2])
     \o (IF h[3] # 0 \/ u # 0 THEN colon \o P2(h[3]) ELSE "")
     \o (IF u # 0 THEN "." \o Pad(u, 6) ELSE "")
UtcName(os, ou) == IF os = 0 /\ ou = 0 THEN "UTC" ELSE "UTC" \o OffText(os, ou, ":")
ZoneName(kind, os, ou) ==
  CASE kind = 0 -> ""
    [] kind = 3 -> "Z{fa}{f1}/N" \o ToString(os % 7)
    [] kind = 6 -> "K" \o ToString(os % 5)
    [] OTHER -> UtcName(os, ou)
VTz(e) ==
  LET k == e.a[1] os == e.a[2] ou == e.a[3]
      q == <<os, ou>>  nm == ZoneName(k, os, ou)
      f == Plus(<<Ord(181, 10, 10), 43200, 0>>, <<0, os, ou>>)
  IN Ret(e, C(Sub(e.r, 1, 8) = q \o q \o q \o q, "offset of the zone")
       \cup C(Sub(e.r, 9, 11) = <<1, 1, 0>>, "zones of equal offset are equal")
       \cup C(Sub(e.r, 12, 23) = MShape(0, f, <<1, os, ou>>), "local time from UTC")
       \cup C(RA(e, 24) = 1, "no daylight saving")
       \cup C(Sub(e.t, 1, 4) = <<nm, nm, nm, nm>>, "name of the zone")
       \cup C(k = 6 \/ (k # 3 /\ os = 0 /\ ou = 0) \/ TA(e, 5) = nm, "text of the zone"))
VTzEq(e) ==
  LET same == e.a[2] = e.a[5] /\ e.a[3] = e.a[6] IN
  Ret(e, C(Sub(e.r, 1, 2) = <<B(same), B(~same)>> /\ Sub(e.r, 4, 5) = <<0, 0>>, "equality of zones")
    \cup C(~same \/ RA(e, 3) = 1, "equal zones hash equal"))
VTzMake(e) ==
  LET q == Norm(e.a[1], e.a[2], e.a[3]) IN
  IF e.s[1] \notin {"plain", "named"} THEN RefuseBy(e, {"TypeError"}, "argument of wrong type accepted")
  ELSE IF ~ValidOffset(q) THEN RefuseBy(e, {"ValueError"}, "offset of a day or more accepted")
  ELSE Ret(e, C(e.r = q, "offset kept")
         \cup C(TA(e, 1) = (IF e.s[1] = "named" THEN "N"
                          ELSE UtcName((86400 * q[1]) + q[2], q[3])), "name of the zone"))

\* offsets as seen from the zone of the calendar, three and a half hours east
VBadiOff(e) ==
  LET q == <<e.a[2] - 12600, e.a[3]>> IN
  Ret(e, C(Sub(e.r, 1, 4) = q \o q /\ Sub(e.r, 5, 6) = q, "offset from the zone of the calendar")
    \cup C(RA(e, 7) = 1, "naive time has no offset"))
\* methods of a zone take a datetime or, but for fromutc, None
VTzArg(e) ==
  LET os == e.a[2] ou == e.a[3] f == e.s[1] x == e.s[2] IN
  IF x \in {"naive", "foreign", "none"} /\ ~(f = "fromutc")
  THEN Ret(e, CASE f = "utcoffset" -> C(e.r = <<2, os, ou>>, "offset of the zone")
                [] f = "badioffset" -> C(e.r = <<2, os - 12600, ou>>, "offset from the zone of the calendar")
                [] OTHER -> C(TA(e, 1) = ZoneName(e.a[1], os, ou), "name of the zone"))
  ELSE IF f = "fromutc" /\ x \in {"naive", "foreign"}
  THEN IF x = "foreign" /\ os = 25211 /\ ou = 0 THEN {} ELSE RefuseBy(e, {"ValueError"}, "datetime of another zone taken")
  ELSE RefuseBy(e, {"TypeError"}, "argument of wrong type accepted")

(************************** C18 **************************)
Clean(e, shape) == Ret(e, C(Sub(e.r, 1, 4) = <<0, 1, 1, 1>>, "copy differs, is of another class, unequal or hashes differently")
                     \cup C(Sub(e.r, 5, Len(e.r)) = shape, "original fields"))
VPickDate(e) == Clean(e, DF(e.a[1], SubSeq(e.a, 3, 5)))
VPickDt(e) == Clean(e, AShape(e.a, 1) \o <<0>>)
TShape(a, k) == SubSeq(a, k, k + 3) \o <<a[k+7]>> \o ShapeZone(a[k+4], a[k+5], a[k+6])
VPickTime(e) == Clean(e, TShape(e.a, 1) \o <<0>>)
VPickTz(e) == Clean(e, <<e.a[2], e.a[3], 0>>)
VPickIso(e) == Ret(e, C(e.r = <<0, 0>> \o Iso(Ord(e.a[3], e.a[4], e.a[5])), "copied ISO date"))
VPickTup(e) == Ret(e, C(Sub(e.r, 1, 3) = <<0, 1, 1>>, "copied time tuple")
                 \cup C(Sub(e.r, 4, 8) = SubSeq(From(DF(e.a[1], ADate(e.a, 1)), 2) \o SubSeq(ATime(e.a, 1), 1, 2), 1, 5), "fields of the time tuple"))

(************************** C19 **************************)
VMkDate(e) ==
  LET f == From(e.a, 2) IN
  IF Len(f) = 3
  THEN IF ValidDate(f[1], f[2], f[3]) THEN Ret(e, C(e.r = <<1>> \o f \o f, "fields of the date made"))
       ELSE Refuse(e, "impossible date made")
  ELSE IF ValidLong(f[1], f[2], f[3]) /\ ValidDate(Short(f[1], f[2], f[3]), f[4], f[5])
       THEN Ret(e, C(e.r = <<0>> \o f \o f, "fields of the date made"))
       ELSE Refuse(e, "impossible date made")
\* a date and time in fields, with a fraction in at most the last part that is not zero (day, hour, minute and second in quarters)
FieldsOk(y, m, d, h, mi, s, us) ==
  /\ m \in 0..19 /\ d >= 4 /\ d < 4 * (MonthDays(y, m) + 1)
  /\ h \in 0..99 /\ mi \in 0..239 /\ s \in 0..239 /\ us \in 0..999999
  /\ (d % 4 # 0 => h = 0 /\ mi = 0 /\ s = 0)
  /\ (h % 4 # 0 => mi = 0 /\ s = 0)
  /\ (mi % 4 # 0 => s = 0)
VMkFields(e) ==
  LET a == e.a long == a[1] > 1
      f == IF long THEN From(a, 6) ELSE From(a, 4)
      y == IF long THEN Short(a[3], a[4], a[5]) ELSE a[3]
      there == IF long THEN a[3] \in -5..4 /\ a[4] \in 1..19 /\ a[5] \in 1..19 ELSE InYears(y)
  IN IF there /\ FieldsOk(y, f[1], f[2], f[3], f[4], f[5], f[6])
     THEN Ret(e, C(e.r = <<1>>, "a date and time in fields")) ELSE Refuse(e, "impossible fields taken")
VMkTime(e) ==
  IF ValidTime(e.a[1], e.a[2], e.a[3], e.a[4], e.a[5])
  THEN Ret(e, C(e.r = e.a \o <<0, 0, 0>>, "fields of the time made"))
  ELSE Refuse(e, "impossible time made")
VMkDtime(e) ==
  LET a == e.a IN
  IF ValidTime(a[5], a[6], a[7], a[8], a[9]) /\ ValidDate(a[2], a[3], a[4])
  THEN Ret(e, C(e.r = Shape(a[1], <<a[2], a[3], a[4]>>, SubSeq(a, 5, 8), a[9], <<0, 0, 0>>) \o SubSeq(a, 5, 8), "fields of the datetime made"))
  ELSE Refuse(e, "impossible datetime made")
VMkBad(e) ==
  LET k == IF Len(e.s[1]) < 5 THEN "" ELSE SubSeq(e.s[1], 1, 5) IN
  CASE k = "kind:" -> RefuseBy(e, {"TypeError"}, "argument of wrong type accepted")
    [] k = "value" -> RefuseBy(e, {"ValueError"}, "argument of no meaning accepted")
    [] OTHER -> Refuse(e, "wrong construction accepted")

(************************** C20 **************************)
Pick(new, old) == IF new = NONE THEN old ELSE new
\* the date fields after replacement (k v y m d new values), or <<>> if refused
RepDate(form, date, nw) ==
  IF form = 0
  THEN IF nw[1] # NONE \/ nw[2] # NONE THEN <<>>
       ELSE LET t == <<Pick(nw[3], date[1]), Pick(nw[4], date[2]), Pick(nw[5], date[3])>>
            IN IF ValidDate(t[1], t[2], t[3]) THEN t ELSE <<>>
  ELSE LET l == Long(date[1])
           k == Pick(nw[1], l[1]) v == Pick(nw[2], l[2]) r == Pick(nw[3], l[3])
           m == Pick(nw[4], date[2]) d == Pick(nw[5], date[3])
       IN IF ValidLong(k, v, r) /\ ValidDate(Short(k, v, r), m, d) THEN <<Short(k, v, r), m, d>> ELSE <<>>
VRepDate(e) ==
  LET a == e.a  t == RepDate(a[1], SubSeq(a, 2, 4), SubSeq(a, 5, 9)) IN
  IF t = <<>> THEN Refuse(e, "impossible replacement accepted")
  ELSE Ret(e, C(e.r = DF(a[1], t) \o <<1, 1>>, "fields replaced in a date"))
RepTime(tm, fold, nw) == <<Pick(nw[1], tm[1]), Pick(nw[2], tm[2]), Pick(nw[3], tm[3]), Pick(nw[4], tm[4]), Pick(nw[5], fold)>>
ValidT5(x) == ValidTime(x[1], x[2], x[3], x[4], x[5])
VRepDt(e) ==
  LET a == e.a
      t == RepDate(a[1], ADate(a, 1), SubSeq(a, 13, 17))
      x == RepTime(ATime(a, 1), AFold(a, 1), SubSeq(a, 18, 22))
      z == IF a[23] < 0 THEN ShapeZone(a[9], a[10], a[11]) ELSE ShapeZone(a[23], a[24], a[25])
  IN IF t = <<>> \/ ~ValidT5(x) THEN Refuse(e, "impossible replacement accepted")
     ELSE Ret(e, C(e.r = Shape(a[1], t, SubSeq(x, 1, 4), x[5], z) \o <<1, 1>>, "fields replaced in a datetime"))
VRepTime(e) ==
  LET a == e.a
      x == RepTime(SubSeq(a, 1, 4), a[8], SubSeq(a, 9, 13))
      z == IF a[14] < 0 THEN ShapeZone(a[5], a[6], a[7]) ELSE ShapeZone(a[14], a[15], a[16])
  IN IF ~ValidT5(x) THEN Refuse(e, "impossible replacement accepted")
     ELSE Ret(e, C(e.r = x \o z \o <<1, 1>>, "fields replaced in a time"))
VCombine(e) ==
  LET a == e.a
      date == SubSeq(a, 2, 4)  tm == SubSeq(a, 5, 8)
      z == IF a[13] < 0 THEN ShapeZone(a[9], a[10], a[11]) ELSE ShapeZone(a[13], a[14], a[15])
  IN Ret(e, C(e.r = Shape(a[1], date, tm, a[12], z) \o DF(a[1], date)
                    \o tm \o <<a[12], 0, 0, 0>> \o tm \o <<a[12]>> \o z \o <<1, 1>>, "combined and taken apart"))

(************************** C21 **************************)
\* moment of day of a time; offsets are whole minutes
TMoment(a, k) == LET o == IF a[k+4] = 0 THEN 0 ELSE a[k+5] IN
  <<((a[k] * 60) + a[k+1]) - (o \div 60), a[k+2], a[k+3]>>
VTCmp(e) ==
  LET a == e.a c == CmpSeq3(TMoment(a, 1), TMoment(a, 9)) IN
  IF (a[5] = 0) # (a[13] = 0)
  THEN Ret(e, C(Sub(e.r, 1, 12) = <<0, 1, 2, 2, 2, 2, 0, 1, 2, 2, 2, 2>>, "naive against aware"))
  ELSE Ret(e, C(Sub(e.r, 1, 6) = Six(c) /\ Sub(e.r, 7, 12) = Six(-c), "order of times")
         \cup C(c # 0 \/ RA(e, 13) = 1, "equal times hash equal"))
TText(a, spec) ==
  LET hm == P2(a[1]) \o ":" \o P2(a[2])
      hms == hm \o ":" \o P2(a[3])
      us == "." \o Pad(a[4], 6)
  IN (CASE spec = "hours" -> P2(a[1])
       [] spec = "minutes" -> hm
       [] spec = "seconds" -> hms
       [] spec = "milliseconds" -> hms \o "." \o Pad(a[4] \div 1000, 3)
       [] spec = "microseconds" -> hms \o us
       [] OTHER -> IF a[4] = 0 THEN hms ELSE hms \o us)
VTIso(e) ==
  LET a == e.a  z == IF a[5] = 0 THEN "" ELSE OffText(a[6], a[7], ":") IN
  IF e.s[1] \notin {"auto", "hours", "minutes", "seconds", "milliseconds", "microseconds"}
  THEN RefuseBy(e, {"ValueError"}, "unknown precision accepted")
  ELSE Ret(e, C(TA(e, 1) = TText(a, e.s[1]) \o z, "time at a precision")
         \cup C(TA(e, 2) = TText(a, "auto") \o z /\ TA(e, 3) = TA(e, 2), "text of the time"))
VTBack(e) == LET f == SubSeq(e.a, 1, 4) IN
  Ret(e, C(e.r = f \o f \o <<1, 1>>, "time read back"))
VTBool(e) == Ret(e, C(e.r = <<1>> \o TShape(e.a, 1), "time is true"))

(************************** C22 **************************)
DstFlag(kind, os, ou) == IF kind = 6 \/ (kind \in {1, 2} /\ os = 0 /\ ou = 0) THEN 0 ELSE -1
VTTup(e) ==
  LET a == e.a o == AOrd(a, 1) IN
  Ret(e, C(Sub(e.r, 1, Len(e.r) - 4) = DF(a[1], ADate(a, 1)) \o SubSeq(ATime(a, 1), 1, 3)
                 \o <<WeekdayOrd(o), YDay(a[2], a[3], a[4])>>, "fields of the time tuple")
     \cup C(RA(e, Len(e.r) - 3) = DstFlag(a[9], a[10], a[11]), "daylight saving flag")
     \cup C(Sub(e.r, Len(e.r) - 2, Len(e.r)) = <<B(a[9] # 0)>> \o AOff(a, 1), "offset of the time tuple")
     \cup C(TA(e, 1) = ZoneName(a[9], a[10], a[11]), "zone of the time tuple"))
VUTup(e) ==
  LET a == e.a p == Instant(a, 1) f == MomentFields(p) IN
  Ret(e, C(e.r = DF(a[1], SubSeq(f, 1, 3)) \o SubSeq(f, 4, 6)
                 \o <<WeekdayOrd(p[1]), YDay(f[1], f[2], f[3]), 0>>, "UTC time tuple"))
VDTup(e) ==
  LET a == e.a o == Ord(a[3], a[4], a[5]) IN
  Ret(e, C(e.r = DF(a[1], SubSeq(a, 3, 5)) \o <<0, 0, 0, WeekdayOrd(o), YDay(a[3], a[4], a[5]), -1, 0, 0, 0>>, "time tuple of a date"))
\* field by field: length, the fields by name, same by index, same in the repr; then the ISO triple, by name and in the repr
VTupNames(e) ==
  LET a == e.a o == AOrd(a, 1) d == DF(a[1], ADate(a, 1)) n == Len(d) + 6 r == e.r IN
  Ret(e, IF Len(r) # n + 8 THEN {"shape of the names"}
       ELSE C(r[1] = n + 1, "length of the time tuple")
       \cup C(Sub(r, 2, n) = Sub(d, 2, Len(d)) \o SubSeq(ATime(a, 1), 1, 3)
                 \o <<WeekdayOrd(o), YDay(a[2], a[3], a[4]), DstFlag(a[9], a[10], a[11])>> , "fields of the time tuple by name")
       \cup C(Sub(r, n + 1, n + 3) = <<1, 1, 1>>, "repr and index of the time tuple")
       \cup C(Sub(r, n + 7, n + 8) = <<1, 1>>, "names of the ISO triple"))
\* fields given to struct_time itself
VTupBad(e) ==
  LET a == e.a n == Len(a) IN
  IF n \notin {9, 11} THEN RefuseBy(e, {"TypeError"}, "time tuple of another length")
  ELSE LET k == n - 6 t == SubSeq(a, k + 1, k + 3) IN
    IF /\ a[n] \in -1..1 /\ ValidTime(t[1], t[2], t[3], 0, 0)
       /\ IF k = 3 THEN ValidDate(a[1], a[2], a[3])
          ELSE ValidLong(a[1], a[2], a[3]) /\ ValidDate(Short(a[1], a[2], a[3]), a[4], a[5])
    THEN Ret(e, C(e.r = <<B(k = 3)>> \o a \o <<0, 0, 0>>, "fields of a time tuple made"))
    ELSE Refuse(e, "impossible time tuple made")
VTupRt(e) == Ret(e, C(e.r = <<1, 1, 1, 1>>, "time tuple rebuilt"))

(************************** C27 **************************)
VReprDate(e) == Ret(e, C(e.r = DF(e.a[1], SubSeq(e.a, 3, 5)) \o <<1, 1>>, "repr of a date"))
VReprDt(e) == Ret(e, C(e.r = AShape(e.a, 1) \o <<1, 1, 1>>, "repr of a datetime"))
VReprTime(e) == Ret(e, C(e.r = TShape(e.a, 1) \o <<1, 1>>, "repr of a time"))
VReprTz(e) == Ret(e, C(e.r = <<e.a[2], e.a[3], 1, 1, 1, 1>>, "repr of a zone"))
VReprPair(e) == Ret(e, C(e.r = <<B(AShape(e.a, 1) = AShape(e.a, 13) /\ e.a[9] = e.a[21])>>, "values told apart by their reprs"))

(************************** C26 **************************)
\* text of a number of quarters, as Python writes the decimal number
QText(q) == LET m == Abs(q) IN (IF q < 0 THEN "-" ELSE "") \o ToString(m \div 4)
  \o (CASE m % 4 = 0 -> ".0" [] m % 4 = 1 -> ".25" [] m % 4 = 2 -> ".5" [] OTHER -> ".75")
KeyName == <<"", "Asia/Tehran", "UTC", "Z/{1e25}">>
VZones(e) ==
  LET k == 4 + (5 * e.a[2])
      lat == e.a[k] lon == e.a[k+1] q == e.a[k+2]
      key == IF e.a[k+4] = 1 /\ e.a[k+3] = 0 THEN "Zi" ELSE KeyName[e.a[k+3] + 1]
      off == IF q = NONE THEN 0 ELSE q
      name == IF key = "" THEN UtcName(900 * off, 0) ELSE key
  IN Ret(e, C(Sub(e.r, 1, 6) = <<lat, lon, q, 1, 1, 1>>, "coordinates of the zone")
       \cup C(Sub(e.r, 7, 8) = <<off, off>>, "offset of the zone")
       \cup C(Sub(e.r, 9, 11) = <<1, 0, 7>>, "offsets of UTC and BADI")
       \cup C(Sub(e.r, 12, 14) = <<1, 1, 1>>, "class, equality and hash of the zone")
       \cup C(Sub(e.t, 1, 3) = <<key, name, name>>, "name of the zone")
       \cup C(TA(e, 4) = QText(lat) \o ", " \o QText(lon) \o ", " \o (IF q = NONE THEN "None" ELSE QText(q))
                       \o (IF key = "" THEN "" ELSE ", " \o key), "text of the zone")
       \cup C(Sub(e.t, 5, 6) = <<"UTC", "Asia/Tehran">>, "names of UTC and BADI"))
============================================================================
