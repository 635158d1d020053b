------------------------------ MODULE ConfSun ------------------------------
(***************************************************************************)
(* What recorded calls that relate Badi' days to instants must have        *)
(* returned: places (C12), sunsets (C25) and timestamps (C11). An instant  *)
(* is <<day, second, microsecond>>, the day counted from midnight UT in    *)
(* the exact reckoning (Greg2). Each is decided twice: against the         *)
(* independent sunset of Almanac (to ALM seconds), and against the         *)
(* library's own starts of the neighbouring days (to 10 milliseconds).     *)
(***************************************************************************)
EXTENDS ConfNum, Almanac

ALM == 60
TEN == 10000
ModernDay(o) == o >= 577800                      \* after the Gregorian reform
\* the start of the Badi' day with ordinal o at a place, by the almanac
AlmStart(o, lat, lon) ==
  LET s == Sunset(o, lat, lon) IN <<o + 1721423 + (s \div 86400), s % 86400, 0>>
NearSun(p, o, lat, lon) == NearM(p, AlmStart(o, lat, lon), ALM * 1000000)
LT(p, q) == CmpSeq3(p, q) < 0
SaneM(p) == Len(p) = 3 /\ \A i \in 1..3 : Mod(p[i], 300000000)
\* elapsed from p to q in seconds and microseconds, when they are a few days apart
El(p, q) == Minus(q, p)
\* next to a day that has no historical Julian day the sun is off by minutes
NearMissing(o) == \E k \in -2..2 : LET g == GFrom(o + k) IN
                     g[2] = 3 /\ g[3] = 1 /\ JLeap(g[1]) /\ ~GLeap(g[1]) /\ g[1] < 1583
DayLenOk(p, q) == LET l == El(p, q) s == l[1] * 86400 + l[2] IN s >= 85800 /\ s <= 87000
DayLenOld(p, q) == LET l == El(p, q) s == l[1] * 86400 + l[2] IN s >= 85700 /\ s <= 87100
\* local mean time of the start of a day: an afternoon or evening of civil day o
Evening(p, o, lon) ==
  LET s == (p[1] - 1721423 - o) * 86400 + p[2] + Sec(lon) IN s >= 50400 /\ s <= 81000

(***************************** C25 C12 *****************************)
\* a = y m d lat lon zone how
VDayStart(e) ==
  LET a == e.a
      o == IF a[7] = 4 THEN YS(a[1]) ELSE IF a[7] = 5 THEN YS(a[1]) + 31 ELSE Ord(a[1], a[2], a[3])
      st == AlmStart(o, a[4], a[5])
      zoned == Norm(st[1], st[2] + 900 * a[6], 0)
      r == e.r
  IN Ret(e, CASE a[7] \in {0, 1} ->
                   IF ~SaneM(r) THEN {"shape of the instant"}
                   ELSE C(Mod(r[1] - 1721423 - o, 3) /\ Evening(r, o, a[5]), "day starts on its civil evening")
                   \cup C(~ModernDay(o) \/ NearM(r, st, ALM * 1000000), "day starts at sunset")
              [] a[7] = 2 ->
                   C(InHms(r, 24), "fields of a day in range")
                   \cup C(LET x == HmsM(r) IN x[1] = 0 /\
                          \E k \in -1..1 : NearM(<<k, x[2], x[3]>>, <<0, zoned[2], 0>>, ALM * 1000000), "clock time of sunset")
              [] OTHER ->
                   IF Len(r) # 7 \/ ~Mod(r[1], 10000) \/ r[2] \notin 1..12 \/ r[3] \notin 1..31 THEN {"shape of the date"}
                   ELSE C(InHms(From(r, 4), 24), "fields of a day in range")
                   \cup C(NearM(Shift(HmsM(From(r, 4)), Exact(r[1], r[2], r[3])), zoned, ALM * 1000000), "Gregorian date and time of the sunset"))
\* a = y m d sec us lat lon zone; r = start instant nextstart short(7) long(5)+time(4)
VDayAt(e) ==
  LET a == e.a y == a[1] m == a[2] d == a[3] o == Ord(y, m, d)
      st == Sub(e.r, 1, 3) it == Sub(e.r, 4, 6) nx == Sub(e.r, 7, 9)
      x == Sub(e.r, 10, 16) l == Sub(e.r, 17, 25)
      t == <<0, a[4], a[5]>>
      tol == IF NearMissing(o) THEN 600000000 ELSE TEN
      inside == LT(Plus(it, <<0, 0, TEN>>), nx) /\ (a[4] < 86399 \/ a[5] < 980000)
  IN Ret(e, IF ~SaneM(st) \/ ~SaneM(it) \/ ~SaneM(nx) \/ Len(e.r) # 25 THEN {"shape of the instants"}
       ELSE C(Mod(st[1] - 1721423 - o, 3) /\ Evening(st, o, a[7]), "day starts on its civil evening")
       \cup C(~ModernDay(o) \/ NearSun(st, o, a[6], a[7]), "day starts at sunset")
       \cup C(NearM(it, Plus(st, t), TEN), "time of day counts from sunset")
       \cup C(NearMissing(o) \/ (IF ModernDay(o) THEN DayLenOk(st, nx) ELSE DayLenOld(st, nx)), "length of the day")
       \cup C(~inside \/ NearMissing(o) \/ (Sub(x, 1, 3) = <<y, m, d>> /\ NearM(HmsM(From(x, 4)), t, TEN)), "date of the instant")
       \cup C(~inside \/ (\E k \in -1..1 : ValidOrd(o + k) /\ Sub(x, 1, 3) = FromOrd(o + k)
                             /\ NearM(Shift(HmsM(From(x, 4)), k), t, tol)), "date of the instant")
       \cup C(l = Long(x[1]) \o From(x, 2), "long form of the same date"))
\* the date x (7 fields) of instant p, given the starts of the day before, that day and the next
InDay(p, x, prev, st, nx) ==
  /\ NearM(HmsM(From(x, 4)), El(st, p), TEN)
  /\ ~LT(Plus(p, <<0, 0, TEN>>), st) /\ ~LT(Plus(nx, <<0, 0, TEN>>), p)
\* the known deviation: what lies more than 24 hours after a sunset and before the next
Beyond24(p, x, prev, st) ==
  /\ LT(p, Plus(st, <<0, 0, TEN>>))
  /\ ~LT(Plus(p, <<0, 0, TEN>>), Plus(prev, <<1, 0, 0>>))
  /\ NearM(HmsM(From(x, 4)), El(Plus(prev, <<1, 0, 0>>), p), TEN)
\* a date x found for instant p agrees with the almanac
AlmDay(p, x, lat, lon) ==
  LET o == Ord(x[1], x[2], x[3])
      s0 == AlmStart(o, lat, lon) s1 == AlmStart(o + 1, lat, lon)
      g == <<0, ALM, 0>>
  IN /\ ~LT(Plus(p, g), s0) /\ ~LT(Plus(s1, g), p)
     /\ LET el == El(s0, p) IN NearM(Norm(0, Secs(x[4], x[5], x[6]), x[7]), el, ALM * 1000000)
DateOk(x) == Len(x) = 7 /\ Mod(x[1], 2000) /\ InYears(x[1]) /\ ValidDate(x[1], x[2], x[3])
             /\ InHms(From(x, 4), 24)
\* a = n sec us lat lon zone how; r = date(7) prev(3) start(3) next(3)
VAtInstant(e) ==
  LET a == e.a p == <<a[1], a[2], a[3]>> x == Sub(e.r, 1, 7)
      prev == Sub(e.r, 8, 10) st == Sub(e.r, 11, 13) nx == Sub(e.r, 14, 16)
  IN Ret(e, IF ~DateOk(x) THEN {"fields of the date"}
       ELSE IF ~SaneM(prev) \/ ~SaneM(st) \/ ~SaneM(nx) THEN {"shape of the instants"}
       ELSE C(InDay(p, x, prev, st, nx), "date of the instant")
       \cup C(AlmDay(p, x, a[4], a[5]), "day runs from sunset to sunset"))
DAtInstant(e) ==
  LET a == e.a p == <<a[1], a[2], a[3]>> x == Sub(e.r, 1, 7)
      prev == Sub(e.r, 8, 10) st == Sub(e.r, 11, 13)
  IN IF e.ok = 1 /\ DateOk(x) /\ SaneM(prev) /\ SaneM(st) /\ Beyond24(p, x, prev, st)
     THEN {"beyond-24-hours"} ELSE {}

(***************************** C11 *****************************)
LAT(v) == IF v = 999999 THEN 35682 ELSE v
LON(v) == IF v = 999999 THEN 51286 ELSE v
\* a = form y m d sec us lat lon
\* r = ts(3) start(3) next(3) later naive shape(date) time(4) shape(date)
VTs(e) ==
  LET a == e.a o == Ord(a[2], a[3], a[4]) lat == LAT(a[7]) lon == LON(a[8])
      t == Sub(e.r, 1, 3) st == Sub(e.r, 4, 6) nx == Sub(e.r, 7, 9)
      w == IF a[1] = 0 THEN 4 ELSE 6
      q == Sub(e.r, 12, 11 + w) tm == Sub(e.r, 12 + w, 15 + w) dd == From(e.r, 16 + w)
      same == DF(a[1], SubSeq(a, 2, 4))
      inside == LT(Plus(t, <<0, 0, TEN>>), nx) /\ a[5] < 86400 /\ (a[5] < 86399 \/ a[6] < 980000)
  IN Ret(e, IF ~SaneM(t) \/ ~SaneM(st) \/ ~SaneM(nx) \/ Len(e.r) # 15 + w + w THEN {"shape of the timestamps"}
       ELSE C(NearM(t, Plus(st, <<0, a[5], a[6]>>), TEN), "timestamp counts from the start of the day")
       \cup C(Mod(st[1] - 1721423 - o, 3) /\ Evening(st, o, lon), "day starts on its civil evening")
       \cup C(~ModernDay(o) \/ NearSun(st, o, lat, lon), "day starts at sunset")
       \cup C(IF ModernDay(o) THEN DayLenOk(st, nx) ELSE NearMissing(o) \/ DayLenOld(st, nx), "timestamps grow from day to day")
       \cup C(a[5] > 86397 \/ e.r[10] = 1, "timestamps grow within the day")
       \cup C(e.r[11] = 1, "naive datetime")
       \cup C(~inside \/ NearMissing(o) \/ (q = same /\ NearM(HmsM(tm), <<0, a[5], a[6]>>, TEN)), "datetime of its timestamp")
       \cup C(~inside \/ NearMissing(o) \/ dd = same, "date of the timestamp"))
\* a datetime asked for in the zone UTC is that of Greenwich (with three minutes to
\* spare for the known deviation beyond-24-hours)
AtGreenwich(p, u) == DateOk(u) /\
  NearM(Plus(AlmStart(Ord(u[1], u[2], u[3]), 51478, 0), <<0, Secs(u[4], u[5], u[6]), u[7]>>), p, 240000000)
\* a = n sec us lat lon
\* r = short(3) time(4) long(6) time(4) utc(3) time(4) date(4) longdate(6) prev(3) start(3) next(3)
VFromTs(e) ==
  LET a == e.a p == <<a[1], a[2], a[3]>> r == e.r
      x == Sub(r, 1, 7) l == Sub(r, 8, 17) u == Sub(r, 18, 24) d == Sub(r, 25, 28) ld == Sub(r, 29, 34)
      prev == Sub(r, 35, 37) st == Sub(r, 38, 40) nx == Sub(r, 41, 43)
  IN Ret(e, IF Len(r) # 43 \/ ~DateOk(x) THEN {"fields of the date"}
       ELSE IF ~SaneM(prev) \/ ~SaneM(st) \/ ~SaneM(nx) THEN {"shape of the timestamps"}
       ELSE C(NearMissing(Ord(x[1], x[2], x[3])) \/ InDay(p, x, prev, st, nx), "date of the timestamp")
       \cup C(~ModernDay(a[1] - 1721424) \/ AlmDay(p, x, LAT(a[4]), LON(a[5])), "day runs from sunset to sunset")
       \cup C(l = DF(1, SubSeq(x, 1, 3)) \o From(x, 4), "same datetime in every form")
       \cup C(~ModernDay(a[1] - 1721424) \/ AtGreenwich(p, u), "datetime in the zone UTC is that of Greenwich")
       \cup C(d = DF(0, SubSeq(x, 1, 3)) /\ ld = DF(1, SubSeq(x, 1, 3)), "date of the timestamp"))
DFromTs(e) ==
  LET a == e.a p == <<a[1], a[2], a[3]>> r == e.r
      x == Sub(r, 1, 7) prev == Sub(r, 35, 37) st == Sub(r, 38, 40)
  IN IF e.ok = 1 /\ Len(r) = 43 /\ DateOk(x) /\ SaneM(prev) /\ SaneM(st) /\ Beyond24(p, x, prev, st)
        /\ Sub(r, 8, 17) = DF(1, SubSeq(x, 1, 3)) \o From(x, 4) /\ (~ModernDay(a[1] - 1721424) \/ AtGreenwich(p, Sub(r, 18, 24)))
        /\ Sub(r, 25, 28) = DF(0, SubSeq(x, 1, 3)) /\ Sub(r, 29, 34) = DF(1, SubSeq(x, 1, 3))
     THEN {"beyond-24-hours"} ELSE {}
============================================================================
