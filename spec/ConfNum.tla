------------------------------ MODULE ConfNum ------------------------------
(***************************************************************************)
(* What recorded conversions between numbers must have returned: Julian    *)
(* days and Gregorian dates (C13), days, angles and counts of seconds      *)
(* split into fields (C14). Values are whole seconds and small units, so   *)
(* that all arithmetic here is exact; "near" states the tolerance.         *)
(***************************************************************************)
EXTENDS ConfDates, BadiTime, Greg2

Mod(x, lim) == x > -lim /\ x < lim
\* <<sec, unit>> values with `per` units in a second, equal within tol units
NearS(p, q, per, tol) ==
  /\ Len(p) = 2 /\ Len(q) = 2
  /\ \A i \in 1..2 : Mod(p[i], 300000000) /\ Mod(q[i], 300000000)
  /\ Mod(p[1] - q[1], 1000)
  /\ Abs((p[1] - q[1]) * per + (p[2] - q[2])) <= tol
\* <<day, sec, us>> within tol us
NearM(p, q, tol) ==
  /\ Len(p) = 3 /\ Len(q) = 3
  /\ \A i \in 1..3 : Mod(p[i], 300000000) /\ Mod(q[i], 300000000)
  /\ Mod(p[1] - q[1], 3)
  /\ LET ds == (p[1] - q[1]) * 86400 + (p[2] - q[2]) IN
     Mod(ds, 1000) /\ Abs(ds * 1000000 + (p[3] - q[3])) <= tol
InHms(x, hmax) == /\ Len(x) = 4 /\ x[1] \in 0..hmax /\ x[2] \in 0..59 /\ x[3] \in 0..59
                  /\ x[4] >= 0 /\ x[4] <= 999999
HmsM(x) == IF Len(x) = 4 /\ Mod(x[1], 100000) /\ Mod(x[2], 100000) /\ Mod(x[3], 300000)
           THEN <<0, Secs(x[1], x[2], x[3]), x[4]>> ELSE <<BADINT, 0, 0>>
Shift(p, n) == IF Mod(p[1], 300000000) THEN <<p[1] + n, p[2], p[3]>> ELSE p

(***************************** C14 *****************************)
VDecDay(e) ==
  LET x == Sub(e.r, 1, 4) w == Sub(e.r, 5, 8) want == <<0, e.a[1], e.a[2]>>
  IN Ret(e, C(InHms(x, 24) /\ InHms(w, 24) /\ (x[1] = 24 => From(x, 2) = <<0, 0, 0>>), "fields of a day in range")
       \cup C(NearM(HmsM(x), want, 2000) /\ NearM(HmsM(w), want, 2000), "fields of a day add up"))
VDayHms(e) == Ret(e, C(NearM(e.r, <<0, Secs(e.a[1], e.a[2], e.a[3]), e.a[4]>>, 2), "fraction of the day"))
VDhms(e) ==
  LET tot == <<e.a[1] + 900 * e.a[3], e.a[2]>>
      one(x) == IF \A i \in 1..3 : Mod(x[i], 100000) THEN <<x[1] * 86400 + x[2] * 3600 + x[3] * 60 + (IF Mod(x[4], 300000) THEN x[4] ELSE BADINT \div 2), x[5]>> ELSE <<BADINT, 0>>
      x == Sub(e.r, 1, 5) w == Sub(e.r, 6, 10)
      ok(z) == /\ z[3] \in 0..59 /\ z[4] \in 0..59 /\ z[5] >= 0 /\ z[5] <= 999999 /\ z[2] <= 23
               /\ (tot[1] >= 0 => z[2] >= 0) /\ z[1] = (IF tot[1] >= 86400 THEN 1 ELSE 0)
  IN Ret(e, IF Len(e.r) # 10 THEN {"shape of the fields"}
            ELSE C(ok(x), "fields of a count of seconds in range")
            \cup C(NearS(one(x), tot, 1000000, 3) /\ NearS(one(w), tot, 1000000, 3), "fields of a count of seconds add up"))
VSdhms(e) == Ret(e, C(NearS(e.r, <<e.a[1] * 86400 + e.a[2] * 3600 + e.a[3] * 60 + e.a[4] + 900 * e.a[6], e.a[5]>>, 1000000, 2), "count of seconds of fields"))
VSmicro(e) == Ret(e, C(e.r = <<e.a[1], e.a[2]>>, "whole seconds and microseconds"))
\* a = seconds of arc, 1/10000 of them, negative?
VDms(e) ==
  LET z == e.a[1] = 0 /\ e.a[2] = 0
      neg == e.a[3] = 1 /\ ~z
      lat == e.s[1] \in {"LAT", "LATITUDE"}
      r == e.r
  IN Ret(e, IF Len(r) # 7 THEN {"shape of the fields"}
            ELSE C(r[1] \in 0..180 /\ r[2] \in 0..59 /\ r[3] \in -1..60 /\ Mod(r[4], 10001) /\ (r[3] = -1 => r[4] = 9999) /\ (r[3] = 60 => r[4] = 0)
                   , "degrees and minutes in range")
            \cup C(Mod(r[1], 1000) /\ Mod(r[2], 1000) /\ Mod(r[3], 10000) /\ NearS(<<r[1] * 3600 + r[2] * 60 + r[3], r[4]>>, <<e.a[1], e.a[2]>>, 10000, 1), "fields of an angle add up")
            \cup C(NearS(Sub(r, 5, 6), <<e.a[1], e.a[2]>>, 10000, 1), "angle put together again")
            \cup C(z \/ r[7] = (IF neg THEN -1 ELSE 1), "sign of the angle")
            \cup C(TA(e, 1) = (IF lat THEN (IF neg THEN "S" ELSE "N") ELSE IF neg THEN "W" ELSE "E"), "direction of the angle"))
\* the angle is twice a: hours minutes seconds of a turn; then half of the angle again
VHmsDeg(e) ==
  LET r == e.r
      \* 2 * arc seconds / 15 = seconds of time; compare 15 * t with 2 * a in 1/100000
  IN Ret(e, IF Len(r) # 6 THEN {"shape of the fields"}
            ELSE C(r[1] \in 0..24 /\ r[2] \in 0..59 /\ r[3] \in -1..60, "hours and minutes in range")
            \cup C(Mod(r[1], 100) /\ Mod(r[2], 100) /\ Mod(r[3], 1000) /\ Mod(r[4], 100000) /\
                   NearS(<<15 * (r[1] * 3600 + r[2] * 60 + r[3]), 15 * r[4]>>, <<2 * e.a[1], 20 * e.a[2]>>, 100000, 20), "hours of an angle add up")
            \cup C(NearS(Sub(r, 5, 6), <<e.a[1], e.a[2]>>, 10000, 1), "angle put together again"))
VFrac(e) ==
  LET w == e.a[1] want == <<0, Secs(e.a[2], e.a[3], e.a[4]), e.a[5]>> x == Sub(e.r, 1, 4)
  IN Ret(e, C(InHms(x, 23), "fields of a fraction in range")
       \cup C(NearM(HmsM(x), want, IF w = 0 THEN 100 ELSE 2), "fields of a fraction add up"))
\* k v r m d sec us: a day with a fraction
VKvym(e) ==
  LET a == e.a x == Sub(e.r, 1, 9) back == Sub(e.r, 10, 13) day == Sub(e.r, 14, 16) z == Sub(e.r, 17, 23)
      want == <<0, a[6], a[7]>>
  IN Ret(e, C(Sub(x, 1, 5) = SubSeq(a, 1, 5) /\ Sub(z, 1, 3) = <<Short(a[1], a[2], a[3]), a[4], a[5]>>, "date fields kept")
       \cup C(InHms(From(x, 6), 23) /\ InHms(From(z, 4), 23), "fields of a day in range")
       \cup C(NearM(HmsM(From(x, 6)), want, 2000) /\ NearM(HmsM(From(z, 4)), want, 2000), "fields of a day add up")
       \cup C(back = SubSeq(a, 1, 4) /\ NearM(day, <<a[5], a[6], a[7]>>, 50000), "fields put together again"))
VGymd(e) ==
  LET a == e.a x == Sub(e.r, 1, 7) w == Sub(e.r, 8, 14) back == Sub(e.r, 15, 16) day == Sub(e.r, 17, 19)
      want == <<0, a[4], a[5]>>
  IN Ret(e, C(Sub(x, 1, 3) = SubSeq(a, 1, 3) /\ Sub(w, 1, 3) = SubSeq(a, 1, 3), "date fields kept")
       \cup C(InHms(From(x, 4), 24) /\ InHms(From(w, 4), 24), "fields of a day in range")
       \cup C(NearM(HmsM(From(x, 4)), want, 2000) /\ NearM(HmsM(From(w, 4)), want, 2000), "fields of a day add up")
       \cup C(back = SubSeq(a, 1, 2) /\ NearM(day, <<a[3], a[4], a[5]>>, 2000), "fields put together again"))
\* a = how, number of fields, date, quarters of hour minute second, microsecond
VParts(e) ==
  LET a == e.a n == Len(a) k == n - 6 d == SubSeq(a, 3, k + 2) r == e.r
      sec4 == 3600 * a[n - 3] + 60 * a[n - 2] + a[n - 1]
      want == <<0, sec4 \div 4, (sec4 % 4) * 250000 + a[n]>>
  IN Ret(e, IF a[1] \in {0, 2}
       THEN IF Len(r) # k + 4 THEN {"shape of the fields"}
            ELSE C(Sub(r, 1, k) = d, "date fields kept")
            \cup C(InHms(From(r, k + 1), 23) /\ NearM(HmsM(From(r, k + 1)), want, 2000), "fields of a day add up")
       ELSE IF Len(r) # k + 2 THEN {"shape of the fields"}
            ELSE C(Sub(r, 1, k - 1) = Sub(d, 1, k - 1), "date fields kept")
            \cup C(NearM(Sub(r, k, k + 2), <<d[k], want[2], want[3]>>, IF a[1] = 3 THEN 50000 ELSE 2000), "fields put together again"))

(***************************** C13 *****************************)
VGjd(e) ==
  LET a == e.a y == a[1] m == a[2] d == a[3]
      day == IF a[7] = 1 THEN Exact(y, m, d) ELSE HistOf(y, m, d)
      t == IF a[6] = 2 THEN <<0, 0>> ELSE <<a[4], a[5]>>
  IN Ret(e, C(NearM(e.r, <<day, t[1], t[2]>>, 1000), "Julian day of a Gregorian date"))
\* a = y m d sec us; r = Julian day, y m day, y m d h mi s us: by the other rule for leap years
VGalt(e) ==
  LET a == e.a r == e.r day == AltExact(a[1], a[2], a[3])
      edge == a[4] = 0 \/ a[4] >= 86399
      at(x) == IF Mod(x[1], 10000) /\ x[1] >= 1 /\ x[2] \in 1..12 /\ x[3] >= 1 /\ x[3] <= 31
               THEN AltExact(x[1], x[2], x[3]) ELSE BADINT
  IN Ret(e, IF Len(r) # 15 THEN {"shape of the fields"}
       ELSE C(NearM(Sub(r, 1, 3), <<day, a[4], a[5]>>, 1000), "Julian day of a Gregorian date")
       \cup C((edge \/ Sub(r, 4, 6) = SubSeq(a, 1, 3)) /\ (edge \/ Sub(r, 9, 11) = SubSeq(a, 1, 3)), "Gregorian date of a Julian day")
       \cup C(NearM(Shift(<<0, r[7], r[8]>>, at(Sub(r, 4, 6))), <<day, a[4], a[5]>>, 2000)
              /\ NearM(Shift(HmsM(From(r, 12)), at(Sub(r, 9, 11))), <<day, a[4], a[5]>>, 2000), "time of a Julian day"))
VGback(e) ==
  LET n == e.a[1] sec == e.a[2] us == e.a[3] * 1000
      g == GFrom(IF e.a[4] = 1 THEN n - 1721423 ELSE n - 1721425)
      at(x) == IF Len(x) = 3 /\ Mod(x[1], 10000) /\ x[1] >= 1 /\ x[2] \in 1..12 /\ x[3] >= 1 /\ x[3] <= 32
               THEN (IF e.a[4] = 1 THEN Exact(x[1], x[2], x[3]) ELSE HistOf(x[1], x[2], x[3])) ELSE BADINT
      hms(x) == HmsM(From(x, 4))
      d3 == Sub(e.r, 3, 5)
      h == Sub(e.r, 6, 12) u == Sub(e.r, 13, 19)
      whole == <<n, sec, us>>
      edge == sec = 0 \/ sec >= 86399
      okd(x) == GValid(x[1], x[2], x[3]) /\ (edge \/ x = g)
  IN Ret(e, IF Len(e.r) # 20 THEN {"shape of the fields"}
       ELSE C(okd(Sub(h, 1, 3)) /\ okd(Sub(u, 1, 3)) /\ okd(<<e.r[1], e.r[2], e.r[3]>>), "Gregorian date of a Julian day")
       \cup C(NearM(<<at(<<e.r[1], e.r[2], e.r[3]>>), e.r[4], e.r[5]>>, whole, 1000), "time of day kept as a fraction")
       \cup C(InHms(From(h, 4), 24) /\ InHms(From(u, 4), 24), "fields of a day in range")
       \cup C(NearM(Shift(hms(h), at(Sub(h, 1, 3))), whole, 3000) /\ NearM(Shift(hms(u), at(Sub(u, 1, 3))), whole, 3000), "time of day kept")
       \cup C(edge \/ e.r[20] = g[1], "Gregorian year of a Julian day"))
VGbad(e) == Refuse(e, "impossible Gregorian date accepted")
\* the day with the same label in the historical reckoning, and back
VMeeus(e) ==
  LET n == e.a[1] sec == e.a[2] IN
  IF ~HasHist(n) THEN Refuse(e, "days dropped at the reform have no Julian day")
  ELSE Ret(e, C(NearM(Sub(e.r, 1, 3), <<Hist(n), sec, 0>>, 1000), "historical Julian day")
         \cup C(NearM(Sub(e.r, 4, 6), <<n, sec, 0>>, 1000), "back from the historical Julian day"))
============================================================================
