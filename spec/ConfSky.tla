------------------------------ MODULE ConfSky ------------------------------
(***************************************************************************)
(* What calls about the sun's course through a day and a year must have    *)
(* returned (C30): rise, noon and set of a day at a place, the length of   *)
(* the Badi' day, the moments of the four seasons.                         *)
(***************************************************************************)
EXTENDS ConfSun

\* a = ordinal of the civil day, latitude, longitude, depth of the sun's centre
\* below the horizon (833: the ordinary rise and set), all in thousandths;
\* r = rise, noon, set in seconds after midnight UT of that day, and the
\* length of the Badi' day that starts with this sunset
SKY == 60
VSky(e) ==
  LET a == e.a r == e.r alt == IF a[4] = 833 THEN -582 ELSE -Sine(a[4])
      up == AtAltitude(a[1], a[2], a[3], -1, alt)
      down == AtAltitude(a[1], a[2], a[3], 1, alt)
      mid == Noon(a[1], a[3])
      later == Sunset(a[1] + 1, a[2], a[3]) + 86400 - Sunset(a[1], a[2], a[3])
  IN Ret(e, IF ~(Len(r) = 4 /\ \A i \in 1..4 : Mod(r[i], 1000000)) THEN {"shape of the sun's course"}
            ELSE C(Mod(r[1] - up, SKY + 1), "the sun rises as the almanac has it")
            \cup C(Mod(r[2] - mid, SKY + 1), "noon as the almanac has it")
            \cup C(Mod(r[3] - down, SKY + 1), "the sun sets as the almanac has it")
            \cup C(r[1] < r[2] /\ r[2] < r[3], "rise, noon and set in order")
            \cup C(Mod(r[4] - later, 30), "length of the day from sunset to sunset"))

\* a = Gregorian year, season (0 spring, 1 summer, 2 autumn, 3 winter), zone in
\* quarters of an hour; r = the moment in UT, in the zone, a year later and at
\* the next season, each <<day, second, microsecond>>, the day as in the
\* historical reckoning at midnight
VSeason(e) ==
  LET a == e.a r == e.r
      here == Sub(r, 1, 3) zoned == Sub(r, 4, 6) year == Sub(r, 7, 9) next == Sub(r, 10, 12)
      lon == SunLongitude(here[1] - 1721425 - 730120, here[2] - 43200)
      off == ((lon - 90000 * a[2] + 180000) % 360000) - 180000
      y == El(here, year)
      g == GFrom(here[1] - 1721425)
      q == El(here, next)
  IN Ret(e, IF ~(Len(r) = 12 /\ \A i \in 1..4 : SaneM(Sub(r, 3 * i - 2, 3 * i))) THEN {"shape of the seasons"}
            ELSE C(Mod(off, 80), "the sun stands where the season begins")
            \cup C(g[1] = a[1], "the season of that year")
            \cup C(NearM(zoned, Norm(here[1], here[2] + 900 * a[3], here[3]), 1000), "the season in a zone")
            \cup C(y[1] = 365 /\ y[2] \in 20926 - 2400..20926 + 2400, "a year from season to season")
            \cup C(q[1] \in 88..94, "the next season"))
=============================================================================
