------------------------------ MODULE SunWalk ------------------------------
(***************************************************************************)
(* Badi' days as spans of time from sunset to sunset at a place. A run     *)
(* starts with a Naw-Ruz and walks day by day, carrying the instant of the *)
(* last sunset; the place stays the same. Starts: ordinals; Places:        *)
(* <<latitude, longitude>>; Span: days per run.                            *)
(***************************************************************************)
EXTENDS Badi, Almanac
CONSTANTS Years, Places, Span, West
VARIABLES ord, place, at, len, k
vars == <<ord, place, at, len, k>>
YearsQ == {-258, 1, 100, 182, 600, 1100}
YearsT == {-258 + 41 * j : j \in 0..34}
PlacesQ == {<<35682, 51286>>, <<60000, -179900>>, <<-60000, 0>>}
PlacesT == {<<35682, 51286>>, <<0, 0>>, <<60000, -180000>>, <<60000, 0>>, <<-60000, 180000>>, <<-45000, 90000>>, <<51500, -74000>>}
NewYears == -258..1161
\* instants as <<civil day (UT midnight), second>>
StartOf(o, p) == LET s == Sunset(o, p[1], p[2]) IN <<o + (s \div 86400), s % 86400>>
Gap(p, q) == (q[1] - p[1]) * 86400 + (q[2] - p[2])
Init == \E y \in Years, p \in Places :
          /\ place = p /\ ord = YS(y) /\ k = 0
          /\ at = StartOf(YS(y), p)
          /\ len = Gap(StartOf(YS(y) - 1, p), StartOf(YS(y), p))
Next == /\ k < Span /\ k' = k + 1 /\ ord' = ord + 1 /\ UNCHANGED place
        /\ at' = StartOf(ord + 1, place)
        /\ len' = Gap(at, at')
Spec == Init /\ [][Next]_vars
\* the day begins in the afternoon or evening of its civil day at the place
Evening == LET s == Gap(<<ord, 0>>, at) + Sec(place[2]) IN s >= 50400 /\ s <= 81000
Length == len >= 85800 /\ len <= 87000
\* fifteen degrees further west the sun sets about an hour later
Westward == LET q == <<place[1], place[2] - 15000>> IN
            ~West \/ (Gap(at, StartOf(ord, q)) - 3600 \in -40..40)
\* the span of a day never overlaps the next one's
Order == len > 0
\* the sun crosses the equator during the first day of the year in Tehran
Equinox == place # <<35682, 51286>> \/ k # 0 \/
           /\ Declination(NoonOf(ord), 0) < 50
           /\ Declination(NoonOf(ord) + 2, 0) > -50
\* the sun rises, culminates and sets, noon about midway, and the later in the west
Course == LET r == Sunrise(ord, place[1], place[2]) m == Noon(ord, place[2]) s == Gap(<<ord, 0>>, at) IN
          /\ r < m /\ m < s /\ (r + s) \div 2 - m \in -240..240
          /\ m + Sec(place[2]) - 43200 \in -1100..1100
          /\ AtAltitude(ord, place[1], place[2], 1, 0) \in s - 900..s - 180
Bounded == LET d == Declination(NoonOf(ord), 0) e == EquationOfTime(NoonOf(ord), 0) IN
           d \in -23600..23600 /\ e \in -4700..4700
============================================================================
