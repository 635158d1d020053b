------------------------------ MODULE Almanac ------------------------------
(***************************************************************************)
(* Where the sun is and when it sets: the low-precision formulas of the    *)
(* Astronomical Almanac (sun to about 0.02 degrees), written down without  *)
(* looking at the library, in integers. Angles are thousandths of a        *)
(* degree, times are seconds. Days are named by the ordinal of the civil   *)
(* day (ordinal 730120 is 1 January 2000).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
SCALE == 40000
\* 40000 * sine of every quarter of a degree from 0 to 90
SineTab == <<
  0, 175, 349, 524, 698, 873, 1047, 1222, 1396, 1570, 1745, 1919, 2093, 2268, 2442, 2616,
  2790, 2964, 3138, 3312, 3486, 3660, 3834, 4008, 4181, 4355, 4528, 4701, 4875, 5048, 5221, 5394,
  5567, 5740, 5912, 6085, 6257, 6430, 6602, 6774, 6946, 7118, 7289, 7461, 7632, 7804, 7975, 8146,
  8316, 8487, 8658, 8828, 8998, 9168, 9338, 9507, 9677, 9846, 10015, 10184, 10353, 10521, 10690, 10858,
  11025, 11193, 11361, 11528, 11695, 11862, 12028, 12195, 12361, 12527, 12692, 12858, 13023, 13188, 13352, 13517,
  13681, 13845, 14008, 14172, 14335, 14498, 14660, 14822, 14984, 15146, 15307, 15468, 15629, 15790, 15950, 16110,
  16269, 16429, 16588, 16746, 16905, 17063, 17220, 17378, 17535, 17692, 17848, 18004, 18160, 18315, 18470, 18625,
  18779, 18933, 19086, 19240, 19392, 19545, 19697, 19849, 20000, 20151, 20302, 20452, 20602, 20751, 20900, 21049,
  21197, 21345, 21492, 21639, 21786, 21932, 22077, 22223, 22368, 22512, 22656, 22800, 22943, 23086, 23228, 23370,
  23511, 23652, 23793, 23933, 24073, 24212, 24350, 24489, 24626, 24764, 24901, 25037, 25173, 25308, 25443, 25578,
  25712, 25845, 25978, 26110, 26242, 26374, 26505, 26635, 26765, 26895, 27024, 27152, 27280, 27407, 27534, 27661,
  27786, 27912, 28036, 28161, 28284, 28407, 28530, 28652, 28774, 28895, 29015, 29135, 29254, 29373, 29491, 29609,
  29726, 29842, 29958, 30074, 30188, 30303, 30416, 30529, 30642, 30754, 30865, 30976, 31086, 31195, 31304, 31413,
  31520, 31628, 31734, 31840, 31945, 32050, 32154, 32258, 32361, 32463, 32565, 32666, 32766, 32866, 32965, 33064,
  33162, 33259, 33355, 33451, 33547, 33642, 33736, 33829, 33922, 34014, 34106, 34196, 34287, 34376, 34465, 34553,
  34641, 34728, 34814, 34900, 34985, 35069, 35153, 35236, 35318, 35400, 35480, 35561, 35640, 35719, 35797, 35875,
  35952, 36028, 36103, 36178, 36252, 36326, 36398, 36470, 36542, 36612, 36682, 36752, 36820, 36888, 36955, 37022,
  37087, 37152, 37217, 37280, 37343, 37405, 37467, 37528, 37588, 37647, 37706, 37764, 37821, 37877, 37933, 37988,
  38042, 38096, 38149, 38201, 38252, 38303, 38353, 38402, 38450, 38498, 38545, 38591, 38637, 38682, 38726, 38769,
  38812, 38854, 38895, 38935, 38975, 39014, 39052, 39089, 39126, 39162, 39197, 39231, 39265, 39298, 39330, 39362,
  39392, 39422, 39451, 39480, 39508, 39534, 39561, 39586, 39611, 39635, 39658, 39680, 39702, 39723, 39743, 39762,
  39781, 39799, 39816, 39832, 39848, 39863, 39877, 39890, 39903, 39914, 39925, 39936, 39945, 39954, 39962, 39969,
  39976, 39981, 39986, 39990, 39994, 39997, 39998, 40000, 40000 >>
Sine90(a) == LET i == a \div 250 j == a % 250 IN      \* 0 <= a <= 90000
  IF j = 0 THEN SineTab[i + 1]
  ELSE SineTab[i + 1] + ((SineTab[i + 2] - SineTab[i + 1]) * j + 125) \div 250
Sine(x) == LET a == x % 360000 IN
  CASE a <= 90000 -> Sine90(a)
    [] a <= 180000 -> Sine90(180000 - a)
    [] a <= 270000 -> -Sine90(a - 180000)
    [] OTHER -> -Sine90(360000 - a)
Cosine(x) == Sine(90000 - x)
RECURSIVE Bisect(_, _, _)
Bisect(v, lo, hi) == IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF SineTab[m] <= v THEN Bisect(v, m, hi) ELSE Bisect(v, lo, m)
\* the angle from -90 to 90 degrees whose sine is v / SCALE
ArcSine(w) ==
  LET v == IF w < 0 THEN -w ELSE w
      a == IF v >= SCALE THEN 90000
           ELSE LET i == Bisect(v, 1, 361)
                    up == SineTab[i + 1] - SineTab[i]
                IN (i - 1) * 250 + (IF up = 0 THEN 0 ELSE ((v - SineTab[i]) * 250) \div up)
  IN IF w < 0 THEN -a ELSE a

\* n days and f seconds after noon UT of 1 January 2000
Century(n) == n \div 36525
MeanLongitude(n, f) == (280460 + n * 985 + (n * 647) \div 1000 + (n * 36) \div 100000 + (f * 1141) \div 100000) % 360000
MeanAnomaly(n, f) == (357528 + n * 985 + (n * 600) \div 1000 + (n * 28) \div 100000 + (f * 1141) \div 100000) % 360000
Centre(n, f) == LET g == MeanAnomaly(n, f) IN ((1915 - 5 * Century(n)) * Sine(g) + 20 * Sine(2 * g)) \div SCALE
SunLongitude(n, f) == (MeanLongitude(n, f) + Centre(n, f)) % 360000
Obliquity(n) == 23439 - 13 * Century(n)
Declination(n, f) == ArcSine((Sine(Obliquity(n)) * Sine(SunLongitude(n, f))) \div SCALE)
\* apparent minus mean sun time, as an angle
EquationOfTime(n, f) == LET l == SunLongitude(n, f) IN
  -Centre(n, f) + ((2466 - 3 * Century(n)) * Sine(2 * l) - 53 * Sine(4 * l)) \div SCALE
\* hour angle of the centre at an altitude of the sine alt, which must be reached
DepthAngle(lat, dec, alt) ==
  LET num == alt - (Sine(lat) * Sine(dec)) \div SCALE
      den == (Cosine(lat) * Cosine(dec)) \div SCALE
  IN 90000 - ArcSine((num * SCALE) \div den)
\* the upper limb sets (50' below the horizon)
HourAngle(lat, dec) == DepthAngle(lat, dec, -582)
Sec(a) == (a * 6) \div 25                              \* a turn is a day
NoonOf(ord) == ord - 730120
SetAfterNoon(n, lat, lon, f) == Sec(HourAngle(lat, Declination(n, f)) - EquationOfTime(n, f) - lon)
\* seconds from midnight UT of civil day ord to the sunset of the local day
\* of the same name at the place (north and east positive)
Sunset(ord, lat, lon) ==
  LET n == NoonOf(ord)
      f1 == SetAfterNoon(n, lat, lon, 21600 - Sec(lon))
  IN 43200 + SetAfterNoon(n, lat, lon, f1)
\* noon, and the rise (way -1) or set (way 1) of the sun's centre at an altitude
Noon(ord, lon) == 43200 - Sec(EquationOfTime(NoonOf(ord), -Sec(lon)) + lon)
AtAltitude(ord, lat, lon, way, alt) ==
  LET n == NoonOf(ord)
      At(f) == Sec(way * DepthAngle(lat, Declination(n, f), alt) - EquationOfTime(n, f) - lon)
  IN 43200 + At(At(way * 21600 - Sec(lon)))
Sunrise(ord, lat, lon) == AtAltitude(ord, lat, lon, -1, -582)
============================================================================
