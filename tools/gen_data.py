#!/opt/venv/bin/python
"""Writes spec/BadiData.tla: the reference tables of the specification.

YSTab is the frozen reference list of year starts (ordinal of 1 Baha of the
years -1843..1162).  It is committed; the checks never regenerate it.  EqTab is
computed here independently of the library (Meeus ch. 27 equinox, Espenak/Meeus
delta T, NOAA sunset for Tehran) and UHJ is the list published by the Universal
House of Justice (gregorian day of March on which 1 Baha of 172..221 falls).
"""
import math, sys
sys.path.insert(0, '/tmp/w')
from eq import equinox, dT, sunset_frac, YS
from badidatetime.badi_calendar import BahaiCalendar
lat, lon, _ = BahaiCalendar._BAHAI_LOCATION[:3]
def wrap(items, n=12):
    items = [str(i) for i in items]
    return ",\n    ".join(", ".join(items[i:i+n]) for i in range(0, len(items), n))
rows = []
for y in range(-260, 1163):
    g = y + 1843
    e = equinox(g) - dT(g + 2.5/12)/86400            # UT Julian date
    r = e - 1721424.5                                # fractional Rata Die, UT
    # Tehran civil day (local mean time) holding the equinox
    d = math.floor(e + lon/360 + .5) - .5
    s = sunset_frac(d, lat, lon)
    rd = int(round(d - 1721424.5))
    rows.append((rd, round((e-d)*1440), round((s-d)*1440)))
import datetime as D
sys.path.insert(0, '/repo/contrib/misc')
src = open('/repo/contrib/misc/determine_lat_lon.py').read()
import re
i = src.index('WC_DATA'); j = src.index(')', src.index('221', i)) if '221' in src[i:] else 0
seg = src[i:]
pairs = re.findall(r'\((\d+), \(\d+, 3, (\d+)\), \(', seg)
uhj = {int(a): int(b) for a, b in pairs}
print(len(uhj), uhj)
out = open('/verif/spec/BadiData.tla', 'w')
out.write("""---- MODULE BadiData ----
EXTENDS Integers
(* Reference tables; generated once by tools/gen_data.py and committed.     *)
(* YSTab[y + 1844]: ordinal of the first day of year y, y in -1843..1162.    *)
(* EqTab[y + 261]: <<d, q, s>> for y in -260..1162: Tehran civil day (as an  *)
(*   ordinal) of the vernal equinox, minute of that day of the equinox and   *)
(*   minute of that day of sunset in Tehran, computed independently.         *)
(* UhjTab[y - 171]: ordinal of the evening on which the published Naw-Ruz of *)
(*   year y, 172..221, begins.                                               *)
""")
out.write("YSTab == <<\n    %s>>\n" % wrap([YS[y] for y in range(-1843, 1163)]))
out.write("EqTab == <<\n    %s>>\n" % wrap(["<<%d,%d,%d>>" % r for r in rows], 5))
out.write("UhjTab == <<\n    %s>>\n" % wrap([D.date(y+1843, 3, uhj[y]).toordinal() for y in range(172, 222)]))
out.write("====\n")
