From 8580c8dcc16ebaa5c7f7ea2314907762f361423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 01/52] fix: let every day of the last supported year be
 converted from an ordinal

The upper Rata Die bound was the first day of MAXYEAR, so every later day of
that year (up to date.max) raised in fromordinal(), arithmetic and JD
conversions.
---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
-- 
2.43.0


From addda55e708b305f15e21dac3205e6735aeee671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 02/52] =?UTF-8?q?fix:=20convert=20days=20next=20to=20a=20m?=
 =?UTF-8?q?issing=20historical=20(Meeus)=20day=20to=20Bad=C3=AD'=20dates?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The sunsets found in _utc_to_badi_time were converted back through a table
that rejects the 12 skipped Julian leap days, so date.fromordinal() and
badi_date_from_jd() raised ValueError for 12 valid days.
---
 badidatetime/badi_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..54cae24 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -790,10 +790,12 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :rtype: float
         """
         def get_sunset(hist_jd, inc):
-            ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+            return self._sun_setting(hist_jd + inc, lat, lon) - diff
 
         hist_jd = self._meeus_from_exact(jd)
+        # The sunsets are converted back with the same difference as the JD,
+        # the neighboring historical (Meeus) day may not exist.
+        diff = round(hist_jd - jd)
         ss_prev = get_sunset(hist_jd, -1)
         ss_curr = get_sunset(hist_jd, 0)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
-- 
2.43.0


From 4de19546922e954abc0369f0272e4af00ccc45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 03/52] fix: compare and hash dates chronologically, in either
 form
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Ayyám-i-Há sorted before month 1, and long form dates were compared by
parts of the date only.
---
 badidatetime/datetime.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..d958a12 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -775,17 +775,19 @@ class date(BahaiCalendar):
         :rtype: int
         """
         assert isinstance(other, date)
+        return _cmp(self._cmp_key(), other._cmp_key())
 
-        if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
-        else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+    def _cmp_key(self) -> tuple:
+        """
+        Get a tuple that orders dates chronologically, whether they are in
+        the short or long form. Ayyám-i-Há (month 0) falls between months
+        18 and 19.
 
-        return _cmp(d0, d1)
+        :returns: The year, the position of the month in the year and the day.
+        :rtype: tuple
+        """
+        year, month, day = self._short_from_long_form()[:3]
+        return year, month if 0 < month < 19 else 19 + (month > 0), day
 
     def __hash__(self) -> int:
         """
@@ -795,7 +797,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._cmp_key())
 
         return self._hashcode
 
@@ -2397,10 +2399,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((*self._cmp_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (*other._cmp_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
@@ -2500,9 +2502,11 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((*t._cmp_key(), self.hour,
+                                       self.minute, self.second,
+                                       self.microsecond))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From 536d5385214f0b5669bed561672cf782d0fb8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 04/52] =?UTF-8?q?fix:=20unpickle=20Ayy=C3=A1m-i-H=C3=A1=20?=
 =?UTF-8?q?dates=20and=20times=20with=20hour=2024?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index d958a12..95e1a88 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -912,8 +912,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -1104,7 +1104,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F <= 24):
             # Pickle support
             if isinstance(hour, str):
                 try:
@@ -2534,8 +2534,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From 47b65a8bb7fd56a364623eaf52e5751f51202d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 05/52] fix: use the whole long form date in datetime.date(),
 isoformat() and str()

---
 badidatetime/datetime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 95e1a88..5b8d65d 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1994,7 +1994,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
@@ -2192,7 +2192,8 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        year, month, day = self._short_from_long_form()[:3]
+        s = (f"{year:04d}-{month:02d}-{day:02d}{sep}" +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
@@ -2253,7 +2254,7 @@ class datetime(date):
         else:
             ret = self._str_convertion()
             ret += f"{sep}{self.hour:02}:{self.minute:02}:{self.second:02}"
-            ret += f".{self.microsecond}" if self.microsecond else ""
+            ret += f".{self.microsecond:06}" if self.microsecond else ""
             off = self.utcoffset()
             tz = _format_offset(off)
 
-- 
2.43.0


From f3a394aa85560464a30bb0066693a20984cd7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/52] fix: count microseconds once in the timestamp of a
 naive datetime

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 5b8d65d..e20dfcc 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1961,7 +1961,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From 1c1a85383ef4ac6ba8d96db2a57bb7d4b93ee947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 07/52] fix: use the short form date in the timestamp of a long
 form datetime

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index e20dfcc..f624190 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1950,8 +1950,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
-                                             *LOCAL_COORD)
+        date = self._short_from_long_form()[:3]
+        return self.timestamp_from_badi_date(date + self.b_time, *LOCAL_COORD)
 
     def timestamp(self) -> float:
         """
-- 
2.43.0


From 578bdcad0dcd097bef165f243ae505fd219f448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 08/52] fix: keep zone, name and zoneinfo of each TZWithCoords
 to itself and through pickling

---
 badidatetime/datetime.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index f624190..4b53e76 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2910,8 +2910,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
@@ -2934,8 +2935,12 @@ class TZWithCoords(timezone):
         :returns: The class data.
         :rtype: tuple
         """
-        return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+        state = {"zone": self._coords[2], "key": self.key}
+
+        if hasattr(self, '_zi'):
+            state["zi"] = self._zi
+
+        return self.__class__, (self.lat, self.lon), state
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2950,7 +2955,12 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        if "zi" in state:
+            self._zi = state["zi"]
+
+        self.zone = zone
         self.key = key
+        self._name = None if key == "" else key
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From e10abaa467e92536308d2dffe75034b72ade8c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 09/52] fix: do not depend on the shared nutation cache after
 it was looked up

Another thread may change the cache between the look up and the return,
and the initial entry answered T=0 with no nutation.
---
 badidatetime/base_calendar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..ec8bacf 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -63,7 +63,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False), 'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
@@ -469,7 +469,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['lon'][1]
+        return lon_sum
 
     def _nutation_obliquity(self, tc: float, *, degrees: bool=False) -> float:
         """
@@ -481,7 +481,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :returns: The nutation of obliquity.
         :rtype: float
         """
-        tc_day, obj_sum, deg = self._nutation['obl']
+        tc_day, obl_sum, deg = self._nutation['obl']
 
         if tc != tc_day or degrees != deg:
             lon_sum, obl_sum = self._nutation_obliquity_longitude(
@@ -489,7 +489,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['obl'][1]
+        return obl_sum
 
     def _nutation_obliquity_longitude(self, tc: float, degrees: bool=False
                                       ) -> float:
-- 
2.43.0


From 2cd4f2e43b79e72206564622232929db75d5f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 10/52] fix: round fractional seconds to microseconds instead
 of truncating them

---
 badidatetime/base_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index ec8bacf..c30920b 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -39,7 +39,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
-    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: int(round(x % 1, 6) * 1e6)
+    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
+        round((x % 1) * 1e6), 999999)
 
     _MEAN_TROPICAL_YEAR = 365.2421897
     # MEAN_SIDEREAL_YEAR = 365.256363004
-- 
2.43.0


From 94fe580abb886d432337be6434e7bfe18b715aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 11/52] fix: cache the strptime regex under its own format
 string

---
 badidatetime/_strptime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..d3ce4c9 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -423,7 +423,7 @@ class StrpTime:
                     raise ValueError(f"stray %% in format '{self.format}'"
                                      ) from None
 
-                _regex_cache[format] = format_regex
+                _regex_cache[self.format] = format_regex
 
         found = format_regex.match(self.data_string)
 
-- 
2.43.0


From 2d826df41183ae4d1143594ed76de1f9b7bde5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 12/52] fix: strptime %u counts weekdays from 1

---
 badidatetime/_strptime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index d3ce4c9..a68461c 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -372,6 +372,11 @@ class StrpTime:
     def start(self):
         found, locale_time = self._find_regex()
         dot_dict = self._parse_found_dict(found, locale_time)
+
+        # The %u directive is 1 - 7, the weekday is 0 - 6 from here on.
+        if 'u' in found.groupdict():
+            dot_dict.weekday -= 1
+
         self._check_iso_week(dot_dict)
         self._miscellaneous(dot_dict)
         # Always returns a short form Badi date--for now.
-- 
2.43.0


From 6e1ebaca408e44fb3db79ed83be695423c33cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 13/52] fix: parse the minutes of negative ISO timezone offsets
 as negative

---
 badidatetime/_timedateutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..db84240 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1408,8 +1408,8 @@ class TimeDateUtils(BahaiCalendar):
             elif bc == 1 and tz_len == 1:
                 tz = timezone.badi
             else:
-                offset = [int(x) for x in tzstr[1:].split(':')]
-                offset[0] = offset[0] * -1 if nc else offset[0]
+                sign = -1 if nc else 1
+                offset = [int(x) * sign for x in tzstr[1:].split(':')]
                 offset += [0] if len(offset) == 1 else []
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
         else:
-- 
2.43.0


From de302039b8cf7632e26d4d315d1f5ba8c60749e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 14/52] fix: parse ISO dates of the years -999 to -1 as
 isoformat writes them

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index db84240..59ca42c 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1226,6 +1226,10 @@ class TimeDateUtils(BahaiCalendar):
 
         if dtstr != '':
             neg = dtstr[0] == '-'
+
+            if neg and dtstr[4:5] == '-':  # -YYY-MM-DD as isoformat writes it
+                dtstr = f"-0{dtstr[1:]}"
+
             year = int(dtstr[:4 + neg])
             assert _td_utils.MINYEAR <= year <= _td_utils.MAXYEAR, (
                 f"Year is out of range: {year}, min {_td_utils.MINYEAR}, "
-- 
2.43.0


From ad992cbef52c774de91c9c1dbbae14475512ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 15/52] fix: datetime.fromisoformat accepts a date without a
 time

---
 badidatetime/_timedateutils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 59ca42c..8db2d1a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -4,6 +4,7 @@
 #
 __docformat__ = "restructuredtext en"
 
+import re
 import time
 import locale
 import math
@@ -1186,11 +1187,16 @@ class TimeDateUtils(BahaiCalendar):
 
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
-        idx = find_index(dtstr, init_chars)
+
+        if re.fullmatch(r"-?\d{3,4}-(\d\d-\d\d|W\d\d(-\d)?|\d{3})", dtstr):
+            idx = len(dtstr)  # There is only a date.
+        else:
+            idx = find_index(dtstr, init_chars)
+
         str_date = dtstr[:idx]
         date = self._parse_isoformat_date(str_date) if str_date else ()
         str_other = dtstr[idx:]
-        tz_1st = str_other[0] in tz_chars
+        tz_1st = str_other[:1] in tz_chars
 
         if tz_1st:
             tz = (self._parse_isoformat_timezone(str_other)
-- 
2.43.0


From 904d79984bb05f422d656626f432f4edb52b966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 16/52] fix: reject ISO ordinal dates past the end of the year

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 8db2d1a..2ae3317 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1278,6 +1278,8 @@ class TimeDateUtils(BahaiCalendar):
             for month, ds in month_days:
                 if days <= ds: break
                 days -= ds
+            else:
+                raise ValueError(f"Invalid day of the year in {dtstr!r}.")
 
             date = (year, month, days)
         else:
-- 
2.43.0


From 88f477299cf9e06ab705876796dfeba86f7f6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 17/52] fix: reject week numbers outside 1 to 52 for every year
 in fromisocalendar

---
 badidatetime/_timedateutils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2ae3317..b8507fc 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1132,18 +1132,15 @@ class TimeDateUtils(BahaiCalendar):
 
         if not 0 < week < 52:  # We're looking for only the 53rd week.
             day_one = _td_utils._day_of_week(year, 1, 1) + 1
+            out_of_range = week != 52
 
-            if day_one in (3, 4):
-                out_of_range = True
+            if day_one in (3, 4) and week == 52:
+                # In Badí' years that have 52 weeks and start on the 3rd
+                # day (Kamál) or the 4th day (Fiḍāl).
+                # Badí' weeks start on Jalal (Saturday).
+                p_offset = 7
 
-                if week == 52:
-                    # In Badí' years that have 52 weeks and start on the 3rd
-                    # day (Kamál) or the 4th day (Fiḍāl).
-                    # Badí' weeks start on Jalal (Saturday).
-                    p_offset = 7
-                    out_of_range = False
-
-                assert not out_of_range, f"Invalid week: {week}"
+            assert not out_of_range, f"Invalid week: {week}"
 
         assert 0 < day < 8, f"Invalid weekday: {day} (range is [1, 7])"
         # Now compute the offset from (Y, 1, 1) in days:
-- 
2.43.0


From 2de4f9e05485df0041463c4ddc882012272a9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 18/52] fix: strftime %G is the ISO year

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index b8507fc..6477ee1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -442,6 +442,8 @@ class TimeDateUtils(BahaiCalendar):
         :rtype: str
         """
         year = self._get_year(ttup)
+        year, week, day = self._year_week_day(year, ttup.tm_mon,
+                                              ttup.tm_mday)
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 1dea45cfcecc18db2cf14d26e8ea3241f1eacb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 19/52] fix: give the UTC offset of UTC-aware datetimes in
 struct times and %z

---
 badidatetime/_structures.py    | 3 ++-
 badidatetime/_timedateutils.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 7e89a55..c542232 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -177,7 +177,8 @@ class struct_time:
                     date[-1] = 0
 
         offset = dt.utcoffset()
-        total_seconds = offset.total_seconds() if offset else None
+        total_seconds = (None if offset is None
+                         else offset.total_seconds())
 
         if tzinfo and hasattr(tzinfo, 'tzname'):
             tm_zone = tzinfo.tzname(dt)
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 6477ee1..79db887 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -807,7 +807,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         st = ""
 
-        if ttup.tm_gmtoff:
+        if ttup.tm_gmtoff is not None:
             n = '-' if ttup.tm_gmtoff < 0 else '+'
             h = abs(ttup.tm_gmtoff / 3600)
             hh = int(h)
-- 
2.43.0


From 1c21075e6a62293afb20b748e3fed873a86756c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 20/52] fix: jd_from_badi_date handles days next to a missing
 historical (Meeus) day

---
 badidatetime/badi_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 54cae24..dbcc787 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -202,10 +202,13 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
         jd0 = self._meeus_from_exact(jd)
+        # The sunset is converted back with the same difference as the JD, a
+        # neighboring historical (Meeus) day may not exist.
+        diff = round(jd0 - jd)
         coeff = self._get_day_coeff(year)
         jd0 += coeff
         jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        a_ss = jd_ss - diff
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
-- 
2.43.0


From 068367bda93f8394044e26e16d5c96eeeb1fba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 21/52] fix: strftime keeps the literal characters of the
 format

---
 badidatetime/_timedateutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 79db887..d34fcc9 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -891,7 +891,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i
+            elif ch != '%':  # A stray % at the end is dropped.
                 strf += ch
 
             idx += 1
@@ -910,7 +911,7 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and idx+1 < fmtlen:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
                 ch1 = format[idx+i]
@@ -921,6 +922,8 @@ class TimeDateUtils(BahaiCalendar):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From ea7344f7b2c209cf6eb4333e1d56f43e448354b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 22/52] fix: time <= rejects mixing naive and aware times like
 the other orderings

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 4b53e76..dc73867 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1204,7 +1204,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From 69372f44d5d0b82a5dd12b2ddde62b755e6a1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 23/52] fix: equal times at hour 24 hash equal

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index dc73867..32b3ec2 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1286,7 +1286,7 @@ class time:
                 assert not m % timedelta(minutes=1), "Must be a whole minute."
                 m //= timedelta(minutes=1)
 
-                if 0 <= h < 24:
+                if 0 <= h <= 24:
                     self._hashcode = hash(time(h, m, self.second,
                                                self.microsecond))
                 else:
-- 
2.43.0


From b0634960aa0658ecb5472fb0cebb17f2668ffd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 24/52] fix: reject dates outside the supported years -1842 to
 1161

---
 badidatetime/_timedateutils.py | 10 +++++++++-
 badidatetime/badi_calendar.py  |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index d34fcc9..4270f02 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1451,9 +1451,17 @@ class TimeDateUtils(BahaiCalendar):
         """
         if short_in:
             b_date = (a, b, c)
+            year = a
         else:
             b_date = (a, b, c, d, e)
-
+            year = (a - 1) * 361 + (b - 1) * 19 + c
+
+        # The calendar tables reach a year past both ends, dates do not.
+        assert (not short_in and not
+                (self.KULLISHAY_MIN <= a <= self.KULLISHAY_MAX)
+                or self.MINYEAR <= year <= self.MAXYEAR), (
+            f"Invalid year '{year}' it must be in the range of ["
+            f"{self.MINYEAR}, {self.MAXYEAR}].")
         self._check_valid_badi_date(b_date, short_in=short_in)
 
     def _check_time_fields(self, hour: int, minute: int, second: int,
diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index dbcc787..4b52897 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -648,8 +648,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         if not short_in:  # Long Badí' date
             kull_i_shay, vahid, year, month, day = b_date[:5]
             hour, minute, second, us = self._get_hms(b_date)
-            assert (self.KULLISHAY_MIN-1 <= kull_i_shay
-                    <= self.KULLISHAY_MAX+1), (
+            assert (self.KULLISHAY_MIN <= kull_i_shay
+                    <= self.KULLISHAY_MAX), (
                 f"Invalid kull-i-shay {kull_i_shay}, it must be in the range "
                 f"of [{self.KULLISHAY_MIN}, {self.KULLISHAY_MAX}].")
             assert 1 <= vahid < cycle, (
-- 
2.43.0


From babec89fe2aaf9879de9fd3bbbd596584058f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 25/52] =?UTF-8?q?fix:=20refuse=20a=20zero=20Kull-i-Shay=20?=
 =?UTF-8?q?or=20V=C3=A1=E1=B8=A5id=20when=20replacing=20fields=20of=20a=20?=
 =?UTF-8?q?short=20form=20date?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 32b3ec2..a6bf916 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -644,7 +644,7 @@ class date(BahaiCalendar):
         :returns: A date instance with replaced items.
         :rtype: date
         """
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
@@ -2055,7 +2055,7 @@ class datetime(date):
         if fold is None:  # pragma: no cover
             fold = self.fold
 
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
-- 
2.43.0


From 113924b8b5472c7d2c627f7c11f4d6f567a06743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 26/52] fix: repr of TZWithCoords gives its coordinates

---
 badidatetime/datetime.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a6bf916..344e8eb 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2928,6 +2928,20 @@ class TZWithCoords(timezone):
 
         return ret
 
+    def __repr__(self) -> str:
+        """
+        Convert to formal string, for repr().
+
+        :returns: A string that evaluates to an equal instance.
+        :rtype: str
+        """
+        if self is self.utc or self is self.badi:
+            return super().__repr__()
+
+        key = f", key={self.key!r}" if self.key != '' else ''
+        return (f"{_get_class_module(self)}.{self.__class__.__qualname__}"
+                f"({self.lat!r}, {self.lon!r}, {self.zone!r}{key})")
+
     def __reduce__(self) -> tuple:
         """
         Gather the class data for pickling.
-- 
2.43.0


From bb047eb9ab813eee0fe3ae809518ecc35b0a0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 27/52] fix: a fraction of an hour or minute never makes 60
 minutes or seconds

---
 badidatetime/base_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index c30920b..192bdb5 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -37,7 +37,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     # converting from a Julian Period day add 0.5 to the value before
     # calling the function.
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
-    _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
+    _PARTIAL_HOUR_TO_MINUTE = lambda self, x: min(
+        round((x % 1) * 60, 6), 59.999999)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
     _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
         round((x % 1) * 1e6), 999999)
-- 
2.43.0


From f741a75c441c300832e884075183e411ad6f6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 28/52] fix: a latitude spelled out in full gets the direction
 N or S

---
 badidatetime/base_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 192bdb5..82d4eb8 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1102,9 +1102,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         seconds = (abs(coord) - degrees - (minutes / 60)) * 3600
 
         if coord < 0:
-            direc = 'S' if direction == 'LAT' else 'W'
+            direc = 'S' if direction.startswith('LAT') else 'W'
         else:
-            direc = 'N' if direction == 'LAT' else 'E'
+            direc = 'N' if direction.startswith('LAT') else 'E'
 
         return degrees, minutes, seconds, direc
 
-- 
2.43.0


From f50b9347032e0ab759a6a7e4e4356ad77a4f34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 29/52] fix: dates at longitude 180 convert to the Julian day
 of the same day

---
 badidatetime/badi_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 4b52897..9e10c5e 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -207,7 +207,9 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         diff = round(jd0 - jd)
         coeff = self._get_day_coeff(year)
         jd0 += coeff
-        jd_ss = self._sun_setting(jd0, lat, lon)
+        # Use the local noon, at longitude 180 the noon in Greenwich is already
+        # in the next local day.
+        jd_ss = self._sun_setting(jd0 - lon / 360.0, lat, lon)
         a_ss = jd_ss - diff
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
-- 
2.43.0


From 3dcf79f7d3b319e4c23a2da5338a6261fc778d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 30/52] fix: date_from_kvymdhms counts microseconds as
 fractions of a second

---
 badidatetime/badi_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 9e10c5e..f253e71 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -400,8 +400,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         self._check_valid_badi_date(b_date)
         kull_i_shay, vahid, year, month, day = b_date[:5]
         hour, minute, second, us = self._get_hms(b_date)
-        day += round(self._HR(hour) + self._MN(minute) + self._SEC(second) +
-                     self._US(us), 6)  # Round to 6 decimal places
+        day += round(self._HR(hour) + self._MN(minute) + self._SEC(
+            second + self._US(us)), 6)  # Round to 6 decimal places
         date = (kull_i_shay, vahid, year, month, day)
         return (self.short_date_from_long_date(
             date, trim=True) if short else date)
-- 
2.43.0


From 995f57301832b722b5e6eba2dc9692cc6b8d558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 31/52] fix: both digits of the day count in the compact ISO
 date YYYYMMDD

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 4270f02..db5c1fb 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1256,7 +1256,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From 4fdf9678bf22c746d8ab3c4b1213827f4711990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 32/52] fix: refuse ISO dates with missing or surplus digits
 after the month

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index db5c1fb..b283d71 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1257,7 +1257,7 @@ class TimeDateUtils(BahaiCalendar):
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
             date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
-        elif dc == 2 and not wc:                 # YYYY-MM-DD
+        elif dc == 2 and d_len == 10 and not wc:  # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
         elif wc and 7 <= d_len <= 10:
-- 
2.43.0


From ac8c14ad620719494c14d963a9ec1338b8e29208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 33/52] fix: read compact ISO dates of negative years without a
 time as datetime

---
 badidatetime/_timedateutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index b283d71..c38db29 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1190,7 +1190,8 @@ class TimeDateUtils(BahaiCalendar):
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
 
-        if re.fullmatch(r"-?\d{3,4}-(\d\d-\d\d|W\d\d(-\d)?|\d{3})", dtstr):
+        if re.fullmatch(r"-?\d{3,4}-(\d\d-\d\d|W\d\d(-\d)?|\d{3})"
+                        r"|-\d{4}(\d{3,4}|W\d{3})", dtstr):
             idx = len(dtstr)  # There is only a date.
         else:
             idx = find_index(dtstr, init_chars)
-- 
2.43.0


From b5294cb3246e2516dced986d52d9495dc31e5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 34/52] fix: refuse ISO timezones whose fields are not two
 digits

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index c38db29..4e2a02a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1423,6 +1423,10 @@ class TimeDateUtils(BahaiCalendar):
             elif bc == 1 and tz_len == 1:
                 tz = timezone.badi
             else:
+                if not re.fullmatch(r"[+-]\d\d(:\d\d)?", tzstr):
+                    raise ValueError(
+                        f"Invalid timezone string, found {tzstr!r}")
+
                 sign = -1 if nc else 1
                 offset = [int(x) * sign for x in tzstr[1:].split(':')]
                 offset += [0] if len(offset) == 1 else []
-- 
2.43.0


From 0309fc1a5d175e4bc58dbf5c558b42ee8ea62200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 35/52] fix: refuse ISO dates whose digits and hyphens are
 misplaced

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 4e2a02a..c3838fc 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1288,6 +1288,10 @@ class TimeDateUtils(BahaiCalendar):
         else:
             date = ()
 
+        if date and not re.fullmatch(
+            r"\d{4}(\d{3,4}|-\d\d(\d|-\d\d)?|W\d\d\d?|-W\d\d(-\d)?)", dtstr):
+            raise ValueError(f"Invalid ISO date string, found {dtstr!r}.")
+
         return date
 
     def _parse_isoformat_time(self, tmstr: str) -> tuple:
-- 
2.43.0


From 73844ff6756c66986ffd5d583daf8a8bd7c1994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 36/52] fix: refuse ISO times whose digits and colons are
 misplaced

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index c3838fc..476b969 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1378,6 +1378,10 @@ class TimeDateUtils(BahaiCalendar):
         else:
             time = ()
 
+        if t_len > 1 and not re.fullmatch(
+            r"T\d\d(:\d\d(:\d\d)?|\d\d(\d\d)?)?(\.\d+)?", tmstr):
+            raise ValueError(f"Invalid time string, found {tmstr!r}")
+
         return time
 
     def _parse_isoformat_timezone(self, tzstr: str) -> tuple:
-- 
2.43.0


From a7a42c83f31f970987b64699b7cd0bc2b8fcc896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 37/52] fix: strftime %C truncates the century of negative
 years as documented

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 476b969..d0cff46 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -357,7 +357,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         n = '-' if year < 0 else ''
-        return f"{n}{abs(math.floor(year / 100)):02}"
+        return f"{n}{abs(year) // 100:02}"
 
     def d(self, ttup, org, mod):
         """
-- 
2.43.0


From 04c370fe165fe1db4ecfc0d6bf10e8ef331e1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 38/52] fix: strftime %D leaves the century of negative years
 out

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index d0cff46..c5aca16 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -399,7 +399,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         century = int(year / 100) * 100
-        year -= 0 if year < century else century
+        year -= century
         sep = self.date_format[0]
         data = []
 
-- 
2.43.0


From e75f00c6c1f9e20cd3c1f420767f7bd7eabf68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 39/52] fix: strftime %I gives the hours 1 to 12 that strptime
 reads

---
 badidatetime/_timedateutils.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index c5aca16..ba2dc99 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -489,14 +489,7 @@ class TimeDateUtils(BahaiCalendar):
         :returns: The hour (12-hour clock) as a zero-padded decimal number.
         :rtype: str
          """
-        midday_frac = self._find_midday(ttup)
-        time_frac = self._decimal_day_from_hms(ttup.tm_hour, ttup.tm_min,
-                                               ttup.tm_sec)
-
-        if midday_frac <= time_frac:
-            hour = ttup.tm_hour - 12
-        else:
-            hour = ttup.tm_hour
+        hour = ttup.tm_hour % 12 or 12
 
         if org == 'l' and mod == '-':
             st = f"{hour}"
-- 
2.43.0


From f99b890872e525fad8310f3c1718221209a986c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 40/52] fix: strftime %l pads the hours 10 to 12 no wider than
 two

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ba2dc99..1f15939 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -494,7 +494,7 @@ class TimeDateUtils(BahaiCalendar):
         if org == 'l' and mod == '-':
             st = f"{hour}"
         elif org == 'l':
-            st = f"{hour: 2}"
+            st = f"{hour:2}"
         else:  # %I
             st = f"{hour:02}"
 
-- 
2.43.0


From 47addc62ca8128248b53ef3e85ee2c4e373f716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 41/52] fix: strftime accepts the documented %w

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 1f15939..249f1e1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -21,7 +21,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From ebf9f06ee645dd60387962b950ee878b737c0c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 42/52] fix: strftime %:K writes one sign before a negative
 Kull-i-Shay

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 249f1e1..7974780 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -538,8 +538,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0


From 14541b44dfbb2f39cdb35f48c2af9bc0bf0decc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 43/52] fix: strftime %e pads the days 10 to 19 no wider than
 two

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 7974780..f9f04ec 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -373,7 +373,7 @@ class TimeDateUtils(BahaiCalendar):
         if mod == '-':
             st = f"{ttup.tm_mday}"
         else:
-            pad = ' ' if org == 'e' else 0
+            pad = '' if org == 'e' else 0
             st = f"{ttup.tm_mday:{pad}2}"
 
         return st
-- 
2.43.0


From 855f18f3af27e8ddcc51eab775aaaf914046befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 44/52] fix: midday is half a day also where the Julian day
 correction changes

---
 badidatetime/badi_calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index f253e71..cdc03f3 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -585,8 +585,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         jd = self.jd_from_badi_date(b_date)
         jd1 = self._meeus_from_exact(jd)
         ss0 = self._sun_setting(jd1, *self._GMT_LOCATION[:2])
-        jd2 = self._meeus_from_exact(jd + 1)
-        ss1 = self._sun_setting(jd2, *self._GMT_LOCATION[:2])
+        ss1 = self._sun_setting(jd1 + 1, *self._GMT_LOCATION[:2])
         ut_mid = (ss1 - ss0) / 2
         local_mid = self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
         return self._hms_from_decimal_day(local_mid) if hms else local_mid
-- 
2.43.0


From b278842ebfb80d1d853969d503808b87c12d92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 45/52] fix: local coordinates given as whole numbers are used

set_local_coordinates(35, -78) silently configured Tehran.
---
 badidatetime/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index d63b078..814e72f 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -53,8 +53,8 @@ def _get_local_coordinates() -> tuple | None:
     """
     offset, dst, key = _local_timezone_info()
 
-    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
-        and isinstance(_LOCAL_COORDS[1], float)):
+    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], (int, float))
+        and isinstance(_LOCAL_COORDS[1], (int, float))):
         lat = _LOCAL_COORDS[0]
         lon = _LOCAL_COORDS[1]
     elif _LOCAL_COORDS and _LOCAL_COORDS[2]:
-- 
2.43.0


From 5d78a69ca42cab8b6545b43c7c7450f244e008b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 46/52] fix: time tuples of the second fold show its offset and
 name

---
 badidatetime/_structures.py    | 13 ++++++++-----
 badidatetime/_timedateutils.py |  7 +++++--
 badidatetime/datetime.py       |  3 ++-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index c542232..41fdec8 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -89,13 +89,14 @@ class struct_time:
     Create a structure representing a Badí' date and time.
     """
 
-    def __new__(cls, date: tuple, tzinfo=None):
+    def __new__(cls, date: tuple, tzinfo=None, fold: int=0):
         """
         Creates a ShortFormStruct or LongFormStruct NamedTuple.
 
         :param tuple date: A tuple containing the data needed to create
                            a NamedTuple.
         :param tzinfo tzinfo: Timezone information or None.
+        :param int fold: The fold of the date and time.
         :returns: Instance object
         :rtype: ShortFormStruct or LongFormStruct
         """
@@ -110,10 +111,10 @@ class struct_time:
 
         if short:
             inst = ShortFormStruct(
-                *self.__fill_in_missing(date, tzinfo, short))
+                *self.__fill_in_missing(date, tzinfo, short, fold))
         else:
             inst = LongFormStruct(
-                *self.__fill_in_missing(date, tzinfo, short))
+                *self.__fill_in_missing(date, tzinfo, short, fold))
 
         return inst
 
@@ -142,7 +143,8 @@ class struct_time:
         return short
 
     @classmethod
-    def __fill_in_missing(cls, date: tuple, tzinfo, short: bool):
+    def __fill_in_missing(cls, date: tuple, tzinfo, short: bool,
+                          fold: int):
         """
         Fill in missing data.
 
@@ -151,6 +153,7 @@ class struct_time:
         :param bool short: If `True` then the date tuple represents a short
                            form Badí' date and time, if `False` date tuple
                            represents a long form Badí' date and time.
+        :param int fold: The fold of the date and time.
         :returns: The updated date tuple.
         :rtype: tuple
         """
@@ -162,7 +165,7 @@ class struct_time:
             b_date = date[:8]
 
         date = list(date)
-        dt = datetime.datetime(*b_date, tzinfo=tzinfo)
+        dt = datetime.datetime(*b_date, tzinfo=tzinfo, fold=fold)
 
         # Build out the tm_isdst, tm_zone and tm_gmtoff.
         if tzinfo:
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f9f04ec..af65eec 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1085,7 +1085,8 @@ class TimeDateUtils(BahaiCalendar):
         return self.badi_date_from_jd(jd0, short=short, trim=True, rtd=True)
 
     def _build_struct_time(self, date: tuple, dstflag: int, *, tzinfo=None,
-                           short_in: bool=False) -> NamedTuple:
+                           short_in: bool=False, fold: int=0
+                           ) -> NamedTuple:
         """
         Build either a ShortFormStruct or LongFormStruct struct_time.
 
@@ -1095,6 +1096,7 @@ class TimeDateUtils(BahaiCalendar):
                             and 0 when it is not. A value of -1 indicates
                             that this is not known.
         :param tzinfo tzinfo: If provided a tzinfo object.
+        :param int fold: The fold of the date and time.
         :returns: A struct_time object.
         :rtype: ShortFormStruct or LongFormStruct
         """
@@ -1106,7 +1108,8 @@ class TimeDateUtils(BahaiCalendar):
 
         wday = self._day_of_week(y, m, d)
         dnum = self._days_before_month(y, m) + d
-        return struct_time(date + (wday, dnum, dstflag), tzinfo=tzinfo)
+        return struct_time(date + (wday, dnum, dstflag), tzinfo=tzinfo,
+                           fold=fold)
 
     def _isoweek_to_badi(self, year: int, week: int, day: int, *,
                          short: bool=False) -> tuple:
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 344e8eb..223a5ec 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1941,7 +1941,8 @@ class datetime(date):
         """
         date = self.b_date + self.b_time[:3]
         return _td_utils._build_struct_time(date, -1, tzinfo=self.tzinfo,
-                                            short_in=self.is_short)
+                                            short_in=self.is_short,
+                                            fold=self.fold)
 
     def _mktime(self) -> float:
         """
-- 
2.43.0


From 5c85e40215d3d7f88d394a2aec71d848fa08d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:17 +0000
Subject: [PATCH 47/52] fix: microseconds of a count of seconds stay below a
 million

---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 82d4eb8..5ed18e8 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1211,7 +1211,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         sec = (seconds - hours * 3600) - minutes * 60
 
         if us:
-            sms = (math.floor(sec), int(round(sec % 1, 6) * 1e6))
+            sms = (math.floor(sec), self._PARTIAL_SECOND_TO_MICROSECOND(sec))
         else:
             sms = (sec,)
 
-- 
2.43.0


From ea3ff81a9962d24517ef18cf8255834533ea4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 48/52] fix: states of dates and datetimes given as strings are
 encoded before use

A pickled state that arrives as a latin1 string was checked but then used
unencoded, so unpickling raised TypeError.
---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 223a5ec..50681e2 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -260,7 +260,7 @@ class date(BahaiCalendar):
         if (short := date._is_pickle_data(a, b)) is not None:
             self = object.__new__(cls)
             self.__short = short
-            self.__setstate(a)
+            self.__setstate(a.encode('latin1') if isinstance(a, str) else a)
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
             date_len = len(b_date)
@@ -1629,7 +1629,8 @@ class datetime(date):
             self = object.__new__(cls)
             super().__init__(self)
             self.__short = short
-            self.__setstate(a, b)
+            self.__setstate(a.encode('latin1') if isinstance(a, str) else a,
+                            b)
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
             date_len = len(b_date)
-- 
2.43.0


From 94b657ce69bfdff123d0f54975767553f06cd9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 49/52] fix: refuse all three of fraction, us and rtd given
 together

_xor_boolean accepted any odd number of true values.
---
 badidatetime/base_calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 5ed18e8..3913101 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1623,8 +1623,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
                   else False.
         :rtype: bool
         """
-        count = sum(booleans)
-        return (count % 2 == 1) or (count == 0)
+        return sum(booleans) <= 1
 
     def _local_zone_correction(self, jd_ut: float, zone: float=None,
                                lon: float=None, *, inverse: bool=False,
-- 
2.43.0


From 5b220da6b35e7ebddd80aa965155f11e26c4130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 50/52] fix: rounding to a day gives a day that exists

The evening hours of the last day of a month were rounded to its day 20
(or 5, 6 of Ayyam-i-Ha); in the long form this raised an AssertionError.
---
 badidatetime/badi_calendar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index cdc03f3..c2b3217 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -255,6 +255,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         local_civil_day = math.floor(astro_ss + lon / 360.0 + 0.5)
         civil_epoch = math.floor(self.PROLEPTIC_GREG_1ST_DAY + 0.5)
         rd = local_civil_day - civil_epoch + 1
+
+        # The nearest day can be in the next month.
+        if rtd:
+            rd += round(frac)
+
         year = self._badi_year_from_rd(rd)
         year_start_rd = self._YEAR_START[year]
         doy = rd - year_start_rd + 1
@@ -273,7 +278,6 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         if fraction:
             b_date = year, month, round(day + frac, 6)
         elif rtd:
-            day = round(day + frac)
             b_date = year, month, day
 
             if not short:
-- 
2.43.0


From bbf5948d71a80b67dc0665283898c62c90a6313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 51/52] fix: a fraction on the last day of a month stays in the
 month

short_date_from_long_date, and with it date_from_kvymdhms(short=True),
turned the day 19.5 into day 18.5 of the next month.
---
 badidatetime/badi_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index c2b3217..0bd9220 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -342,7 +342,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             day += 1
             hh -= 1
 
-        if day > dm:
+        # The last day of a month may have a fraction.
+        if math.floor(day) > dm:
             if dm in (4, 5):
                 month = 19
                 day = 1
-- 
2.43.0


From 4f909da0c0e99916412acd3972f571c056b3d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 52/52] fix: the fraction of a day counts from its sunset

jd_from_badi_date dropped the fraction of a day less than a half and went
to the start of the next day for larger ones.
---
 badidatetime/badi_calendar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 0bd9220..e59991f 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -184,6 +184,10 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         self._check_valid_badi_date(b_date, short_in=True)
         year, month, day = b_date[:3]
         hh, mm, ss, us = self._get_hms(b_date, short_in=True)
+        # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
+        # It is the part of the day since sunset.
+        part_day = day % 1
+        day = math.floor(day)
 
         if month == 0:    # Ayyam-i-Ha
             days = 18 * 19
@@ -198,7 +202,6 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         if any([True if l is None else False for l in (lat, lon, zone)]):
             lat, lon, zone = self._BAHAI_LOCATION[:3]
 
-        # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
         jd0 = self._meeus_from_exact(jd)
@@ -212,7 +215,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         jd_ss = self._sun_setting(jd0 - lon / 360.0, lat, lon)
         a_ss = jd_ss - diff
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
-        return round(a_ss + day_frac, self._ROUNDING_PLACES)
+        return round(a_ss + part_day + day_frac, self._ROUNDING_PLACES)
 
     def badi_date_from_jd(self, jd: float, lat: float=None, lon: float=None,
                           zone: float=None, *, us: bool=False,
-- 
2.43.0

