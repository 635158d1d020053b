#!/usr/bin/env python3
"""Source of properties.jsonl: run it to rewrite the file."""
import json, os
H = "histories"; I = "inputs"; S = "schedules"; C = "configurations"; P = "programs"
DT, TU, BC = "badidatetime/datetime.py", "badidatetime/_timedateutils.py", "badidatetime/badi_calendar.py"
BASE, GC, CO = "badidatetime/base_calendar.py", "badidatetime/gregorian_calendar.py", "badidatetime/_coefficients.py"
ST, SP, IN = "badidatetime/_structures.py", "badidatetime/_strptime.py", "badidatetime/__init__.py"
AT = "badidatetime/_astronomical_terms.py"
R = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    R.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=None)))

p("C01", "Every supported day has exactly one ordinal and every ordinal one day",
  "Going through the supported years -1842 to 1161 day by day - months 1 to 18 of 19 days, then Ayyám-i-Há (month 0), then month 19 - the ordinal of the date grows by exactly one per day, starting at 78 and ending at 1097267. "
  "Turning an ordinal into a date gives back that very day, in short form and in long form alike, and ordinals outside that range are refused with an error.",
  [I], "every day of the 3004 supported years (1.1 million), as a short or long form date or datetime",
  "The tests convert a few dozen dates; the table of year starts, the place of Ayyám-i-Há, and the reform gap each make single years or days special.",
  [DT, TU, BC], [("_ymd2ord/_ord2ymd", TU), ("_badi_year_from_rd, jd_from_badi_date, badi_date_from_jd", BC), ("toordinal/fromordinal", DT)],
  [("_YEAR_START", "ordinal of the first day of each year", BC)], ["date.toordinal", "date.fromordinal", "datetime.toordinal"])
p("C02", "The year starts on the day of the vernal equinox as reckoned in Tehran",
  "Each year starts on the day, counted from sunset to sunset in Tehran, in which the vernal equinox falls: for the years 172 to 221 this is the published list of the Universal House of Justice, and for all other years since the Gregorian reform it agrees with an independent computation of equinox and sunset wherever these are at least an hour apart. "
  "A year has 365 or 366 days and Ayyám-i-Há has a fifth day exactly when the next year starts 366 days later; the Gregorian date given for Naw-Rúz and for the first day of Riḍván (12 + 19 days later) names the same days.",
  [I], "every supported year",
  "Tests sample tens of years against values the code itself produced; nothing ties the 3004 year starts to the equinox.",
  [BC, CO, TU], [("_build_badi_year_start, _is_leap_year, naw_ruz_g_date, first_day_of_ridvan_g_date", BC), ("_get_day_coeff", CO)],
  [("_YEAR_START", "ordinal of the first day of each year", BC)], ["date(y,1,1).toordinal", "naw_ruz_g_date", "date(y,0,5)"])
p("C03", "Long form and short form name the same day, one to one",
  "Every supported date has exactly one long form (Kull-i-Shay, Váḥid, year of the Váḥid, month, day) with Váḥid and year from 1 to 19, in which the year counts through 19-year Váḥids and 361-year Kull-i-Shays; converting short to long and back, or long to short and back, changes nothing, including years 0 and below. "
  "A time of day carried along with the date is carried over unchanged, and all accessors, ordinals, weekdays and conversions give the same answer for both forms.",
  [I], "every supported year and date in both forms, with and without a time of day",
  "Tests use a handful of dates around years 1-200; the arithmetic differs at each Váḥid and Kull-i-Shay boundary and for negative years.",
  [BC, DT], [("long_date_from_short_date, short_date_from_long_date", BC), ("_short_from_long_form", DT)], [],
  ["short_date_from_long_date", "long_date_from_short_date", "fromordinal(short=False)", "date/datetime accessors"])
p("C04", "Weekdays and days of the year run through without a break",
  "The weekday advances by one from each day to the next through all month, Ayyám-i-Há, year, Váḥid and epoch boundaries, in step with the seven-day week of the Gregorian calendar (Jalál begins on Friday evening and is the first day of the week). "
  "The day of the year is 1 on the first day of a year, grows by one each day through Ayyám-i-Há, and is 365 or 366 on the last; weekday(), isoweekday(), ctime(), time tuples and formatted text all agree on both.",
  [I], "every supported day, in both forms, as date and datetime",
  "Tests check some tens of dates, mostly in common years of the modern era.",
  [DT, TU, ST], [("_day_of_week, _days_before_month, _build_struct_time", TU), ("weekday, isoweekday, timetuple, ctime", DT)], [],
  ["weekday()", "isoweekday()", "timetuple().tm_wday/tm_yday", "strftime %j %u %a"])
p("C05", "ISO-style weeks partition the days and convert both ways",
  "Every day belongs to exactly one (week year, week, weekday) with weekdays 1 to 7 from Jalál to Istiqlál, weeks that start on Jalál, and week 1 the week holding at least four days of its year; consecutive days advance this triple in order. "
  "Building a date from such a triple gives the day it came from, and triples with weekday outside 1-7 or a week number outside the year are refused.",
  [I], "every supported day and every (year, week, weekday) triple",
  "Week 52/53 and years starting on each weekday, leap or not, around negative years are combinations the tests sample only a few of.",
  [TU, DT], [("_isoweek_to_badi, _isoweek1jalal, _year_week_day", TU), ("isocalendar, fromisocalendar", DT)], [],
  ["isocalendar()", "fromisocalendar()", "fromisoformat('YYYY-Www-D')", "strftime %G %V %u"])
p("C06", "Dates compare and hash in calendar order, whatever their form",
  "For any two dates, in short or long form, exactly one of before, equal and after holds and it agrees with the order of the days in the calendar, with Ayyám-i-Há after month 18 and before month 19. "
  "All six comparison operators agree with each other, equal dates hash equal, and comparing a date with something that is not a date, or with a datetime, is unequal and not orderable.",
  [I], "all pairs of supported dates in either form",
  "Pairs that straddle Ayyám-i-Há, mix forms or use negative years are not covered by the few pairs tests compare.",
  [DT], [("_cmp, _cmp_key, __hash__", DT)], [], ["== != < <= > >=", "hash()", "set/dict/sorted"])
p("C07", "Adding days to a date and subtracting dates count calendar days",
  "Adding or subtracting a number of days moves a date by exactly that many days of the calendar and keeps its form; the difference of two dates is the number of days between them, so (a + n) - a = n and a + (b - a) = b. "
  "Results outside the supported years raise OverflowError, and hours, minutes and seconds of the duration are ignored for pure dates.",
  [I], "all supported dates and all durations",
  "Tests add a few small durations; crossing Ayyám-i-Há, leap years and the ends of the supported range needs every combination.",
  [DT, TU], [("__add__, __sub__", DT), ("_ord2ymd", TU)], [], ["date + timedelta", "date - timedelta", "date - date"])
p("C08", "Naive datetime arithmetic and comparison are exact to the microsecond",
  "Adding a duration to a naive datetime and subtracting one naive datetime from another behave as arithmetic on a line of 24-hour days counted in microseconds: the results are exact, carries run through microsecond, second, minute, hour, day, Ayyám-i-Há and year, and the form (short or long) is kept. "
  "Comparison, equality and hashing of naive datetimes follow that same line for hours 0 to 23, and leaving the supported years raises OverflowError.",
  [I], "all naive datetimes in either form and all durations, including negative and sub-second ones",
  "Carry chains of length six and borrow across Ayyám-i-Há are single points in a huge space.",
  [DT], [("datetime.__add__, __sub__, _cmp, __hash__", DT)], [], ["datetime + timedelta", "datetime - datetime", "comparison operators", "hash"])
p("C09", "Aware datetimes compare, subtract and hash by the instant they denote",
  "Two aware datetimes compare and subtract by the instant (local time minus UTC offset) they denote, whatever zones and forms they are written in; adding a duration keeps the zone and moves the local time by exactly that duration. "
  "Equal aware datetimes hash equal, the timestamp of an aware datetime counts the seconds of that instant from the library's epoch 0126-16-02T07:59:32.4924 UTC, an aware and a naive datetime are never equal and cannot be ordered or subtracted, and two datetimes sharing one zone object compare by their local fields.",
  [I], "all pairs of aware/naive datetimes, all whole-second and sub-second offsets strictly between -24 h and 24 h",
  "Offsets that move the UTC date across Ayyám-i-Há or the year end are not among the few pairs tested.",
  [DT], [("datetime._cmp, __sub__, __hash__, __add__", DT), ("timezone.utcoffset", DT)], [], ["comparison operators", "-", "hash"])
p("C10", "Fixed-offset time zones keep, name and bound their offset",
  "A fixed-offset time zone reports exactly the offset it was built from for every datetime, equals and hashes like every other zone of that offset, and is named by its given name or by UTC, UTC+HH:MM or UTC-HH:MM[:SS[.ffffff]] of that offset; offsets of 24 hours or more and arguments of wrong type are refused. "
  "Converting from UTC adds the offset exactly, and a datetime or time reports the offset, name and daylight saving of its zone. badioffset() is the offset less that of Tehran (3:30).",
  [I], "all offsets to the microsecond, with and without names",
  "Tests use a few whole-hour and half-hour offsets.",
  [DT], [("class timezone, _name_from_offset, fromutc, _check_offset, _format_offset", DT)], [], ["utcoffset", "tzname", "str", "==", "hash", "fromutc"])
p("C11", "Timestamps of naive datetimes convert back to the same moment",
  "The timestamp of a naive datetime grows strictly with time of day and from day to day, and for times of day before the next sunset the datetime built from it is the same to within 10 milliseconds, in either form; microseconds count once and a day's timestamps span the time between that day's sunsets. "
  "Building a date or datetime from successive timestamps never goes back in time and gives the day whose sunset-to-sunset span holds the instant.",
  [I], "all supported naive datetimes and all timestamps in the supported years",
  "Only a dozen timestamps are tested, all with expected values copied from the code's output.",
  [DT, BC], [("_fromtimestamp, _mktime, timestamp", DT), ("badi_date_from_timestamp, timestamp_from_badi_date, _utc_to_badi_time", BC)], [],
  ["datetime.timestamp", "datetime.fromtimestamp", "date.fromtimestamp"])
p("C12", "Badí' dates, Julian days and Gregorian dates convert into each other and back",
  "Converting a Badí' date with a time of day to a Julian day or a Gregorian date and back gives the same date and time to within a hundredth of a second (some minutes next to the historical days missing from the Julian Period), for every time of day before the next sunset and any place between 60 degrees north and south; consecutive Badí' days map to consecutive Julian days. "
  "The Gregorian date of a Badí' day is the civil date on whose evening that day begins at the place.",
  [I, C], "all supported days since the Gregorian reform and all structural days before, at many places and times of day",
  "A few dozen dates at a few places are tested, with expected values copied from the code.",
  [BC, BASE, GC], [("jd_from_badi_date, badi_date_from_jd, badi_date_from_gregorian_date, gregorian_date_from_badi_date", BC), ("_meeus_from_exact, _exact_from_meeus", BASE)], [],
  ["badi_date_from_gregorian_date", "gregorian_date_from_badi_date", "jd_from_badi_date", "badi_date_from_jd"])
p("C13", "Gregorian dates and Julian days convert both ways without gaps or repeats",
  "Under the library's proleptic (exact) reckoning, consecutive Gregorian dates get consecutive Julian days, with 1 January 2000 at noon being the library's reference day, and converting a Julian day back gives the same date and time of day to within a few milliseconds. "
  "From 1583 on, the historical (Meeus) reckoning gives the same civil dates its standard Julian day, 29 February exists exactly in Gregorian leap years, and impossible dates are refused; a day's historical Julian day and its proleptic one convert into each other, each date keeping its name. The same conversions with the other rule for leap years (the option alt: every fourth year but not every 128th) give the day that rule gives and come back to the same date and time.",
  [I], "all Gregorian dates of the years 1 to 3005, with any time of day",
  "Tests list some dozens of dates.", [GC, BASE],
  [("jd_from_gregorian_date, gregorian_date_from_jd, date_from_ymdhms, ymdhms_from_date", GC), ("_days_in_years, _meeus_from_exact, _exact_from_meeus", BASE)], [],
  ["jd_from_gregorian_date", "gregorian_date_from_jd"])
p("C14", "Splitting a day or an angle into hours, minutes and seconds loses nothing",
  "Splitting a decimal day, a number of seconds or a decimal angle into days, hours or degrees, minutes, seconds and microseconds yields fields within their ranges that add up to the original - to within a microsecond for seconds, two milliseconds for a fraction of a day, a tenth of a milli-arcsecond for angles - with the sign or direction kept, and recombining the fields, whether all or only the first of them are given, gives the original value (a Badí' day with a fraction to within 50 milliseconds). "
  "Fractions of an hour, minute or second given to a datetime are spread over the smaller fields in the same way, to within 0.1 milliseconds.",
  [I], "all fractions of a day, all angles from -180 to 180 degrees, all second counts within two days",
  "Floating-point carry at the field boundaries happens only at special values.",
  [BASE, GC, BC], [("_hms_from_decimal_day, _decimal_day_from_hms, _dhms_from_seconds, _seconds_from_dhms, _dms_from_decimal, _decimal_from_dms, _hms_from_degrees, _sec_microsec_from_seconds", BASE), ("kvymdhms_from_b_date, date_from_kvymdhms", BC), ("ymdhms_from_date, date_from_ymdhms", GC)], [],
  ["conversion methods of the calendar classes", "datetime constructor with fractions"])
p("C15", "ISO text written by dates and datetimes reads back as the same value",
  "isoformat() writes year-month-day (month 00 for Ayyám-i-Há) and for datetimes the separator, time, microseconds when not zero and offset, for every supported value, long form dates being written as their short form; the compact, week and day-of-year spellings of the same day, with or without time (also with a decimal fraction of the last field) and whole-minute offset, all read back as the same date, time and offset (fractions of an hour to a microsecond). "
  "Text with a field out of range for that year, month or week, or with a wrong separator or length, is refused with an error.",
  [I], "all supported dates, times to the microsecond, offsets in whole minutes, all spellings",
  "Tests parse some dozens of strings; parsers fail at digits, signs and widths that are rarely written.",
  [DT, TU], [("isoformat, _dt_str_conversion, fromisoformat", DT), ("_parse_isoformat_date, _parse_isoformat_time, _parse_isoformat_timezone", TU)], [],
  ["isoformat", "str", "fromisoformat"])
p("C16", "Formatted text states the fields of the date",
  "For every date and datetime and every format, strftime() (and format()) copies literal text unchanged and replaces each directive by the field it names - year, month, day, day of year, weekday and month names, hour on both clocks, minute, second, microsecond, week numbers, ISO year and week, UTC offset and zone name - with the padding the directive documents. "
  "Short and long forms give the same text for the same moment, apart from %c, which writes the year in the form of the value. What is no format - an empty one, an unknown directive or a modifier the directive does not have - is refused.",
  [I], "all supported values in both forms and all formats made of the documented directives and literals",
  "Each directive is tested on one or two dates and hardly in combination with literals or other directives.",
  [TU, DT], [("TimeDateUtils.strftime and its directive methods, _wrap_strftime, _check_format", TU)], [], ["strftime", "__format__", "ctime"])
p("C17", "strptime is the inverse of strftime",
  "Parsing text with the format it was written with gives back the same date, time to the microsecond and offset, for every format that determines them; day-of-year and ISO-week formats work as well as month-day formats. "
  "Formats on the 12-hour clock determine the hour except within three minutes of midday. Month, day and year that are stated without the others are kept. Text that does not match its format is refused with ValueError, and the result depends only on the text and the format, not on formats parsed before.",
  [I, H], "all supported values, all determining formats, any sequence of earlier parses",
  "Tests parse some dozens of strings, each mostly from a fresh cache.",
  [SP, DT], [("StrpTime, TimeRE, _find_regex, _parse_found_dict", SP)], [("_regex_cache", "compiled formats", SP)], ["datetime.strptime"])
p("C18", "Pickling and copying preserve every value",
  "Pickling a date, time, datetime, time zone, ISO calendar triple or time structure with any protocol and loading it, or copying it shallowly or deeply, gives an equal value with the same form, fields, zone, name and hash, of the same class (an ISO triple becomes a plain tuple), and with the same fold for copies and pickle protocols from 4 on. "
  "This holds for all supported years including negative ones, Ayyám-i-Há and hour 24, and for states handed over as latin1 strings.",
  [I], "all values of these classes, all pickle protocols",
  "Each class is pickled for a few values; the byte encoding differs by year sign, form and month 0.",
  [DT, ST], [("_getstate, __setstate, _is_pickle_data, __reduce_ex__", DT)], [], ["pickle.dumps/loads", "copy.copy/deepcopy"])
p("C19", "Only dates and times that exist can be made",
  "A date can be constructed exactly when its year is from -1842 to 1161, its month from 0 to 19 and its day within that month of that year (19 days, or the 4 or 5 days of Ayyám-i-Há), and in long form its Váḥid and year from 1 to 19 as well; a time exactly when its hour is 0 to 24, minute 0 to 59, second 0 to 60, microsecond 0 to 999999 and fold 0 or 1. "
  "The calendar's own conversions take a date with a time in fields exactly when each is in its range (seconds below 60) and a fraction of a day, hour or minute is followed by zeros only. "
  "Everything else, a wrong number of fields, arguments of the wrong type and a zone that is no time zone are refused with an error, and what was accepted is reported back unchanged by the accessors.",
  [I], "all integer fields in and around their ranges",
  "Tests try some values next to each limit in a few years.",
  [DT, TU, BC], [("_check_valid_badi_date, _check_valid_badi_time", BC), ("_check_date_fields, _check_time_fields", TU)], [], ["date()", "datetime()", "time()"])
p("C20", "replace, combine, date() and time() change exactly what they are asked to",
  "Replacing fields of a date, time or datetime gives the value with those fields new and all others kept - form, zone and fold included - and is refused when the result does not exist or a field belongs to the other form; the original is unchanged. "
  "Combining a date with a time and taking the result apart gives back that date and that time with its zone and fold.",
  [I], "all values and all subsets of fields",
  "Tests replace single fields of a few values; zero (Ayyám-i-Há month, midnight hour) is a legitimate new value.",
  [DT], [("replace, _replace_short, _replace_long, combine, date, time, timetz", DT)], [], ["replace", "combine", "date()", "time()", "timetz()"])
p("C21", "Times of day compare, hash and print by the moment of day they denote",
  "Naive times compare by hour, minute, second and microsecond, aware times by these minus their UTC offset, and all six comparison operators agree with each other; equal times hash equal, and naive and aware times are unequal and not orderable. "
  "isoformat() and str() print the fields and offset at the requested precision, without rounding up, and a time read back from whole-second ISO text is the same.",
  [I], "all pairs of times with any offsets, all precisions",
  "Few pairs are tested, hardly any with differing offsets or hour 24.",
  [DT], [("time._cmp, __hash__, isoformat, fromisoformat, _format_time", DT)], [], ["comparison operators", "hash", "isoformat"])
p("C22", "Time tuples carry the fields, weekday, day of year and offset of the moment",
  "timetuple() and utctimetuple() of a date or datetime hold its year, month, day, hour, minute and second in its own form, the weekday, the day of the year and the daylight saving flag, and for aware values the zone name and offset; the UTC variant holds the fields shifted by the offset, across midnight, Ayyám-i-Há and year ends. "
  "The tuple can be built again from its own fields to the same value, gives its fields under their names and in its repr, as the ISO triple does, and cannot be made of another number of fields or of impossible ones.",
  [I], "all supported values in both forms, naive and aware",
  "Tests check a handful of tuples.", [DT, TU, ST], [("timetuple, utctimetuple, _timetuple", DT), ("_build_struct_time", TU), ("struct_time", ST)], [], ["timetuple", "utctimetuple"])
p("C23", "Results do not depend on what was computed or configured before",
  "Every pure conversion - ordinals, weekdays, formatting, parsing, Julian days, sunsets, Gregorian dates - gives the same result after any sequence of other calls, including failed ones, as it gives first thing in a fresh process. "
  "set_local_coordinates() affects exactly the local place: queries that depend on it - today, now, naive timestamps in both directions, astimezone() without a zone, LOCAL_COORD, LOCAL and timezone.local - use the coordinates last given (whole numbers or not, with the system's zone), or those of the named place, or Tehran's with its own zone when none were given; a place that is not found is refused and leaves the previous one; coordinates need no network; and conversions made with explicit places or zones do not change.",
  [H], "all sequences of calls of the public interface",
  "Each test runs a call or two in a process-wide state that depends on test order.",
  [IN, BC, BASE, SP, TU], [("_LOCAL_COORDS, set_local_coordinates, _get_local_coordinates", IN), ("nutation cache", BASE), ("regex cache", SP)],
  [("_LOCAL_COORDS", "local place", IN), ("nutation cache", "last nutation values", BASE), ("_regex_cache", "compiled formats", SP)], ["all public conversions"])
p("C24", "Calls made at the same time from several threads do not disturb each other",
  "Conversions, formatting, parsing, arithmetic and hashing called at the same time from several threads on the same or different objects give each thread the result the call gives when it runs alone, whatever the interleaving. "
  "This includes calls that share the module-wide calendar objects and the caches of sun-position terms and compiled formats.",
  [S], "all interleavings of calls on different threads, at the granularity of executed lines or instructions",
  "No test uses threads.", [BASE, SP, TU, IN], [("_nutation_obliquity_longitude cache", BASE), ("_regex_cache and lock", SP), ("shared instance _td_utils", DT)],
  [("nutation cache", "last nutation values", BASE), ("_regex_cache", "compiled formats", SP)], ["public conversions in threads"])
p("C25", "The day begins at sunset of the place",
  "The sunset given for a Badí' day at a place is the time the sun's upper limb sets there on the civil evening on which the day begins, to within a minute of an independent computation, and the Badí' time of day at an instant is the time since that sunset. "
  "Instants just before and after a sunset fall in consecutive Badí' days at that place, days last between 23 h 50 min and 24 h 10 min, and moving the place west by 15 degrees moves sunset later by about an hour.",
  [I, C], "all days from 1583 to 3005 at places between latitudes -60 and 60",
  "A few sunsets at two or three places are tested against the code's own output.",
  [BASE, BC, AT], [("_sun_setting, _rising_setting, _approx_local_hour_angle, _apparent_sidereal_time_greenwich, _delta_t", BASE), ("utc_sunset, _utc_to_badi_time, _day_length", BC)], [],
  ["utc_sunset", "badi_date_from_jd with coordinates", "jd_from_badi_date with coordinates"])
p("C26", "Zones with coordinates keep their own identity",
  "A time zone with coordinates reports exactly the latitude, longitude, offset and zone key it was made with, for as long as it lives and after copying or pickling, however many other zones are made in the meantime; its offset for a datetime is its own, and it prints and names itself accordingly. "
  "Datetimes in such zones keep them through arithmetic, replacement, conversion and comparison.",
  [I, H], "all coordinates and offsets, any sequence of zone creations",
  "Tests create zones one at a time.",
  [DT], [("class TZWithCoords, __new__, fromzoneinfo, __reduce__, __setstate", DT)], [], ["coordinates", "utcoffset", "tzname", "str", "repr", "pickle"])
p("C27", "The repr of a value evaluates to that value",
  "The repr of any date, time, datetime and fixed-offset time zone is an expression that, evaluated with the module imported, gives an equal value of the same form, with the same zone offset and fold (times of day with a zone excepted). "
  "Two values have the same repr only if they have the same fields.",
  [I], "all values of these classes with whole-number fields",
  "Tests compare a few repr strings.",
  [DT], [("__repr__ of date, time, datetime, timezone", DT)], [], ["repr"])
p("C28", "An object is the same however it was arrived at",
  "A date, datetime or time reached by any sequence of operations - arithmetic, replacing fields, taking apart and combining, astimezone, ordinals, copying, pickling, writing as text and reading back - has the fields which each step says it has, and is in nothing it shows different from an object made directly from those fields: "
  "it equals it, is the same dictionary key, and prints, formats, pickles, splits and converts alike. An instance of a subclass stays one through every operation but the taking of a part (date(), time(), timetz()), and equals and hashes as the same value of the plain class does. Operations leave the objects they are given unchanged, and an operation that is refused has no effect. All of this holds in zones of a fixed offset, without a zone and in zones whose offset changes with the date and the fold.",
  [H, P], "all sequences of operations on dates, datetimes and times",
  "Tests look at single operations, mostly at one or two fields of the result; state left behind in a result - a cached hash, fields of the wrong type, the other form, a lost fold - shows only in the operations that come later.",
  [DT, TU, ST], [("__new__, replace, combine, __add__, __sub__, astimezone, _from_self, __reduce_ex__, __setstate", DT), ("_build_struct_time", TU)],
  [("_hashcode, __date, __short", "cached hash and fields of the object", DT)], ["all public methods of date, datetime and time"])
p("C29", "Zones whose offset changes are honoured at every moment and fold",
  "In a zone of a user's own whose offset depends on the date, the time and the fold (daylight saving), every datetime shows the offset, saving and name its zone gives for exactly that local time and fold - in utcoffset(), dst(), tzname(), ISO and formatted text, time tuples and UTC time tuples. "
  "Comparison, subtraction, hashing and the timestamp of such datetimes follow the instant, except that two datetimes sharing the zone object compare and subtract by their local fields, and that a reading whose offset depends on its fold equals nothing in another zone object. "
  "Adding a duration or replacing fields moves the local time and takes the offset of the new reading, while astimezone() keeps the instant - out of such a zone, and into one whose class has a fromutc() of its own, with the fold that the instant has there. A zone that knows no offset leaves its values naive, and impossible answers of a zone (no timedelta, 24 hours or more, a name that is no string) raise TypeError or ValueError.",
  [I], "all dates and times in zones with any standard offset, saving and times of change, both folds",
  "The tests use zones of a fixed offset and one or two ZoneInfo values far from any change; the offset matters at the changes, where a local time is shown twice or never.",
  [DT, ST, TU], [("utcoffset, dst, tzname, _cmp, __sub__, __hash__, timetuple, utctimetuple, astimezone, replace, _check_offset", DT), ("struct_time", ST), ("_build_struct_time, _wrap_strftime", TU)],
  [], ["utcoffset", "dst", "tzname", "comparison", "subtraction", "hash", "timetuple", "isoformat", "strftime"])
p("C30", "The sun's rising, noon and setting and the four seasons are where the sun is",
  "The rising, noon and setting of the sun computed for a civil day and a place - also for other depths of the sun below the horizon, as for twilight - lie within a minute of an independent computation, in this order and on this day, and the length of a Badí' day is the time from its sunset to the next. "
  "The moment given for an equinox or solstice of a year falls in that year, at the sun's longitude of 0, 90, 180 or 270 degrees, a year after the same season's last moment, and in a zone is the same moment on the clock of that zone, whichever moment of the year it is asked for.",
  [I, C], "all days from 1583 to 3005 at places between latitudes -60 and 60 (45 for other depths); the seasons of the years 1000 to 3000",
  "The tests compare a handful of values with the code's own output or with worked examples from the literature; errors that depend on the season, the hemisphere or the longitude do not show.",
  [BASE, BC, AT], [("_sun_rising, _sun_setting, _sun_transit, _transit_correction, _rising_setting, _find_moment_of_equinoxes_or_solstices, _approx_julian_day_for_equinoxes_or_solstices, _delta_t", BASE), ("_day_length", BC)], [],
  ["BaseCalendar: sun rise, set and transit", "equinoxes and solstices"])
p("C31", "The options and forms of a conversion tell the same moment",
  "A conversion to a Badí' date names one moment, whatever form and precision it is asked for: the long form is the long form of the short one, whole seconds and microseconds add up to the seconds with a fraction, a fraction of the day is that of the time of day, rounding to the day gives the nearest day that exists, trimming takes away only trailing zero fields, and no two of fraction, microseconds and rounding are accepted together. "
  "The same holds for converting between the forms and for splitting a day with a fraction. A Julian day, a Gregorian date and a timestamp of one instant give one date. "
  "A time of day means the same as fields, as a fraction of the second, minute, hour or day, and with zero fields left off or None; when the place is not given, in full or in part, that of the calendar (Tehran) is meant, in every conversion, in the time of sunset, the start of the year and Riḍván.",
  [I, P], "all days of the supported years at all places up to 60 degrees of latitude, all combinations of the options",
  "Each test fixes one combination of options for one date; the combinations take different paths through the code, and several go wrong only at the end of a month or for one of the forms.",
  [BC, BASE, GC], [("badi_date_from_jd, kvymdhms_from_b_date, date_from_kvymdhms, short_date_from_long_date, long_date_from_short_date, jd_from_badi_date, _trim_hms, midday, naw_ruz_g_date, first_day_of_ridvan_g_date, utc_sunset", BC), ("_xor_boolean", BASE)], [],
  ["BahaiCalendar conversions and their options"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(R))