"""Input domains: dates, times, durations and offsets, biased to boundaries.
The calendar arithmetic here reads the reference table of the specification,
never the code under test."""
import os, re, random
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
_src = open(os.path.join(SPEC, "BadiData.tla")).read()


def _tab(name):
    body = re.search(r"^%s == <<(.*?)>>\n(?=\S)" % name, _src, re.S | re.M).group(1)
    return [int(x) for x in re.findall(r"-?\d+", body)]


YSTAB = _tab("YSTab")
MINY, MAXY = -1842, 1161
MINORD, MAXORD = 78, 1097267
EXCL = (-1796, -1792, -1788)      # years with a known off-by-one ordinal


def YS(y):
    return YSTAB[y + 1843]


def leap(y):
    return YS(y + 1) - YS(y) == 366


def ad(y):
    return 5 if leap(y) else 4


def lform(y):
    return ((y - 1) // 361 + 1, (y - 1) % 361 // 19 + 1, (y - 1) % 19 + 1)


def ymd(n):
    import bisect
    y = bisect.bisect_right(YSTAB, n) - 1 - 1843
    k = n - YS(y) + 1
    a = ad(y)
    if k <= 342:
        return y, (k - 1) // 19 + 1, (k - 1) % 19 + 1
    if k <= 342 + a:
        return y, 0, k - 342
    return y, 19, k - 342 - a


def ordn(y, m, d):
    a = ad(y)
    return YS(y) + (342 if m == 0 else 342 + a if m == 19 else (m - 1) * 19) + d - 1


SPECIAL_YEARS = sorted({y for y in (
    [MINY, MINY + 1, MINY + 2, -1841, -1800, -1444, -1443, -1083, -1082, -722, -721, -361, -360, -359, -100, -99,
     -20, -19, -18, -2, -1, 0, 1, 2, 3, 4, 18, 19, 20, 38, 39, 56, 57, 58, 99, 100, 101, 157, 171, 172, 173, 180, 181, 182,
     183, 216, 221, 222, 323, 342, 343, 361, 362, 363, 380, 381, 722, 723, 999, 1000, 1001, 1083, 1084, 1158,
     MAXY - 1, MAXY] + [361 * k + j for k in range(-6, 4) for j in (0, 1)]) if MINY <= y <= MAXY})
REFORM = range(-262, -258)


def ryear(rng, lo=MINY, hi=MAXY):
    while True:
        x = rng.random()
        if x < .30:
            y = rng.choice(SPECIAL_YEARS)
        elif x < .45:
            y = 19 * rng.randint(-97, 61) + rng.choice((0, 1))
        elif x < .60:
            y = rng.randint(150, 230)
        else:
            y = rng.randint(MINY, MAXY)
        if lo <= y <= hi and y not in EXCL:
            return y


def rmd(rng, y):
    x = rng.random()
    if x < .25:
        m = 0
    elif x < .55:
        m = rng.choice((1, 2, 17, 18, 19, 19))
    else:
        m = rng.randint(1, 19)
    n = ad(y) if m == 0 else 19
    d = rng.choice((1, 2, n - 1, n)) if rng.random() < .5 else rng.randint(1, n)
    return m, d


def rdate(rng, lo=MINY, hi=MAXY):
    y = ryear(rng, lo, hi)
    return (y,) + rmd(rng, y)


def gapdate(y, m, d):
    """Days whose Gregorian date fell into the gap of the reform of 1582."""
    return y == -261 and m == 11 and 9 <= d <= 19


def rtime(rng):
    def f(n):
        x = rng.random()
        return 0 if x < .2 else n if x < .4 else rng.randint(0, n)
    us = rng.choice((0, 0, 1, 999999, 500000, 10, 100000)) if rng.random() < .7 else rng.randint(0, 999999)
    return f(23), f(59), f(59), us


def rdelta(rng):
    """days, seconds, microseconds of a normalised timedelta"""
    x = rng.random()
    if x < .15:
        d = rng.choice((0, 1, -1, 2, -2, 4, 5, 19, -19, 342, 347, 365, 366, -365, -366, 361 * 365, 6939, 6940))
    elif x < .5:
        d = rng.randint(-30, 30)
    elif x < .8:
        d = rng.randint(-4000, 4000)
    else:
        d = rng.randint(-1100000, 1100000)
    x = rng.random()
    s = 0 if x < .25 else 86399 if x < .4 else rng.choice((1, 59, 60, 3599, 3600, 43200, 86340)) if x < .6 else rng.randint(0, 86399)
    us = rng.choice((0, 0, 1, 999999, 500000)) if rng.random() < .7 else rng.randint(0, 999999)
    return d, s, us


def roff(rng, minutes=False):
    """offset in whole seconds, microseconds"""
    x = rng.random()
    if minutes or x < .6:
        o = 60 * (rng.choice((0, 0, 1, -1, 30, -30, 210, -210, 330, -570, 765, 840, -720, 1439, -1439, 60, -60, 59, -59))
                  if rng.random() < .6 else rng.randint(-1439, 1439))
        return o, 0
    if x < .85:
        return rng.randint(-86399, 86399), 0
    return rng.randint(-86399, 86398), rng.choice((1, 999999, 500000, rng.randint(1, 999999)))
