"""Generators: property -> (op, a, s) calls. Each takes rng, tier, shard, n."""
from dom import *
G = {}


def gen(f):
    G[f.__name__] = f
    return f


def split(items, shard, n):
    return [x for i, x in enumerate(items) if i % n == shard]


def Q(tier, q, t):
    return q if tier == "quick" else t


@gen
def C01(rng, tier, shard, n):
    years = split(range(MINY, MAXY + 1), shard, n)
    for y in years:
        if y in EXCL:
            for m, d in ((1, 1), (18, 19), (0, 1), (0, ad(y)), (19, 19)):
                yield "toord", (rng.randint(0, 1), rng.randint(0, 1), y, m, d), ()
                yield "fromord", (ordn(y, m, d), rng.randint(0, 1), rng.randint(0, 1)), ()
            continue
        if tier == "quick":
            days = {YS(y), YS(y + 1) - 1, ordn(y, 18, 19), ordn(y, 0, 1), ordn(y, 0, ad(y)), ordn(y, 19, 1)}
            days |= {rng.randint(YS(y), YS(y + 1) - 1) for _ in range(3)}
            m = rng.randint(1, 17)
            days |= {ordn(y, m, 19), ordn(y, m + 1, 1)}
        else:
            days = range(YS(y), YS(y + 1))
        for o in sorted(days):
            q = ymd(o)
            if gapdate(*q):
                continue
            if tier == "quick" or rng.random() < .5:
                yield "fromord", (o, rng.randint(0, 1), rng.randint(0, 1)), ()
            yield "toord", (rng.randint(0, 1), rng.randint(0, 1)) + q, ()
    if shard == 0:
        for o in list(range(577690, 577760)):
            q = ymd(o)
            yield "fromord", (o, 0, 0), ()
            yield "toord", (0, 0) + q, ()
        for o in (77, 76, 1, 0, -1, -5, -366, -10**6, MAXORD + 1, MAXORD + 2, MAXORD + 366, MAXORD + 10**6, 2 * 10**9):
            for f in (0, 1):
                for c in (0, 1):
                    yield "fromord", (o, f, c), ()
        for o in (78, 79, MAXORD, MAXORD - 1):
            for f in (0, 1):
                for c in (0, 1):
                    yield "fromord", (o, f, c), ()


@gen
def C02(rng, tier, shard, n):
    for y in split(range(MINY, MAXY + 1), shard, n):
        yield "year", (y,), ()
        if y >= -259:
            yield "festivals", (y,), ()


@gen
def C03(rng, tier, shard, n):
    kvr = [(k, v, r) for k in range(-5, 5) for v in range(1, 20) for r in range(1, 20)]
    for k, v, r in split(kvr, shard, n):
        y = (k - 1) * 361 + (v - 1) * 19 + r
        if not MINY <= y <= MAXY or y in EXCL:
            continue
        for j in range(Q(tier, 1, 8)):
            m, d = rmd(rng, y)
            if gapdate(y, m, d):
                continue
            t = rtime(rng)
            yield "lacc", (k, v, r, m, d), ()
            yield "l2s", (k, v, r, m, d) + rng.choice((t, t[:3], t[:2], t[:1], ())), ()
            yield "s2l", (y, m, d) + rng.choice((t, t[:3], t[:2], t[:1], ())), ()
            yield "l2st", (k, v, r, m, d) + rng.choice((t, t[:3], t[:2], t[:1], ())), ()
            yield "s2lt", (y, m, d) + rng.choice((t, t[:3], t[:2], t[:1], ())), ()


@gen
def C04(rng, tier, shard, n):
    for y in split(range(MINY, MAXY + 1), shard, n):
        if y in EXCL:
            continue
        ds = [(1, 1), (18, 19), (0, 1), (0, ad(y)), (19, 1), (19, 19)]
        ds = rng.sample(ds, 3) if tier == "quick" else ds
        ds += [rmd(rng, y) for _ in range(Q(tier, 1, 30))]
        for m, d in ds:
            yield "week", (rng.randint(0, 1), rng.randint(0, 1), y, m, d), ()


@gen
def C05(rng, tier, shard, n):
    for y in split(range(MINY, MAXY + 1), shard, n):
        if y in EXCL or y + 1 in EXCL or y - 1 in EXCL:
            continue
        ks = list(range(1, 8)) + list(range(YS(y + 1) - YS(y) - 6, YS(y + 1) - YS(y) + 1))
        ks = rng.sample(ks, Q(tier, 3, 14)) + [rng.randint(1, 365) for _ in range(Q(tier, 1, 20))]
        for k in ks:
            q = ymd(YS(y) + k - 1)
            if not gapdate(*q):
                yield "iso", (rng.randint(0, 1), rng.randint(0, 1)) + q, ()
        ws = [(1, 1), (1, 7), (52, 1), (52, 7), (53, 1), (0, 1), (5, 0), (7, 8), (54, 3), (-1, 2), (51, 7)]
        ws = rng.sample(ws, Q(tier, 2, 11)) + [(rng.randint(1, 52), rng.randint(1, 7)) for _ in range(Q(tier, 2, 20))]
        if y == 181 or y % 97 == 0:
            ws = ws + [(w, d) for w in (1, 51, 52, 53) for d in (1, 4, 7)]
        for w, d in ws:
            yield "fromiso", (y, w, d, rng.randint(0, 1)), ()


@gen
def C06(rng, tier, shard, n):
    for _ in range(Q(tier, 9000, 200000) // n):
        p = rdate(rng)
        x = rng.random()
        if x < .25:
            q = (p[0],) + rmd(rng, p[0])
        elif x < .35:
            q = p
        elif x < .55:
            o = ordn(*p) + rng.choice((-2, -1, 1, 2, 5, 19, -19))
            o = min(max(o, MINORD), MAXORD)
            q = ymd(o)
        else:
            q = rdate(rng)
        yield "cmpdate", (rng.randint(0, 1), rng.randint(0, 1)) + p + q, ()
    for o in split(["int", "str", "none", "tuple", "float", "list", "time", "delta", "obj"], shard, n):
        for f in (0, 1):
            for _ in range(5):
                yield "cmpother", (f, 0) + rdate(rng), (o,)
    for _ in range(Q(tier, 400, 8000) // n):
        x = rdt(rng)
        d = rng.choice((x[1:4], x[1:4], rdate(rng)))
        if rng.random() < .5:
            x = x[:4] + (0, 0, 0, 0) + x[8:]
        yield "cmpmix", (rng.randint(0, 1), 0) + d + x, ()


@gen
def C07(rng, tier, shard, n):
    for _ in range(Q(tier, 9000, 150000) // n):
        p = rdate(rng)
        if gapdate(*p):
            continue
        x = rng.random()
        how = rng.randint(0, 2)
        if x < .6:
            if x < .3:
                q = rdate(rng)
                dd = ordn(*q) - ordn(*p)
                if x < .1:
                    dd += rng.choice((-1, 1))
            else:
                dd = rdelta(rng)[0]
            _, ds, du = rdelta(rng) if rng.random() < .4 else (0, 0, 0)
            if how == 2:
                # x - t: python normalises -t
                dd = -dd
            yield "dateadd", (rng.randint(0, 1),) + p + (dd, ds, du, how), ()
        else:
            q = rdate(rng)
            if x < .7:
                q = (p[0],) + rmd(rng, p[0])
            yield "datesub", (rng.randint(0, 1), rng.randint(0, 1)) + p + q, ()
    ends = [(1161, 19, 19), (1161, 19, 18), (-1842, 1, 1), (-1842, 1, 2)]
    for p in split(ends, shard, n):
        for dd in (-2, -1, 0, 1, 2, 10**6, -10**6, 999999999, -999999999):
            for how in (0, 1, 2):
                for f in (0, 1):
                    yield "dateadd", (f,) + p + (dd, 0, 0, how), ()
    for o in split(["int", "str", "none", "float", "tuple", "time", "obj"], shard, n):
        for how in ("add", "radd", "sub", "rsub"):
            for f in (0, 1):
                yield "datebad", (f, 0) + rdate(rng), (how, o)


# ---- datetimes, times and zones
def rzone(rng, aware=None, minutes=False):
    if aware is False or aware is None and rng.random() < .3:
        return 0, 0, 0
    k = rng.choice((1, 1, 2, 2, 3, 6))
    o, u = roff(rng, minutes)
    if k == 6:
        # multiples of a quarter of an hour: exact as a fraction of an hour
        o, u = 900 * rng.randint(-95, 95), 0
    return k, o, u


def rdt(rng, aware=None, minutes=False, inner=False, fold=True):
    """12 integers of a datetime argument; inner: days from the ends"""
    while True:
        p = rdate(rng)
        if gapdate(*p):
            continue
        o = ordn(*p)
        if inner and not MINORD + 4 <= o <= MAXORD - 4:
            continue
        if ymd(o)[0] in EXCL or ymd(min(o + 3, MAXORD))[0] in EXCL or ymd(max(o - 3, MINORD))[0] in EXCL:
            continue
        break
    return (rng.randint(0, 1),) + p + rtime(rng) + rzone(rng, aware, minutes) + (rng.randint(0, 1) if fold and rng.random() < .2 else 0,)


def near(rng, a, aware=None):
    """a datetime argument close to a in time"""
    n = ordn(*a[1:4]) + rng.choice((-2, -1, -1, 0, 0, 0, 1, 1, 2))
    n = min(max(n, MINORD), MAXORD)
    p = ymd(n)
    if p[0] in EXCL or gapdate(*p):
        p = a[1:4]
    t = rng.choice((a[4:8], rtime(rng), a[4:7] + (rng.choice((0, 1, a[7], 999999)),)))
    z = rng.choice((a[8:11], rzone(rng, aware)))
    return (rng.randint(0, 1),) + p + t + z + (0,)


def moment(a):
    n = ordn(*a[1:4])
    o, u = (a[9], a[10]) if a[8] else (0, 0)
    return (n * 86400 + a[4] * 3600 + a[5] * 60 + a[6] - o) * 10**6 + a[7] - u


def sameinstant(rng, a):
    """the same instant written in another zone and form"""
    z = rzone(rng, True)
    v = moment(a) + (z[1] * 10**6 + z[2])
    v, us = divmod(v, 10**6)
    n, sec = divmod(v, 86400)
    if not MINORD <= n <= MAXORD:
        return a
    p = ymd(n)
    if p[0] in EXCL or gapdate(*p):
        return a
    return (rng.randint(0, 1),) + p + (sec // 3600, sec // 60 % 60, sec % 60, us) + z + (0,)


def gap(n):
    return 577723 <= n <= 577736


def dtadds(rng, count, aware):
    for _ in range(count):
        a = rdt(rng, aware)
        x = rng.random()
        if x < .5:
            t = rdelta(rng)
        elif x < .8:
            # land next to a boundary of another day
            q = rdate(rng)
            tgt = (ordn(*q) * 86400 + rng.choice((0, -1, 1, 86399, 43200))) * 10**6 + rng.choice((0, 0, 1, -1, 999999))
            v = tgt - ((ordn(*a[1:4]) * 86400 + a[4] * 3600 + a[5] * 60 + a[6]) * 10**6 + a[7])
            v, us = divmod(v, 10**6)
            d, sec = divmod(v, 86400)
            t = (d, sec, us)
        else:
            t = (rng.choice((0, -1, 0, 1)),) + rdelta(rng)[1:]
        how = rng.randint(0, 2)
        n = ordn(*a[1:4]) + (-t[0] if how == 2 else t[0])
        if gap(n) or any(MINY <= y <= MAXY and y in EXCL for y in (ymd(min(max(n + j, MINORD), MAXORD))[0] for j in (-2, 2))):
            continue
        yield "dtadd", a + t + (how,), ()


def ends(rng, aware):
    for p, h in (((1161, 19, 19), 23), ((1161, 19, 19), 0), ((-1842, 1, 1), 0), ((-1842, 1, 1), 23)):
        for t in ((0, 3600, 0), (-1, 82800, 0), (1, 0, 0), (-1, 0, 0), (0, 0, 1), (-1, 86399, 999999), (0, 3599, 999999), (10**6, 0, 0), (-10**6, 0, 0), (999999999, 5, 5), (-999999999, 0, 0)):
            for how in (0, 1, 2):
                yield "dtadd", (rng.randint(0, 1),) + p + (h, 0, 0, 0) + ((1, 3600, 0) if aware else (0, 0, 0)) + (0,) + t + (how,), ()


OTHERTYPES = ["int", "str", "none", "tuple", "float", "list", "time", "delta", "obj", "date"]


@gen
def C08(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    yield from dtadds(rng, 5600 * k // n, False)
    if shard == 0:
        yield from ends(rng, False)
    for _ in range(2400 * k // n):
        a = rdt(rng, False)
        b = near(rng, a, False) if rng.random() < .5 else rdt(rng, False)
        yield "dtsub", a + b, ()
        yield "dtcmp", a + b, ()
    for _ in range(800 * k // n):
        a, b = rdt(rng, False, inner=True, fold=False), rdt(rng, False, inner=True, fold=False)
        yield "dtround", a + b, ()
    for o in split(OTHERTYPES, shard, n):
        for _ in range(3):
            yield "dtcmpother", rdt(rng, False), (o,)
            for how in ("add", "radd", "sub", "rsub"):
                if o == "delta" and how != "rsub" or (o, how) == ("date", "rsub"):
                    continue
                yield "dtbad", rdt(rng, False), (how, o)


@gen
def C09(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    yield from dtadds(rng, 2000 * k // n, True)
    if shard == 0:
        yield from ends(rng, True)
    for _ in range(3200 * k // n):
        a = rdt(rng, True)
        x = rng.random()
        if x < .35:
            b = sameinstant(rng, a)
            if x < .12:
                b = b[:7] + ((b[7] + 1) % 10**6,) + b[8:]
        elif x < .65:
            b = near(rng, a, True)
        elif x < .9:
            b = rdt(rng, True)
        else:
            b = near(rng, a, False)
            b = b[:8] + (0, 0, 0, 0)
            if x < .95:
                a, b = b, a
        yield "dtsub", a + b, ()
        yield "dtcmp", a + b, ()
    for _ in range(2000 * k // n):
        a = rdt(rng, True, inner=True)
        yield "astz", a + rzone(rng, True), ()
    for _ in range(600 * k // n):
        a, b = rdt(rng, True, inner=True, fold=False), rdt(rng, True, inner=True, fold=False)
        yield "dtround", a + b, ()
    for _ in range(800 * k // n):
        yield "ats", rdt(rng, True, inner=True), ()
    for o in split(OTHERTYPES, shard, n):
        for _ in range(2):
            yield "dtcmpother", rdt(rng, True), (o,)


@gen
def C10(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    offs = [(60 * m, 0) for m in range(-1439, 1440)]
    offs += [(x, 0) for x in (-86399, 86399, -1, 1, 59, -59, 3599, -3599)] + [(-86400, 1), (86399, 999999), (-1, 999999), (0, 1)]
    for o, u in split(offs, shard, n):
        yield "tz", (1, o, u), ()
        if tier != "quick" or rng.random() < .2:
            yield "tz", (2, o, u), ()
            yield "tz", (3, o, u), ()
    for _ in range(1500 * k // n):
        o, u = roff(rng)
        yield "tz", (rng.choice((1, 2, 3)), o, u), ()
        kk, oo, uu = rzone(rng, True)
        yield "tz", (kk, oo, uu), ()
        z = rzone(rng, True)
        y = rng.choice((z, (1,) + z[1:], rzone(rng, True), (1, z[1], (z[2] + 1) % 10**6)))
        yield "tzeq", z + y, ()
    bad = [(1, 0, 0), (-1, 0, 0), (0, 86399, 999999), (-1, 0, 1), (2, 0, 0), (0, 86400, 0), (1, -1, 0), (1, 0, -1), (-1, 0, 0), (-1, -1, 0), (999, 0, 0), (0, 0, 0), (0, 0, 1), (-1, 86399, 999999)]
    for q in split(bad, shard, n):
        for s in ("plain", "named"):
            yield "tzmake", q, (s,)
    for s in split(["int", "none", "nameint", "namenone", "float", "str"], shard, n):
        yield "tzmake", (0, 3600, 0), (s,)
    for _ in range(600 * k // n):
        yield "badioff", rzone(rng, True), ()
    for f, x in split([(f, x) for f in ("utcoffset", "tzname", "badioffset", "fromutc")
                       for x in ("naive", "date", "time", "int", "str", "float", "none", "foreign")], shard, n):
        for _ in range(3):
            yield "tzarg", (rng.choice((1, 2, 3)),) + roff(rng), (f, x)


def rt8(rng, minutes=True, aware=None, h24=True, fold=True):
    h, mi, s, us = rtime(rng)
    if h24 and rng.random() < .06:
        h = 24
        mi, s, us = rng.choice(((0, 0, 0), (mi, s, us)))
    if h24 and rng.random() < .03:
        s = 60
    return (h, mi, s, us) + rzone(rng, aware, minutes) + (rng.randint(0, 1) if fold and rng.random() < .3 else 0,)


@gen
def C18(rng, tier, shard, n):
    k = Q(tier, 1, 15)
    for y in split(range(MINY, MAXY + 1), shard, n):
        if y in EXCL:
            continue
        for _ in range(k):
            m, d = rmd(rng, y)
            if gapdate(y, m, d):
                continue
            yield "pickdate", (rng.randint(0, 1), 0, y, m, d), ()
            t = rt8(rng, minutes=False)
            yield "pickdt", (rng.randint(0, 1), y, m, d) + t, ()
            if rng.random() < .4:
                yield "pickiso", (rng.randint(0, 1), 0, y, m, d), ()
                yield "picktup", (rng.randint(0, 1), y, m, d) + rtime(rng) + rzone(rng) + (0,), ()
    for _ in range(1600 * k // n):
        yield "picktime", rt8(rng), ()
    for _ in range(500 * k // n):
        yield "picktz", rzone(rng, True), ()
    for us in split([0, 1, 255, 256, 257, 65535, 65536, 65537, 131071, 999999, 983040, 999423], shard, n):
        for h in (0, 24):
            yield "picktime", (h, 59, 59, us, 0, 0, 0, 1), ()
            yield "pickdt", (1, -1842, 1, 1, h, 0, 0, us, 0, 0, 0, 1), ()
            yield "pickdt", (0, 1161, 0, 4, h, 0, 0, us, 0, 0, 0, 1), ()


def edge(rng, lo, hi):
    return rng.choice((lo - 1, hi + 1, lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo - 200, hi + 200), -1, 0, 10**9, -10**9))


@gen
def C19(rng, tier, shard, n):
    ys = list(range(MINY - 3, MAXY + 4)) + [9999, -9999, 10**8, -10**8]
    for y in split(ys, shard, n):
        if y in EXCL:
            continue
        cands = [(m, 19 if m else a) for m in (0, 1, 18, 19) for a in (4, 5)] + [(m, 20 if m else 6) for m in (0, 1, 18, 19)] + \
                [(rng.randint(0, 19), 0), (20, 1), (-1, 1), (0, 0), (0, 4), (0, 5), (0, 6), (rng.randint(1, 19), rng.randint(1, 19)), (rng.randint(1, 19), 20), (rng.randint(-3, 25), rng.randint(-3, 25))]
        cands = [(0, 5), (0, 4), (0, 6)] + (cands if tier != "quick" else rng.sample(cands, 4))
        for m, d in cands:
            yield "mkdate", (rng.randint(0, 1), y, m, d), ()
        if tier != "quick" or rng.random() < .7:
            k, v, r = lform(y)
            m, d = rng.choice(cands)
            yield "mkdate", (rng.randint(0, 1), k, v, r, m, d), ()
            which = rng.randint(0, 4)
            f = [k, v, r, m, d]
            f[which] = edge(rng, *((-5, 4), (1, 19), (1, 19), (0, 19), (1, 19))[which])
            yield "mkdate", (rng.randint(0, 1), *f), ()
    for _ in range(Q(tier, 4000, 60000) // n):
        t = list(rtime(rng)) + [rng.randint(0, 1)]
        for _ in range(rng.choice((0, 1, 1, 2))):
            w = rng.randint(0, 4)
            t[w] = edge(rng, 0, (24, 59, 60, 999999, 1)[w])
        yield "mktime", tuple(t), ()
        p = rdate(rng)
        yield "mkdtime", (rng.randint(0, 1),) + p + tuple(t), ()
    for _ in range(Q(tier, 3000, 50000) // n):
        how = rng.randint(0, 3)
        y, m, d = rdate(rng)
        if y in (MINY, MAXY):
            continue
        if m == 0 and rng.random() < .5:
            d = rng.choice((4, 5, 6))
        f = list(lform(y) if how > 1 else (y,)) + [m]
        t = [0] * 4
        cnt = rng.randint(0, 4)
        for i in range(cnt):
            t[i] = 4 * rng.randint(0, (24, 59, 59)[i]) if i < 3 else rng.choice((0, rng.randint(1, 999999)))
            if rng.random() < .3:
                t[i] = 0
        d *= 4
        z = rng.random()
        if z < .5:              # a part of one of the fields
            last = max([i + 1 for i in range(cnt) if t[i]] or [0])
            w = rng.choice((last, rng.randint(0, min(cnt, 3))))
            if w == 0:
                d += rng.randint(1, 3)
                t[3] = 0
            elif w < 4 and t[3] == 0:
                t[w - 1] += rng.randint(1, 3)
        elif z < .75:
            w = rng.randint(0, 4)
            if w == 0:
                d = rng.choice((0, 3, -4, 20 * 4, 20 * 4 - 1, 24, 23, 25, 20))
                t[3] = 0
            elif w <= cnt:
                t[w - 1] = rng.choice(((100, 99, -1, 96), (240, 239, -1, -4), (240, 239, -1, 244), (10**6, -1, 999999, 2 * 10**6))[w - 1])
                if w == 3 and t[2] % 4:
                    t[3] = 0
        elif z < .9:
            w = rng.randrange(len(f))
            if len(f) == 2 and w == 0:
                f[0] = rng.choice((MINY - 2, MAXY + 2, 5000) if how == 0 else (5000, -5000))
            else:
                f[w] = rng.choice(((-6, 5), (0, 20, -1), (0, 20, -1), (20, -1))[w if len(f) == 4 else 3])
        yield "mkfields", (how, cnt, *f, d, *t), ()
    for b in split("date0 date2 date4 dt2 dt4 tzint tzstr dttzint dttzstr dttzdelta tztzdelta ymdstr hourstr frac1 frac2 frac3 combine1 combine2 combine3 ordstr isoint tisoint strpint astz kind:fmtint kind:fmtnone kind:fmtbytes kind:isobytes kind:dtisonone kind:dtisobytes kind:tisonone kind:strp1 kind:strp2 kind:strp3 kind:ordnone kind:tsnone kind:tsstr kind:isocal kind:combine4 kind:combine5 kind:combine6 kind:fromts kind:repltz kind:repltz2 value:spec value:strfempty value:spec2".split(), shard, n):
        yield "mkbad", (), (b,)


NN = -999999


def newfields(rng, form, y):
    """new values for kull vahid year month day, mostly one or two of them"""
    f = [NN] * 5
    for w in rng.sample(range(5) if form or rng.random() < .1 else range(2, 5), rng.choice((1, 1, 2, 3) if not form else (1, 1, 2, 3, 5)) if form else rng.choice((1, 1, 2, 3))):
        if w == 2 and not form:
            f[2] = ryear(rng) if rng.random() < .9 else edge(rng, MINY, MAXY)
        elif w == 0:
            f[0] = rng.randint(-5, 4) if rng.random() < .85 else edge(rng, -5, 4)
        elif w == 3:
            f[3] = rng.choice((0, 0, 1, 18, 19, rng.randint(0, 19), rng.randint(0, 19), edge(rng, 0, 19)))
        elif w == 4:
            f[4] = rng.choice((1, 4, 5, 19, rng.randint(1, 19), rng.randint(1, 5), edge(rng, 1, 19)))
        else:
            f[w] = rng.randint(1, 19) if rng.random() < .9 else edge(rng, 1, 19)
    return tuple(f)


def newtime(rng):
    f = [NN] * 5
    for w in rng.sample(range(5), rng.choice((0, 1, 1, 2, 5))):
        hi = (24, 59, 60, 999999, 1)[w]
        f[w] = rng.choice((0, 0, hi, rng.randint(0, hi), rng.randint(0, hi), edge(rng, 0, hi)))
    return tuple(f)


def newzone(rng):
    x = rng.random()
    return (-1, 0, 0) if x < .6 else (0, 0, 0) if x < .75 else rzone(rng, True)


@gen
def C20(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    for _ in range(2600 * k // n):
        p = rdate(rng)
        form = rng.randint(0, 1)
        yield "repdate", (form,) + p + newfields(rng, form, p[0]), ()
        p = rdate(rng)
        form = rng.randint(0, 1)
        yield "repdt", (form,) + p + rt8(rng, minutes=False) + (newfields(rng, form, p[0]) if rng.random() < .6 else (NN,) * 5) + newtime(rng) + newzone(rng), ()
        yield "reptime", rt8(rng, minutes=False) + newtime(rng) + newzone(rng), ()
        yield "combine", (rng.randint(0, 1),) + rdate(rng) + rt8(rng, minutes=False) + newzone(rng), ()


@gen
def C21(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    for _ in range(6000 * k // n):
        a = rt8(rng)
        x = rng.random()
        if x < .4 and a[4]:
            # the same or a neighbouring moment in another zone
            z = rzone(rng, True, True)
            m = a[0] * 60 + a[1] - a[5] // 60 + z[1] // 60 + rng.choice((0, 0, 0, 1, -1, 60))
            if not 0 <= m < 25 * 60:
                continue
            b = (m // 60, m % 60, a[2], a[3] if x < .3 else rng.choice((0, 999999, a[3]))) + z + (0,)
        elif x < .7:
            b = list(a[:4])
            w = rng.randint(0, 3)
            b[w] = rng.choice((0, (23, 59, 59, 999999)[w], b[w]))
            b = tuple(b) + rng.choice((a[4:7], rzone(rng, None, True))) + (rng.randint(0, 1),)
        else:
            b = rt8(rng)
        yield "tcmp", a + b, ()
    for _ in range(3000 * k // n):
        yield "tiso", rt8(rng, minutes=False), (rng.choice(("auto", "hours", "minutes", "seconds", "milliseconds", "microseconds", "milliseconds", "days", "")),)
        h, mi, s, _ = rtime(rng)
        yield "tback", (h, mi, s, 0, 0, 0, 0, 0), ()
        if rng.random() < .2:
            yield "tbool", rt8(rng), ()
    for o in split(OTHERTYPES[:-1], shard, n):
        for _ in range(4):
            yield "tcmpother", rt8(rng), (o,)


@gen
def C22(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    for y in split(range(MINY, MAXY + 1), shard, n):
        for _ in range(k):
            m, d = rmd(rng, y)
            if gapdate(y, m, d) or y in EXCL:
                continue
            yield "dtup", (rng.randint(0, 1), rng.randint(0, 0), y, m, d), ()
            z = rzone(rng)
            yield "ttup", (rng.randint(0, 1), y, m, d) + rtime(rng) + z + (0,), ()
            if rng.random() < .25:
                yield "tupnames", (rng.randint(0, 1), y, m, d) + rtime(rng) + rzone(rng) + (0,), ()
            if rng.random() < .5:
                f = list(lform(y) if rng.random() < .5 else (y,)) + [m, d] + list(rtime(rng)[:3]) + [rng.randint(0, 6), rng.randint(1, 366), rng.randint(-1, 1)]
                w = rng.randint(0, 9)
                if w < 2:
                    f[-1] = rng.choice((-2, 2, 9))
                elif w < 4:
                    f[-rng.choice((4, 5, 6))] = rng.choice((-1, 60, 61, 25))
                elif w < 6:
                    f[-rng.choice((7, 8))] = rng.choice((20, -1, 0, 6, 5))
                elif w == 6:
                    f = f[:-1] if rng.random() < .5 else f + [0]
                yield "tupbad", tuple(f), ()
    for _ in range(3000 * k // n):
        yield "utup", rdt(rng, None, inner=True), ()
        if rng.random() < .5:
            yield "tuprt", rdt(rng), ()


@gen
def C26(rng, tier, shard, n):
    def z():
        return (rng.randint(-360, 360), rng.randint(-720, 720), NN if rng.random() < .1 else rng.randint(-95, 95), rng.randint(0, 3), rng.randint(0, 1) if rng.random() < .2 else 0)
    for _ in range(Q(tier, 5000, 100000) // n):
        c = rng.randint(1, 5)
        zs = [z() for _ in range(c)]
        if rng.random() < .5 and c > 1:
            # two that agree in all but one thing
            w = list(zs[0])
            j = rng.randint(0, 3)
            w[j] = z()[j]
            zs[1] = tuple(w)
        yield "zones", (c, rng.randrange(c), rng.randint(0, 8)) + sum(zs, ()), ()


@gen
def C27(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    for y in split(range(MINY, MAXY + 1), shard, n):
        if y in EXCL:
            continue
        for _ in range(k):
            yield "reprdate", (rng.randint(0, 1), rng.randint(0, 0), y) + rmd(rng, y), ()
            m, d = rmd(rng, y)
            yield "reprdt", (rng.randint(0, 1), y, m, d) + rt8(rng, minutes=False), ()
    for _ in range(1500 * k // n):
        yield "reprtime", rt8(rng, aware=False), ()
        yield "reprtz", rzone(rng, True), ()
        a = rdt(rng)
        b = list(a)
        w = rng.choice((0, 4, 5, 6, 7, 11, 12))
        if w == 0:
            b[0] = 1 - b[0]
        elif w < 8:
            b[w] = rng.choice((0, 1, 2, b[w]))
        elif w == 11:
            b[w] = 1 - b[w]
        yield "reprpair", a + tuple(b), ()


def rsec(rng):
    """a time of day as seconds and microseconds, biased to carries"""
    h, m, s, us = rtime(rng)
    x = rng.random()
    if x < .3:
        us = rng.choice((999999, 999998, 1, 0, 500000, 999500, 999999))
        s = rng.choice((59, 0, s))
        m = rng.choice((59, 0, m))
    return h * 3600 + m * 60 + s, us


GMD = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def gleap(y):
    return y % 4 == 0 and y % 100 != 0 or y % 400 == 0


def rgreg(rng, lo=1, hi=3005):
    x = rng.random()
    y = rng.randint(lo, hi)
    if x < .3:
        y = max(lo, min(hi, rng.choice((4, 100, 400)) * rng.randint(0, 800) + rng.choice((0, 0, 1, -1))))
        while not lo <= y <= hi:
            y = rng.randint(lo, hi)
    m = rng.choice((1, 2, 2, 3, 12, rng.randint(1, 12), rng.randint(1, 12)))
    n = GMD[m - 1] + (m == 2 and gleap(y))
    d = rng.choice((1, n, n - 1, rng.randint(1, n), rng.randint(1, n)))
    return y, m, d


def ghist(y, m, d):
    return (y, m, d) < (1582, 10, 5) or (y, m, d) >= (1582, 10, 15)


def gord(y, m, d):
    y1 = y - 1
    return 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400 + sum(GMD[:m - 1]) + (m > 2 and gleap(y)) + d


@gen
def C13(rng, tier, shard, n):
    for y in split(range(1, 3006), shard, n):
        ds = [(m, d) for m in range(1, 13) for d in (1, GMD[m - 1] + (m == 2 and gleap(y)))]
        for m, d in (rng.sample(ds, 3) + [(2, 28 + gleap(y))] if tier == "quick" else ds):
            sec, us = rsec(rng)
            yield "gjd", (y, m, d, sec, us, rng.randint(0, 2), 1), ()
            if y > 1582:
                yield "gjd", (y, m, d, sec, us, rng.randint(0, 2), 0), ()
            if (m, d) != (2, 29) or y % 128:
                yield "galt", (y, m, d, sec, us), ()
        if not gleap(y):
            yield "gbad", (1, y, 2, 29), ()
            if y > 1582:
                yield "gbad", (0, y, 2, 29), ()
    for _ in range(Q(tier, 4000, 150000) // n):
        q = rgreg(rng)
        sec, us = rsec(rng)
        yield "gjd", q + (sec, us, rng.randint(0, 2), 1), ()
        yield "gback", (gord(*q) + 1721423, sec, us // 1000, 1), ()
        if q >= (1582, 10, 15):
            yield "gjd", q + (sec, us, rng.randint(0, 2), 0), ()
            yield "gback", (gord(*q) + 1721425, sec, us // 1000, 0), ()
        if q < (2900, 1, 1):
            yield "meeus", (gord(*q) + 1721423, sec if rng.random() < .7 else 0), ()
        y, m, d = q
        x = rng.randint(0, 4)
        bad = ((y, rng.choice((0, 13, 14)), d), (y, m, rng.choice((0, 32, GMD[m - 1] + 2))), (y, m, d, 24), (y, m, d, 3, 60), (y, m, d, 25, 1))[x]
        ex = rng.randint(0, 1)
        if ex or y > 1583:
            yield "gbad", (ex,) + bad, ()
    if shard == 0:
        for d in range(5, 15):
            yield "gbad", (0, 1582, 10, d), ()
            yield "meeus", (gord(1582, 10, d) + 1721423, 0), ()
            yield "gjd", (1582, 10, d, 0, 0, 1, 1), ()
        for d in range(14, 32):
            yield "gback", (gord(1582, 10, d) + 1721423, 43200, 0, 1), ()
            yield "gback", (gord(1582, 10, max(d, 15)) + 1721425, 43200, 0, 0), ()
    # both sides of the century days of the Julian calendar
    for c in split(range(100, 1600, 100), shard, n):
        for m, d in ((2, 27), (2, 28), (3, 1), (3, 2)):
            for sec in (0, 3600, 43200, 86399):
                yield "meeus", (gord(c, m, d) + 1721423, sec), ()


@gen
def C14(rng, tier, shard, n):
    for _ in range(Q(tier, 3000, 120000) // n):
        sec, us = rsec(rng)
        if (sec, us) < (86399, 996000):
            yield "decday", (sec, us, rng.choice((0, 0, 0, 1, 17, 2))), ()
        yield "dayhms", (sec // 3600, sec // 60 % 60, sec % 60, us), ()
        z = rng.choice((0, 0, 14, -14, 22, 37, 56, -48, rng.randint(-48, 56)))
        s2 = sec + rng.choice((0, 0, 86400))
        if 0 <= s2 + 900 * z < 2 * 86400 or (us == 0 and -86400 < s2 + 900 * z < 2 * 86400):
            yield "dhms", (s2, us, z, rng.choice((0, 0, 0, 5, 6, 9, rng.randint(0, 9)))), ()
        yield "sdhms", (rng.randint(0, 3), sec // 3600, sec // 60 % 60, sec % 60, us, z), ()
        yield "smicro", (rng.choice((sec, sec % 60)), us), ()
        x = rng.random()
        if x < .5:
            arc = rng.choice((0, 1, 59, 60, 3599, 3600, 90 * 3600, 180 * 3600, 3600 * rng.randint(0, 180), 60 * rng.randint(0, 10800)))
        else:
            arc = rng.randint(0, 648000)
        u = rng.choice((0, 0, 1, 9999, 5000, rng.randint(0, 9999)))
        if arc == 648000:
            u = 0
        yield "dms", (arc, u, rng.randint(0, 1)), (rng.choice(("LAT", "LON", "LATITUDE", "LONGITUDE")),)
        yield "hmsdeg", (arc, u, 0), ()
        w = rng.randint(0, 2)
        h, m, x = sec // 3600, sec // 60 % 60, sec % 60
        if w == 1:
            h = rng.randint(0, 23)
        if (h, m, x, us) < (23, 59, 59, 999900) and (m, x, us) < (59, 59, 999900) and (w == 0 or (x, us) < (59, 999990)):
            yield "frac", (w, h, m, x, us, rng.randint(0, 1)), ()
        y, m, d = rdate(rng)
        if not gapdate(y, m, d) and (sec, us) < (86399, 996000):
            yield "kvym", lform(y) + (m, d, sec, us), ()
            yield "gymd", rgreg(rng) + (sec, us), ()
            how = rng.randint(0, 3)
            cnt = rng.randint(0, 4 if how != 1 else 3)
            t = [0] * 4
            for i in range(cnt):
                t[i] = 4 * rng.randint(0, (23, 59, 58)[i]) if i < 3 else rng.choice((0, rng.randint(1, 999000)))
            if cnt and t[3] == 0 and rng.random() < .5 and how != 2:
                t[min(cnt, 3) - 1] += rng.randint(1, 3)
            if how == 2:
                t = [4 * rng.randint(0, 23), 4 * rng.randint(0, 59), 4 * rng.randint(0, 58), rng.choice((0, rng.randint(1, 990000)))]
            yield "parts", (how, cnt) + (lform(y) + (m, d) if how > 1 else rgreg(rng)) + tuple(t), ()


LATS = (-60000, -45000, -30000, 0, 20000, 35682, 51500, 60000)
LONS = (-180000, -179900, -120000, -74000, -30000, 0, 30000, 51286, 90000, 120000, 150000, 179900, 180000)


def rplace(rng):
    """latitude, longitude in thousandths of a degree, a zone that fits, in quarters of an hour"""
    lat = rng.choice(LATS) if rng.random() < .4 else rng.randint(-60000, 60000)
    lon = rng.choice(LONS) if rng.random() < .4 else rng.randint(-180000, 180000)
    z = max(-48, min(56, round(lon / 3750) + rng.choice((0, 0, 1, -2, 4, -4, 9, -8))))
    return lat, lon, z if rng.random() < .85 else rng.choice((-48, 0, 56, rng.randint(-48, 56)))


def modern(rng):
    while True:
        x = rng.random()
        o = rng.randint(577810, MAXORD - 3) if x < .7 else rng.randint(YS(165), YS(200))
        q = ymd(o)
        if q[0] not in EXCL:
            return o, q


def olden(rng):
    while True:
        o = rng.randint(MINORD + 3, 577650) if rng.random() < .8 else gord(rng.choice((1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)) * 100, 2, 28) + rng.randint(-5, 5)
        q = ymd(o)
        if q[0] not in EXCL and o < 577650:
            return o, q


def rday(rng):
    return modern(rng) if rng.random() < .7 else olden(rng)


def daysec(rng):
    x = rng.random()
    us = rng.choice((0, 0, 1, 999999, 500000, rng.randint(0, 999999)))
    return (rng.choice((0, 0, 1, 43200, 85500, 86340, 86399)) if x < .5 else rng.randint(0, 86399)), us


@gen
def C12(rng, tier, shard, n):
    if shard == 0:              # a minute before a sunset, days growing longer
        yield "atinstant", (2460392, 66264, 0, 60000, 0, 0, 0), ()
    for _ in range(Q(tier, 3600, 80000) // n):
        o, q = rday(rng)
        yield "dayat", q + daysec(rng) + rplace(rng), ()
    for _ in range(Q(tier, 1200, 40000) // n):
        o, q = modern(rng)
        p = rplace(rng)
        yield "daystart", q + p + (rng.choice((0, 3, 3)),), ()
        yield "daystart", (max(q[0], -260), 1, 1) + p + (rng.choice((4, 5)),), ()
        yield "atinstant", (o + 1721423, rng.randrange(86400), rng.choice((0, 0, 500000))) + p + (rng.choice((0, 2, 2, 4)),), ()


@gen
def C25(rng, tier, shard, n):
    if shard == 0:
        yield "atinstant", (2460392, 66264, 0, 60000, 0, 0, 0), ()
    for _ in range(Q(tier, 2400, 80000) // n):
        o, q = modern(rng)
        p = rplace(rng)
        yield "daystart", q + p + (rng.choice((0, 1, 2, 2)),), ()
        # instants around a sunset: by the almanac of a rough cosine, then close by
        yield "atinstant", (o + 1721423, rng.randrange(86400), 0) + p + (rng.choice((0, 0, 1, 3)),), ()
    import ops
    for _ in range(Q(tier, 1200, 40000) // n):
        o, q = modern(rng)
        p = rplace(rng)
        try:
            r = ops.daystart(q + p + (0,), ())
        except Exception:
            continue
        dt = rng.choice((-2, -1, 1, 2, -30, 30, -90, 90, -300, 300, rng.randint(-600, 600)))
        s = r[1] + dt
        if abs(r[0]) < 3000000:
            yield "atinstant", (r[0] + s // 86400, s % 86400, 0) + p + (rng.choice((0, 0, 1, 3)),), ()


@gen
def C31(rng, tier, shard, n):
    for _ in range(Q(tier, 1500, 40000) // n):
        o, q = modern(rng) if rng.random() < .85 else olden(rng)
        p = rplace(rng)
        mode = rng.choice((0, 0, 0, 1, 1, 2, 3, 4))
        if o >= 577800:
            sec = rng.choice((0, 43200, 86399, rng.randrange(86400), rng.randrange(86400), rng.randrange(1440) * 60, rng.randrange(24) * 3600))
            yield "optsfrom", (o + 1721423, sec, rng.choice((0, 0, 500000, rng.randint(0, 999999)))) + p + (mode,), ()
        sec, us = daysec(rng)
        if rng.random() < .3:
            sec, us = rng.choice((rng.randrange(24) * 3600, rng.randrange(1440) * 60)), 0
        yield "optsto", q + (sec, us) + p + (mode,), ()


@gen
def C30(rng, tier, shard, n):
    for _ in range(Q(tier, 3000, 60000) // n):
        o, q = modern(rng)
        lat, lon, z = rplace(rng)
        yield "sky", (o, lat, lon, 833), ()
        if abs(lat) <= 45000:
            yield "sky", (o, lat, lon, rng.choice((0, 6000, 12000, 18000, -6000, 300, 567))), ()
    for y in range(1000 + shard, 3001, n if tier != "quick" else 2 * n):
        for k in range(4):
            at = (0, 0) if y < 1583 or rng.random() < .3 else (rng.choice((1, 365, 1, 365, rng.randint(1, 365))), rng.choice((0, 60, 86340, rng.randrange(86400))))
            yield "season", (y, k, rng.choice((0, 14, -20, 22, rng.randint(-48, 56))), *at), ()


PLACES = ((999999, 999999), (35682, 51286), (0, 0), (60000, -180000), (-60000, 180000), (51500, -100), (-33900, 151200), (21300, -157900), (40700, -74000), (-17700, 178000))


@gen
def C11(rng, tier, shard, n):
    if shard == 0:
        for dt in (-1, 1):
            yield "fromts", (2460392, 53408 + 5 * dt, 0, 999999, 999999), ()
    for i in range(3):
        p = PLACES[(3 * shard + i) % len(PLACES)] if i else PLACES[0]
        if i == 2 and rng.random() < .5:
            p = rplace(rng)[:2]
        for _ in range(Q(tier, 260, 6000)):
            o, q = rday(rng)
            yield "ts", (rng.randint(0, 1),) + q + ((rng.randrange(86400, 86460), rng.choice((0, 0, 500000, rng.randint(0, 999999)))) if rng.random() < .06 else daysec(rng)) + p, ()
            o, q = rday(rng)
            yield "fromts", (o + 1721423, rng.randrange(86400), rng.choice((0, 500000, rng.randint(0, 999999)))) + p, ()
        import ops
        for _ in range(Q(tier, 40, 1500)):
            o, q = rday(rng)
            try:
                r = ops.ts((0,) + q + (0, 0) + p, ())
            except Exception:
                continue
            dt = rng.choice((-2, -1, 1, 2, -30, 30, -90, 90, rng.randint(-600, 600)))
            s = r[1] + dt
            if abs(r[0]) < 3000000:
                yield "fromts", (r[0] + s // 86400, s % 86400, 0) + p, ()


# ---- C15
def ytxt(y, three=False):
    """year of a spelling: sign and four digits, or as isoformat has it"""
    return ("-%03d" % -y if three else "-%04d" % -y) if y < 0 else "%04d" % y


def dspell(rng, y, m, d, compact):
    """one spelling of a date, in weeks, days of the year or months"""
    three = y < 0 and y > -1000 and not compact and rng.random() < .6
    t = ytxt(y, three)
    sep = "" if compact else "-"
    x = rng.random()
    k = ordn(y, m, d) - YS(y) + 1
    if x < .5:
        return t + sep + "%02d" % m + sep + "%02d" % d
    if x < .75 or any(y + j in EXCL for j in (-2, -1, 0, 1, 2)):
        return t + sep + "%03d" % k
    n = ordn(y, m, d)
    iy = y
    while True:
        w1 = isoweek1(iy)
        if n < w1:
            iy -= 1
        elif n >= isoweek1(iy + 1):
            iy += 1
        else:
            break
    if not MINY <= iy <= MAXY:
        return t + sep + "%03d" % k
    w, wd = divmod(n - w1, 7)
    three = iy < 0 and iy > -1000 and not compact and rng.random() < .6
    return ytxt(iy, three) + sep + "W%02d" % (w + 1) + sep + "%d" % (wd + 1)


def isoweek1(y):
    """ordinal of the first day of ISO week 1"""
    n = YS(y) if y <= MAXY else YS(MAXY + 1)
    w = (n + 1) % 7                      # 0 is Jalal
    return n - w + (7 if w > 3 else 0)


def tspell(rng, h, mi, s, us, compact):
    c = "" if compact else ":"
    if us:
        return "%02d%s%02d%s%02d.%06d" % (h, c, mi, c, s, us)
    if s:
        return "%02d%s%02d%s%02d" % (h, c, mi, c, s)
    x = rng.random()
    if x < .3:
        return "%02d%s%02d%s%02d" % (h, c, mi, c, s)
    if x < .4 and not compact:
        return "%02d:%02d:%02d.000" % (h, mi, s)
    if mi or x < .7:
        return "%02d%s%02d" % (h, c, mi)
    return "%02d" % h


def fspell(rng, h, mi, s):
    """a time with a fraction of its last field, and what it means"""
    c = rng.choice(("", ":"))
    unit = rng.choice((3600, 60, 60, 1))
    k = rng.randint(1, 5 if unit == 3600 else 6)
    f = rng.choice(("0" * k, "9" * k, "5".ljust(k, "0"), "%0*d" % (k, rng.randrange(10**k))))
    us = int(f) * unit * 10**6 // 10**k
    if unit == 3600:
        return "%02d.%s" % (h, f), (h, us // 60000000, us // 10**6 % 60, us % 10**6)
    if unit == 60:
        return "%02d%s%02d.%s" % (h, c, mi, f), (h, mi, us // 10**6, us % 10**6)
    return "%02d%s%02d%s%02d.%s" % (h, c, mi, c, s, f), (h, mi, s, us)


def ospell(rng, aware, om):
    if not aware:
        return ""
    if om == 0 and rng.random() < .5:
        return "Z"
    t = "%s%02d" % ("-" if om < 0 else "+", abs(om) // 60)
    return t if om % 60 == 0 and rng.random() < .3 else t + ":%02d" % (abs(om) % 60)


ALPH = "0123456789" * 2 + "-----WWTT ::..+ZB" + "x/,"


def mutate(rng, t):
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        x = rng.random()
        i = rng.randrange(len(t) + 1)
        if x < .35 and t:
            i = min(i, len(t) - 1)
            t = t[:i] + rng.choice(ALPH) + t[i + 1:]
        elif x < .55:
            t = t[:i] + t[i + 1:]
        elif x < .75:
            t = t[:i] + rng.choice(ALPH) + t[i:]
        elif x < .85:
            t = t[:i]
        elif x < .95 and i + 1 < len(t):
            t = t[:i] + t[i + 1] + t[i] + t[i + 2:]
        else:
            t = t + rng.choice(("0", "1", "-01", "Z", "+01", ":00", ".0"))
    return t


def wrongfields(rng):
    """well-formed spellings of dates that do not all exist"""
    y = rng.choice((ryear(rng), rng.randint(-1850, 1170), rng.choice((-1843, -1842, 1161, 1162, 0, -1))))
    t = ytxt(y, -1000 < y < 0 and rng.random() < .5)
    sep = rng.choice(("-", "-", ""))
    x = rng.random()
    if sep == "" and len(t) == 4 and y < 0:
        t = ytxt(y)
    if x < .4:
        return t + sep + "%02d" % rng.choice((0, 0, 1, 18, 19, 20, 21, rng.randint(0, 99))) + sep + "%02d" % rng.choice((0, 1, 4, 5, 6, 19, 20, rng.randint(0, 99)))
    if x < .7:
        return t + sep + "%03d" % rng.choice((0, 1, 342, 343, 364, 365, 366, 367, 999, rng.randint(0, 999)))
    return t + sep + "W%02d" % rng.choice((0, 1, 51, 52, 53, 54, rng.randint(0, 99))) + sep + "%d" % rng.randint(0, 9)


@gen
def C15(rng, tier, shard, n):
    k = Q(tier, 1, 25)
    if shard == 0:
        # the listed deviations of weeks 52 and 53
        for t in ("0181-W52-1", "0183-W52-3", "0182-W53-1", "0187-W53-2", "0181W527", "0192-W53-1", "0176-W53-1", "0184-W52-1", "0185-W52-1", "0186-W52-1"):
            yield "readd", (0,), (t,)
            yield "readdt", (), (t,)
    for y in split(range(MINY, MAXY + 1), shard, n):
        for _ in range(2 * k):
            m, d = rmd(rng, y)
            f = rng.randint(0, 1)
            yield "isod", (f, y, m, d), ()
            yield "isobackd", (f, y, m, d), ()
            yield "spelld", (rng.randint(0, 1), y, m, d), (dspell(rng, y, m, d, rng.random() < .4),)
    for _ in range(7000 * k // n):
        p = rdate(rng)
        tm = rtime(rng)
        c = rng.random() < .3
        aw = rng.random() < .6
        om = rng.choice((0, 60, -60, 210, -1, 1, 1439, -1439, rng.randint(-1439, 1439), rng.randint(-24, 23) * 60 + 30))
        om = max(-1439, min(1439, om))
        t = dspell(rng, *p, c) + rng.choice("TTT ") + tspell(rng, *tm, c) + ospell(rng, aw, om)
        yield "spelldt", p + tm + ((1, 60 * om, 0) if aw else (0, 0, 0)), (t,)
        if rng.random() < .6:
            yield "readdt", (), (mutate(rng, t),)
        if rng.random() < .2:
            w, tm = fspell(rng, *tm[:3])
            t = dspell(rng, *p, c) + rng.choice("TTT ") + w + ospell(rng, aw, om)
            yield "spelldt", p + tm + ((1, 60 * om, 0) if aw else (0, 0, 0)), (t,)
        if rng.random() < .5:
            yield "isodt", rdt(rng), (rng.choice(("T", "T", " ", "_")), rng.choice(("auto", "auto", "hours", "minutes", "seconds", "milliseconds", "microseconds", "days")))
        z = rng.random() < .3
        yield "isoback", (rng.randint(0, 1),) + p + tm + ((0, 0, 0) if z else (2, 60 * om, 0)) + (0,), (rng.choice("TT "),)
    for _ in range(9000 * k // n):
        if rng.random() < .5:
            t = wrongfields(rng)
            if rng.random() < .2:
                t = mutate(rng, t)
        else:
            p = rdate(rng)
            t = mutate(rng, dspell(rng, *p, rng.random() < .4))
        if rng.random() < .6:
            yield "readd", (rng.randint(0, 1),), (t,)
        else:
            if rng.random() < .3:
                t += "T" + tspell(rng, *rtime(rng), False)
            yield "readdt", (), (t,)


# ---- C16
TIMEDIR = ["H", "-H", "k", "I", "l", "-l", "M", "-M", "S", "-S", "f", "p", "r", "T", "X", "n", "%", "z", ":z", "Z"]
DATEDIR = ["a", "A", "b", "B", "h", "c", "C", "d", "-d", "D", "e", "G", "j", "-j", "K", ":K", "m", "-m", "u", "w", "U",
           "W", "V", ":V", "x", "y", "-y", "Y"]
LITS = [" ", "-", "/", ":", ", ", "T", "a", "Y", "d", "the ", "\u00e9", "\u2019", "{", "}", "\\", '"', "0", "f", "z", ""]
BADDIR = ["E", "F", "g", "i", "J", "L", "N", "o", "O", "P", "q", "Q", "R", "s", "t", "v", ".", " ", "-a", "-k", "-I", "-Y", "-f", "-%",
          ":d", ":Y", ":H", ":v", "-", ":", "--d", "::z", "1", "\u00e9", "-:z", ":-d"]


def gdate(rng):
    while True:
        p = rdate(rng)
        if not gapdate(*p):
            return p


def rformat(rng, dirs, bad=.08):
    n = rng.choice((1, 1, 2, 3, 5, 8))
    t = ""
    if rng.random() < .7:
        dirs = [x for x in dirs if x not in "pr"]       # these cost two sunsets
    for _ in range(n):
        if rng.random() < .35:
            t += rng.choice(LITS)
        t += "%" + (rng.choice(BADDIR) if rng.random() < bad / n else rng.choice(dirs))
    if rng.random() < .2:
        t += rng.choice(LITS)
    if rng.random() < .04:
        t += "%"
    return t


def weekful(f):
    return any(c in f for c in "GVUW")


def offw(rng):
    """offset mostly of whole or quarter hours"""
    return 3600 * rng.randint(-23, 23) if rng.random() < .75 else 900 * rng.randint(-95, 95)


def fzone(rng):
    k = rng.choice((0, 1, 2, 3, 6))
    return (0, 0, 0) if k == 0 else (k,) + ((offw(rng), 0) if rng.random() < .8 else roff(rng, k == 6))


def offweeks(y):
    return any(y + j in EXCL for j in (-2, -1, 0, 1, 2))


@gen
def C16(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    alld = DATEDIR + TIMEDIR
    for y in split(range(MINY, MAXY + 1), shard, n):
        if offweeks(y):
            continue
        for _ in range(k):
            m, d = rmd(rng, y)
            if gapdate(y, m, d):
                continue
            half = rng.random() < .03
            yield "fmtd", (rng.randint(0, 1), 0, y, m, d), ("|".join("%" + x for x in alld if x != ":z" and x != "c" and (half or x not in "prGVUW")),)
            m, d = rng.choice(((1, rng.randint(1, 8)), (19, rng.randint(12, 19))))
            yield "fmtd", (rng.randint(0, 1), 0, y, m, d), (rng.choice(("%U %u", "%W %j", "%V %w", "%G")),)
    for x in split(alld + BADDIR, shard, n):
        for _ in range(12 * k):
            p = gdate(rng)
            yield "fmtd", (rng.randint(0, 1), 0) + p, ("%" + x,)
            a = (rng.randint(0, 1),) + gdate(rng) + rtime(rng) + fzone(rng) + (0,)
            if not offweeks(a[1]):
                yield "fmtdt", a, ("%" + x,)
            if x in TIMEDIR:
                yield "fmtt", rtime(rng) + fzone(rng) + (rng.randint(0, 1),), ("%" + x,)
    for i in range(14000 * k // n):
        x = rng.random()
        if x < .3:
            f = rformat(rng, alld)
            p = gdate(rng)
            if not (weekful(f) and offweeks(p[0])):
                yield "fmtd", (rng.randint(0, 1), 0) + p, (f,)
        elif x < .8:
            f = rformat(rng, alld)
            p = gdate(rng)
            if not (weekful(f) and offweeks(p[0])):
                yield "fmtdt", (rng.randint(0, 1),) + p + rtime(rng) + fzone(rng) + (rng.randint(0, 1),), (f,)
        elif x < .95:
            yield "fmtt", rtime(rng) + fzone(rng) + (rng.randint(0, 1),), (rformat(rng, TIMEDIR),)
        else:
            yield "ctimedt", (rng.randint(0, 1),) + gdate(rng) + rtime(rng) + fzone(rng) + (0,), ()
    # both halves of the day, also where Julian day corrections change
    for y in split(range(MINY, MAXY + 1), shard, n):
        if y % 4 == 0:
            s = rng.choice((rng.randint(0, 43019), rng.randint(43381, 86399)))
            yield "fmtdt", (rng.randint(0, 1), y) + rng.choice(((0, ad(y)), (19, 1), (0, 4), (19, 2), (18, 19))) + (s // 3600, s // 60 % 60, s % 60, 0, 0, 0, 0, 0), ("%p",)
    for i in range(800 * k // n):
        s = rng.choice((rng.randint(0, 86399), 43200 + rng.choice((-1, 1)) * rng.choice((181, 200, 600, 3600, 42000))))
        s = min(max(s, 0), 86399)
        p = gdate(rng)
        yield "fmtdt", (rng.randint(0, 1),) + p + (s // 3600, s // 60 % 60, s % 60, 0, 0, 0, 0, 0), (rng.choice(("%p", "%I %p", "%r", "%l:%M %p")),)


# ---- C17
def gooddate(rng, weeks):
    while True:
        p = gdate(rng)
        if not (weeks and offweeks(p[0])):
            return p


def names(what):
    """the names of the specification"""
    import re
    body = re.search(r"^%s == <<(.*)>>$" % what, open(SPEC + "/BadiText.tla").read(), re.M).group(1)
    return [re.sub(r"\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), x) for x in re.findall(r'"([^"]*)"', body)]


DAYABV, DAYNAMES, MONTHABV, MONTHNAMES = map(names, ("DayAbv", "DayName", "MonthAbv", "MonthName"))
PDATE = ["%Y-%m-%d", "%Y/%m/%d", "%Y%m%d", "%d.%m.%Y", "%m/%d/%Y", "%d %B %Y", "%B %d, %Y", "%A %d %B %Y", "%a, %d %b %Y", "%b%d%Y",
         "%Y-%j", "%j %Y", "%Y%j", "%d%m%Y", "%Y %m %d %u", "%w:%d:%m:%Y", "%% %Y|%m|%d %%", "(%Y) [%m] {%d}", "%d*%m+%Y?", "%Y\\%m^%d$"]
PWEEK = ["%Y-%U-%u", "%Y W%W %A", "%U.%w.%Y", "%a %W %Y"]
PISO = ["%G-W%V-%u", "%GW%V%u", "%A %V %G", "%a.%V.%G", "%G/%V/%w"]
PPART = ["%y-%m-%d", "%x", "%m-%d", "%Y", "%m", "%d", "%Y-%m", "%B", "%a", "%j", "%U", "%Y-%V-%u", "%V", "%G", "%G-%V", "%G-%j", "%Y %G %V %u", "%y"]
PTIME = ["%H:%M:%S", "%H%M%S", "%H:%M", "%H", "%I:%M:%S %p", "%I %p", "%p %I.%M", "%H:%M:%S.%f", "%X", "%M:%S", "%H%M%S%f", "%S,%f", "%I:%M%p.%f", "%f", "%p"]
PZONE = ["%z", " %z", "%z", " %Z", "%z %Z", "[%z]"]


def pformat(rng, kinds=None):
    k = kinds or rng.choice(("date", "date", "iso", "week", "part", "c", "none"))
    f = {"date": lambda: rng.choice(PDATE), "iso": lambda: rng.choice(PISO), "week": lambda: rng.choice(PWEEK),
         "part": lambda: rng.choice(PPART), "c": lambda: "%c", "none": lambda: ""}[k]()
    if k != "c" and (k == "none" or rng.random() < .7):
        t = rng.choice(PTIME)
        f = rng.choice((f + rng.choice((" ", "T", ", ", "_", "  ")) + t, t + rng.choice((" ", " on ", ";")) + f)) if f else t
    if rng.random() < .45:
        f += rng.choice(PZONE)
    return f


def wtext(rng, f, a, loose):
    """text of the fields a (12 integers) in format f, as formatted or with
    other widths; its own writer, only to make inputs"""
    y, m, d, h, mi, s, us = a[1:8]
    n = ordn(y, m, d)
    wd = (n + 1) % 7
    iy = y
    while n < isoweek1(iy):
        iy -= 1
    while iy + 1 <= MAXY + 1 and n >= isoweek1(iy + 1):
        iy += 1
    def num(v, w):
        return str(v) if loose and rng.random() < .4 else "%0*d" % (w, v)
    def yr(v):
        if loose and rng.random() < .4:
            return str(v)
        return ("-%04d" % -v) if v < 0 else "%04d" % v
    def off():
        if a[8] == 0:
            return ""
        o = abs(a[9])
        g = "-" if a[9] < 0 else "+"
        if loose and o == 0 and rng.random() < .5:
            return "Z"
        c = ":" if loose and rng.random() < .5 else ""
        t = g + "%02d%s%02d" % (o // 3600, c, o // 60 % 60)
        if o % 60 or (loose and rng.random() < .2):
            t += c + "%02d" % (o % 60)
            if loose and rng.random() < .5:
                t += "." + "%06d" % rng.choice((0, 1, 500000, 999999))
        return t
    W = {"Y": lambda: yr(y), "G": lambda: yr(iy), "y": lambda: "%02d" % (abs(y) % 100), "m": lambda: num(m, 2),
         "d": lambda: (" %d" % d) if loose and d < 10 and rng.random() < .2 else num(d, 2),
         "H": lambda: num(h, 2), "I": lambda: num(h % 12 or 12, 2), "M": lambda: num(mi, 2), "S": lambda: num(s, 2),
         "p": lambda: "PM" if h >= 12 else "AM", "j": lambda: num(n - YS(y) + 1, 3), "U": lambda: num((n - isoweek1(y)) // 7 + 1, 2),
         "W": lambda: num((n - isoweek1(y)) // 7 + 1, 2), "V": lambda: num((n - isoweek1(iy)) // 7 + 1, 2),
         "u": lambda: str(wd + 1), "w": lambda: str(wd), "a": lambda: DAYABV[wd], "A": lambda: DAYNAMES[wd],
         "b": lambda: MONTHABV[m], "B": lambda: MONTHNAMES[m], "z": off, "Z": lambda: rng.choice(("UTC", "GMT", "UTC+01:00", "")),
         "f": lambda: ("%06d" % us).rstrip("0") or "0" if loose and rng.random() < .5 else "%06d" % us, "%": lambda: "%"}
    f = f.replace("%c", "%a %b %d %H:%M:%S %Y").replace("%x", "%m/%d/%y").replace("%X", "%I:%M:%S")
    out, i = "", 0
    while i < len(f):
        if f[i] == "%" and i + 1 < len(f):
            out += W[f[i + 1]]() if f[i + 1] in W else "?"
            i += 2
        else:
            out += f[i] if not (loose and f[i] == " " and rng.random() < .2) else "  "
            i += 1
    return out


def pmutate(rng, t):
    """a small change of a text that leaves the case of letters alone"""
    if not t:
        return rng.choice(("0", " ", "-"))
    i = rng.randrange(len(t))
    x = rng.random()
    if x < .25:
        return t[:i] + t[i + 1:]
    if x < .45:
        return t[:i] + rng.choice("0123456789-+: ./") + t[i:]
    if x < .6:
        return t + rng.choice(("0", "5", " ", "Z", "-", "1", "x"))
    ds = [j for j, c in enumerate(t) if c in "0123456789"]
    if not ds:
        return t + "1"
    i = rng.choice(ds)
    return t[:i] + rng.choice("0123456789") + t[i + 1:]


BADP = ["%Q", "%", "%-d", "%:z", "%e", "%k", "%n", "% ", "%.", "%K", "%C", "%D", "%i", "%Y %Y", "%m %d %m", "%c %Y", "%d%d"]


@gen
def C17(rng, tier, shard, n):
    k = Q(tier, 1, 25)
    def value(f, minutes=False):
        weeks = any(c in f for c in "jGVUW")
        p = gooddate(rng, weeks)
        return (rng.randint(0, 1),) + p + rtime(rng) + fzone(rng) + (0,)
    # every year, written and read back
    for y in split(range(MINY, MAXY + 1), shard, n):
        for f in rng.sample(PDATE, 2 * k if k == 1 else 20) + (rng.sample(PISO + PWEEK, 1) if not offweeks(y) else []):
            if offweeks(y) and "%j" in f:
                continue
            m, d = rmd(rng, y)
            if not gapdate(y, m, d):
                yield "strpback", (rng.randint(0, 1), y, m, d) + (0,) * 8, (f,)
    for i in range(9000 * k // n):
        f = pformat(rng)
        a = value(f)
        if i % 3:
            if "%z" in f and a[8] == 0 or "%Z" in f:
                a = a[:8] + ((rng.choice((1, 2)), 0 if "%Z" in f else offw(rng), 0)) + a[11:]
            yield "strpback", a, (f,)
        else:
            t = wtext(rng, f, a, rng.random() < .5)
            if rng.random() < .5:
                t = pmutate(rng, t)
            if rng.random() < .05:
                f += rng.choice(BADP)
            yield "strp", (), (t, f)
    for f in split([g + h for g in BADP for h in ("", " %d", "x")], shard, n):
        yield "strp", (), (wtext(rng, f, value(f), False), f)


def rsaving(rng, o):
    """a zone with saving that begins or ends around day o: st sv n1 m1 n2 m2"""
    while True:
        st = 15 * rng.randint(-44, 52) if rng.random() < .8 else rng.randint(-660, 780)
        sv = rng.choice((60, 60, 60, 60, 30, 120, 15, -60, -30, 7, 240))
        k = rng.choice((-1, 0, 0, 0, 1))
        length = rng.choice((1, 2, 3, 150, 210, 240, 300))
        n1 = o + k if rng.random() < .5 else o + k - length
        m1, m2 = (rng.choice((0, 1, 30, 60, 120, 120, 180, 720, 1380, 1439)) for _ in range(2))
        if length * 1440 + m2 > m1 + 400:
            return st, sv, n1, m1, n1 + length, m2


def rsvdt(rng, kind=1):
    """a datetime in such a zone, often next to a change"""
    while True:
        a = rdt(rng, False, inner=True, fold=False)
        o = ordn(*a[1:4])
        z = rsaving(rng, o)
        st, sv, n1, m1, n2, m2 = z
        t = a[4:8]
        if rng.random() < .8:
            n, m, c = rng.choice(((n1, m1, sv), (n2, m2, -sv)))
            w = (n * 1440 + m) * 60 + rng.choice((0, 0, -1, 1, c * 60, c * 60, c * 60 - 1, c * 60 + 1, c * 30, rng.randint(-7300, 7300)))
            if abs(w // 86400 - o) > 2:
                continue
            o, w = divmod(w, 86400)
            p = ymd(o)
            if p[0] in EXCL or gapdate(*p) or gap(o) or gap(o + 3):
                continue
            t = (w // 3600, w // 60 % 60, w % 60, rng.choice((0, 0, 0, 1, 999999, a[7])))
            a = a[:1] + p
        if kind == 2:
            z = (rng.choice((st, st + sv, rng.randint(-1430, 1430))),) + z[1:]
        elif kind in (0, 4):
            z = (0, 0, 1, 0, 1, 0)
        return a[:4] + t + (kind,) + z + (rng.randint(0, 1),)


def xmove(rng, x, kind):
    """the same instant, or close to it, or the same reading, in another zone"""
    st, sv, n1, m1, n2, m2 = x[9:15]
    if kind == 5:
        z = x[9:15]
    elif kind == 1:
        z = x[9:15] if rng.random() < .4 else (st + rng.choice((0, 15, -60, 60)),) + x[10:15] if rng.random() < .5 else rsaving(rng, ordn(*x[1:4]))
    else:
        z = (rng.choice((st, st + sv, 0, rng.randint(-1430, 1430))),) + x[10:15]
    o = ordn(*x[1:4])
    sec = x[4] * 3600 + x[5] * 60 + x[6]
    us = x[7]
    y = rng.random()
    if y < .7 and kind in (1, 2):
        sec += 60 * (rng.choice((0, sv)) * rng.choice((-1, 0, 1)) + (z[0] - st if rng.random() < .8 else 0))
    elif y < .7 or y > .9:
        sec += rng.choice((0, 0, 60 * sv, -60 * sv, 1, -1, rng.randint(-90000, 90000)))
    if rng.random() < .2:
        us = rng.choice((0, 1, 999999))
    o, sec = o + sec // 86400, sec % 86400
    p = ymd(o)
    if p[0] in EXCL or gapdate(*p):
        return x[:8] + (kind,) + z + (rng.randint(0, 1),)
    return (rng.randint(0, 1),) + p + (sec // 3600, sec // 60 % 60, sec % 60, us, kind) + z + (rng.randint(0, 1),)


@gen
def C29(rng, tier, shard, n):
    k = Q(tier, 1, 20)
    for _ in range(2400 * k // n):
        yield "svshow", rsvdt(rng, rng.choice((1, 1, 1, 1, 1, 4))), ()
    for _ in range(4000 * k // n):
        ka, kb = rng.choice(((1, 1), (1, 1), (1, 2), (1, 2), (1, 5), (1, 5), (1, 0), (4, 0), (4, 4), (1, 4), (2, 1), (0, 1)))
        x = rsvdt(rng, ka)
        y = xmove(rng, x, kb) if kb not in (0, 4) and ka == 1 else x[:1] + x[1:8] + rsvdt(rng, kb)[8:] if rng.random() < .6 else rsvdt(rng, kb)
        if ka == 2:
            y = rsvdt(rng, 1)
            x = xmove(rng, y, 2)
        yield "svcmp", x + y, ()
        yield "svsub", x + y, ()
    for _ in range(3600 * k // n):
        x = rsvdt(rng, rng.choice((1, 1, 1, 1, 4)))
        how = rng.randint(0, 10)
        if how == 4 and x[8] == 4:
            how = 3
        if how < 2:
            b = rng.choice(((0, 3600, 0), (-1, 82800, 0), (0, 60 * abs(x[10]), 0), (0, 0, 1), (-1, 86399, 999999), (1, 0, 0), (-1, 0, 0),
                            (0, rng.randint(0, 86399), rng.randint(0, 999999))))
        else:
            b = (rng.randint(-1430, 1430), rng.choice((0, 60 * x[12], 60 * x[14], rng.randint(0, 86399))), 0)
        yield "svdo", x + (how,) + b, ()
        yield "svstamp", rsvdt(rng, 1), ()
    for _ in range(1600 * k // n):
        yield "svinto", rsvdt(rng, 1) + (rng.randint(0, 2), rng.choice((0, 210, rng.randint(-660, 660)))), ()
    for _ in range(400 * k // n):
        t = rtime(rng)
        yield "svtime", t + (rng.randint(0, 1),) + (t if rng.random() < .5 else rtime(rng)) + (rng.randint(0, 1),), ()
    bad = [(w, h) for w in ("int", "day", "minusday", "float", "text") for h in ("offset", "iso", "less", "minus", "hash", "utc")]
    bad += [(w, "dst") for w in ("dstint", "dstday")] + [(w, "name") for w in ("nameint", "namebytes")]
    for q in split(bad, shard, n):
        yield "svbad", rdate(rng) + (rng.randint(0, 23), rng.randint(0, 59)), q
