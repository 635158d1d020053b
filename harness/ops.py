"""The calls made against the code of /repo (one function per operation)."""
import datetime as _dt
import copy, math, os, pickle, sys
os.environ.setdefault("TEST_RUNNING", "true")
sys.path.insert(0, "/repo")
import badidatetime as B
from badidatetime import date, datetime, time, timedelta, timezone
from badidatetime.badi_calendar import BahaiCalendar
from badidatetime.gregorian_calendar import GregorianCalendar
BD = sys.modules["badidatetime.datetime"]
from dom import lform

from badidatetime._structures import struct_time
bc = BahaiCalendar()
gc = GregorianCalendar()
CLS = (date, datetime)
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def flds(form, y, m, d):
    return (y, m, d) if not form else lform(y) + (m, d)


def mk(form, cls, y, m, d):
    return CLS[cls](*flds(form, y, m, d))


def shape(x):
    """is_short followed by the date fields in the object's own form"""
    return [x.is_short] + list(x.b_date)


# ---- C01 ordinals
@op
def fromord(a, s):
    n, form, cls = a
    return shape(CLS[cls].fromordinal(n, short=not form)) if cls == 0 else shape(datetime.fromordinal(n, short=not form))


@op
def toord(a, s):
    form, cls, y, m, d = a
    return [mk(form, cls, y, m, d).toordinal()]


# ---- C02 years
@op
def year(a, s):
    y, = a
    ok5 = 1
    try:
        date(y, 0, 5)
    except Exception:
        ok5 = 0
    return [date(y, 1, 1).toordinal(), date(y, 19, 19).toordinal(), date(y, 18, 19).toordinal(), date(y, 19, 1).toordinal(), ok5]


@op
def festivals(a, s):
    y, = a
    n = bc.naw_ruz_g_date(y, hms=True)
    r = bc.first_day_of_ridvan_g_date(y, hms=True)
    return list(n[:3]) + list(r[:3])


# ---- C03 forms
@op
def s2l(a, s):
    r = bc.long_date_from_short_date(tuple(a))
    return list(r)


@op
def l2s(a, s):
    return list(bc.short_date_from_long_date(tuple(a)))


@op
def l2st(a, s):
    return list(bc.short_date_from_long_date(tuple(a), trim=True))


@op
def s2lt(a, s):
    return list(bc.long_date_from_short_date(tuple(a), trim=True))


@op
def lacc(a, s):
    k, v, r, m, d = a
    D = date(k, v, r, m, d)
    T = datetime(k, v, r, m, d, 1, 2, 3, 4)
    i = D.isocalendar()
    return [D.kull_i_shay, D.vahid, D.year, D.month, D.day, D.is_short, D.toordinal(), D.weekday(), D.isoweekday(),
            i[0], i[1], i[2], D.timetuple().tm_yday,
            T.kull_i_shay, T.vahid, T.year, T.month, T.day, T.is_short, T.toordinal(), T.weekday(), T.timetuple().tm_yday]


# ---- C04 weekdays
@op
def week(a, s):
    form, cls, y, m, d = a
    x = mk(form, cls, y, m, d)
    tt = x.timetuple()
    return [x.weekday(), x.isoweekday(), tt.tm_wday, tt.tm_yday, int(x.strftime("%j")), int(x.strftime("%u"))], \
        [x.strftime("%A"), x.strftime("%a"), x.ctime()]


# ---- C05 weeks
@op
def iso(a, s):
    form, cls, y, m, d = a
    i = mk(form, cls, y, m, d).isocalendar()
    x = mk(form, cls, y, m, d)
    return [i[0], i[1], i[2], i.year, i.week, i.weekday, int(x.strftime("%G")), int(x.strftime("%V"))]


@op
def fromiso(a, s):
    y, w, d, form = a
    return shape(date.fromisocalendar(y, w, d, short=not form))


# ---- C06 comparison
def sixcmp(p, q):
    return [p == q, p != q, p < q, p <= q, p > q, p >= q]


@op
def cmpdate(a, s):
    f1, f2 = a[:2]
    p = mk(f1, 0, *a[2:5])
    q = mk(f2, 0, *a[5:8])
    return sixcmp(p, q) + sixcmp(q, p) + [hash(p) == hash(q), len({p, q}), sorted([p, q])[0] is p]


OTHERS = dict(int=5, str="0181-01-01", none=None, tuple=(181, 1, 1), float=1.5, list=[1], time=time(1, 2), delta=timedelta(3), obj=object())


def othercmp(p, q):
    r = [p == q, p != q, q == p, q != p]
    for f in (lambda: p < q, lambda: p <= q, lambda: p > q, lambda: p >= q,
              lambda: q < p, lambda: q <= p, lambda: q > p, lambda: q >= p):
        try:
            f()
            r.append(1)
        except TypeError:
            r.append(0)
    return r


@op
def cmpother(a, s):
    return othercmp(mk(*a), OTHERS[s[0]])


@op
def cmpmix(a, s):
    """a date (5 integers) and a datetime (12)"""
    return othercmp(mk(*a[:5]), mkdt(a[5:]))


# ---- C07 date arithmetic
def td(d, s=0, us=0):
    return timedelta(days=d, seconds=s, microseconds=us)


def dsu(x):
    return [x.days, x.seconds, x.microseconds]


@op
def dateadd(a, s):
    form, y, m, d, dd, ds, du, how = a
    x = mk(form, 0, y, m, d)
    t = td(dd, ds, du)
    z = x + t if how == 0 else t + x if how == 1 else x - t
    return shape(z) + [type(z) is date]


@op
def datesub(a, s):
    p = mk(a[0], 0, *a[2:5])
    q = mk(a[1], 0, *a[5:8])
    return dsu(p - q)


@op
def datebad(a, s):
    """operations that must be refused"""
    x = mk(*a)
    o = OTHERS[s[1]]
    if s[0] == "add":
        x + o
    elif s[0] == "radd":
        o + x
    elif s[0] == "sub":
        x - o
    elif s[0] == "rsub":
        o - x
    return [1]


# ---- datetimes: 12 integers  form y m d h mi s us kind os ou fold
# kind: 0 naive, 1 a zone of its own, 2 one zone object shared per offset,
#       3 a named zone, 6 a zone with coordinates
_shared = {}


def mktz(kind, os_, ou):
    if kind == 0:
        return None
    d = timedelta(seconds=os_, microseconds=ou)
    if kind == 1:
        return timezone(d)
    if kind == 2:
        return _shared.setdefault((os_, ou), timezone(d))
    if kind == 3:
        return timezone(d, "Zúñ/N" + str(os_ % 7))
    if kind == 6:
        return B.TZWithCoords(12.5, -7.25, os_ / 3600, key="K" + str(os_ % 5))
    raise AssertionError(kind)


def mkdt(a):
    form, y, m, d, h, mi, s, us, kind, o, ou, fold = a
    f = flds(form, y, m, d)
    if not form:
        f += (None, None)
    return datetime(*f, h, mi, s, us, mktz(kind, o, ou), fold=fold)


def offs(x):
    o = x.utcoffset()
    return [0, 0, 0] if o is None else [1, o.days * 86400 + o.seconds, o.microseconds]


def shapet(x):
    """hour minute second microsecond fold aware offset"""
    return [x.hour, x.minute, x.second, x.microsecond, x.fold] + offs(x)


def shapedt(x):
    return shape(x) + shapet(x)


def tri(f):
    try:
        return I01(f())
    except TypeError:
        return 2
    except Exception:
        return 3


def I01(x):
    return 1 if x is True else 0 if x is False else -9


def sixtri(p, q):
    return [tri(lambda: p == q), tri(lambda: p != q), tri(lambda: p < q), tri(lambda: p <= q), tri(lambda: p > q), tri(lambda: p >= q)]


@op
def dtadd(a, s):
    x = mkdt(a[:12])
    dd, ds, du, how = a[12:]
    t = td(dd, ds, du)
    z = x + t if how == 0 else t + x if how == 1 else x - t
    return shapedt(z) + [type(z) is datetime, z.tzinfo is x.tzinfo]


@op
def dtsub(a, s):
    return dsu(mkdt(a[:12]) - mkdt(a[12:]))


@op
def dtcmp(a, s):
    p, q = mkdt(a[:12]), mkdt(a[12:])
    return sixtri(p, q) + sixtri(q, p) + [hash(p) == hash(q), len({p, q})]


@op
def dtcmpother(a, s):
    o = dict(OTHERS, date=date(181, 1, 1))[s[0]]
    return othercmp(mkdt(a), o)


@op
def dtbad(a, s):
    x = mkdt(a)
    o = dict(OTHERS, date=date(181, 1, 1))[s[1]]
    if s[0] == "add":
        x + o
    elif s[0] == "radd":
        o + x
    elif s[0] == "sub":
        x - o
    elif s[0] == "rsub":
        o - x
    return [1]


@op
def dtround(a, s):
    """(p + (q - p)) == q and (p + t) - t == p, by objects"""
    p, q = mkdt(a[:12]), mkdt(a[12:])
    return [(p + (q - p)) == q, (q - (q - p)) == p, (p - q) == -(q - p)]


@op
def astz(a, s):
    x = mkdt(a[:12])
    z = x.astimezone(mktz(*a[12:15]))
    return shapedt(z) + [z == x]


# ---- C10 zones
@op
def tz(a, s):
    kind, o, ou = a
    z = mktz(kind, o, ou)
    z2 = timezone(timedelta(seconds=o, microseconds=ou), "other")
    x = datetime(181, 1, 1, None, None, 1, 2, 3, 4, z)
    t = time(1, 2, 3, 4, z)
    f = z.fromutc(datetime(181, 10, 10, None, None, 12, 0, 0, 0, z))
    ds = x.dst()
    return [v for w in (z.utcoffset(None), z.utcoffset(x), x.utcoffset(), t.utcoffset())
            for v in (w.days * 86400 + w.seconds, w.microseconds)] \
        + [z == z2, hash(z) == hash(z2), z != z2] + shapedt(f) \
        + [ds is None or not ds], \
        [z.tzname(None) or "", z.tzname(x) or "", x.tzname() or "", t.tzname() or "", str(z)]


@op
def tzeq(a, s):
    p, q = mktz(*a[:3]), mktz(*a[3:])
    return [p == q, p != q, hash(p) == hash(q), p == 5, p == None]     # noqa


@op
def tzmake(a, s):
    """days, seconds, microseconds of the offset; s: kind of arguments"""
    o = timedelta(days=a[0], seconds=a[1], microseconds=a[2])
    z = {"plain": lambda: timezone(o), "named": lambda: timezone(o, "N"), "int": lambda: timezone(5),
         "none": lambda: timezone(None), "nameint": lambda: timezone(o, 5), "namenone": lambda: timezone(o, None),
         "float": lambda: timezone(3.5), "str": lambda: timezone("+03:30")}[s[0]]()
    w = z.utcoffset(None)
    return [w.days, w.seconds, w.microseconds], [z.tzname(None)]


@op
def badioff(a, s):
    """offset against the zone of the calendar: zone alone, with a datetime, of a time; a naive time"""
    kind, o, ou = a
    z = mktz(kind, o, ou)
    x = datetime(181, 1, 1, None, None, 1, 2, 3, 4, z)
    return [v for w in (z.badioffset(None), z.badioffset(x), time(1, 2, 3, 4, z).badioffset())
            for v in (w.days * 86400 + w.seconds, w.microseconds)] + [time(1, 2).badioffset() is None]


@op
def tzarg(a, s):
    """a method of a zone with an argument that is no datetime of this zone"""
    z = mktz(*a)
    x = {"naive": datetime(181, 1, 1), "date": date(181, 1, 1), "time": time(1, 2, 3, 4, z), "int": 5, "str": "x", "float": 1.5,
         "none": None, "foreign": datetime(181, 1, 1, None, None, 1, 2, 3, 4, timezone(timedelta(hours=7, seconds=11)))}[s[1]]
    w = getattr(z, s[0])(x)
    return [1] if isinstance(w, str) else [2, w.days * 86400 + w.seconds, w.microseconds] if isinstance(w, timedelta) else [3], [w if isinstance(w, str) else ""]


# ---- C20 replace and combine
NONE = -999999


def kw(names, vals):
    return {n: v for n, v in zip(names, vals) if v != NONE}


@op
def repdate(a, s):
    """form y m d, then kull vahid year month day (NONE: not given)"""
    x = mk(a[0], 0, *a[1:4])
    before = shape(x)
    z = x.replace(**kw(("kull_i_shay", "vahid", "year", "month", "day"), a[4:9]))
    return shape(z) + [shape(x) == before, type(z) is date]


@op
def repdt(a, s):
    """datetime, then kull vahid year month day h mi s us fold, tz mode, offset"""
    x = mkdt(a[:12])
    before = shapedt(x)
    k = kw(("kull_i_shay", "vahid", "year", "month", "day", "hour", "minute", "second", "microsecond", "fold"), a[12:22])
    if a[22] >= 0:
        k["tzinfo"] = mktz(*a[22:25])
    z = x.replace(**k)
    return shapedt(z) + [shapedt(x) == before, type(z) is datetime]


def mkt(a):
    h, mi, s, us, kind, o, ou, fold = a
    return time(h, mi, s, us, mktz(kind, o, ou), fold=fold)


@op
def reptime(a, s):
    x = mkt(a[:8])
    before = shapet(x)
    k = kw(("hour", "minute", "second", "microsecond", "fold"), a[8:13])
    if a[13] >= 0:
        k["tzinfo"] = mktz(*a[13:16])
    z = x.replace(**k)
    return shapet(z) + [shapet(x) == before, type(z) is time]


@op
def combine(a, s):
    """form y m d, time, tz mode (-1 keep), offset"""
    D = mk(a[0], 0, *a[1:4])
    T = mkt(a[4:12])
    z = datetime.combine(D, T) if a[12] < 0 else datetime.combine(D, T, mktz(*a[12:15]))
    return shapedt(z) + shape(z.date()) + shapet(z.time()) + shapet(z.timetz()) + [z.date() == D, type(z.date()) is date]


# ---- C21 times
@op
def tcmp(a, s):
    p, q = mkt(a[:8]), mkt(a[8:])
    h = 0
    if p == q:
        h = hash(p) == hash(q)
    return sixtri(p, q) + sixtri(q, p) + [h]


@op
def tcmpother(a, s):
    return othercmp(mkt(a), dict(OTHERS, time=date(181, 1, 1))[s[0]])


SPECS = ("auto", "hours", "minutes", "seconds", "milliseconds", "microseconds")


@op
def tiso(a, s):
    x = mkt(a[:8])
    return [], [x.isoformat(s[0]), x.isoformat(), str(x)]


@op
def tback(a, s):
    """naive time to whole seconds, through text"""
    x = mkt(a)
    z = time.fromisoformat("T" + x.isoformat())
    w = time.fromisoformat("T" + x.isoformat().replace(":", ""))
    return shapet(z)[:4] + shapet(w)[:4] + [z == x, w == x]


@op
def tbool(a, s):
    x = mkt(a)
    return [bool(x)] + shapet(x)


# ---- C22 time tuples
def ttlist(t):
    g = t.tm_gmtoff
    if g is None:
        g, u = 0, 0
    else:
        u = round((g - math.floor(g)) * 10**6)
        g = math.floor(g)
    return [t.short] + list(t[:-2]) + [t.tm_gmtoff is not None, g, u]


@op
def ttup(a, s):
    x = mkdt(a)
    t = x.timetuple()
    return ttlist(t), [t.tm_zone or ""]


@op
def utup(a, s):
    u = mkdt(a).utctimetuple()
    return ttlist(u)[:-3]


@op
def dtup(a, s):
    return ttlist(mk(*a).timetuple())


@op
def tuprt(a, s):
    """a time structure rebuilt from its own fields"""
    x = mkdt(a)
    t = x.timetuple()
    n = 9 if t.short else 11
    z = struct_time(tuple(t)[:n], tzinfo=x.tzinfo)
    return [z == t, tuple(z) == tuple(t), z.short == t.short, type(z) is type(t)]


def named(text):
    """values written as name=value in a repr, in order"""
    import re
    return [(k, int(float(v) // 1)) for k, v in re.findall(r"(\w+)=(-?[\d.]+)", text)]


@op
def tupnames(a, s):
    """a time structure and an ISO triple field by field: by name, by index, in the repr"""
    x = mkdt(a)
    t, i = x.timetuple(), x.isocalendar()
    names = (("tm_year",) if t.short else ("tm_kull_i_shay", "tm_vahid", "tm_year")) + \
        tuple("tm_" + w for w in "mon mday hour min sec wday yday isdst".split())
    by = [getattr(t, w) for w in names]
    rp = [v for k, v in named(repr(t))]
    iso = [i.year, i.week, i.weekday]
    return ([len(t)] + by + [by == list(t[:-2]) == [t[j] for j in range(len(t) - 2)], (t[-2], t[-1]) == (t.tm_zone, t.tm_gmtoff)]
            + [rp == by and [k for k, v in named(repr(t))] == list(names)]
            + iso + [list(i) == iso and len(i) == 3, named(repr(i)) == list(zip(("year", "week", "weekday"), iso))])


@op
def tupbad(a, s):
    """fields and an isdst given to struct_time"""
    t = struct_time(tuple(a))
    return ttlist(t)


# ---- C18 pickling

def clones(x):
    """copies, and whether the copy keeps the fold (pickle protocols before 4
    have no room for it, as in the standard library)"""
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield pickle.loads(pickle.dumps(x, p)), p > 3
    if isinstance(x, (date, time)):
        # states as Python 2 strings, the way pickle.load(encoding="latin1") hands them over
        for f, a in (x.__reduce__(), x.__reduce_ex__(2), x.__reduce_ex__(4)):
            yield f(*(v.decode("latin1") if isinstance(v, bytes) else v for v in a)), None
    yield copy.copy(x), True
    yield copy.deepcopy(x), True
    yield pickle.loads(pickle.dumps([x, x]))[1], True


def same(x, proj):
    """number of differing copies, all same class, all equal, all hash equal"""
    base = proj(x)
    plain = proj(x.replace(fold=0)) if getattr(x, "fold", 0) else base
    n, c, e, h = 0, 1, 1, 1
    for y, keeps in clones(x):
        n += proj(y) not in ((base, plain) if keeps is None else (base,) if keeps else (plain,))
        c &= type(y) is type(x)
        e &= y == x
        try:
            hx = hash(x)
        except Exception:
            hx = None
        h &= hx is None or hash(y) == hx
    return [n, c, e, h] + base


def zproj(z):
    w = z.utcoffset(None)
    return [w.days * 86400 + w.seconds, w.microseconds]


@op
def pickdate(a, s):
    return same(mk(*a), shape)


@op
def pickdt(a, s):
    x = mkdt(a)
    nm = [y.tzname() != x.tzname() for y, _ in clones(x)]
    return same(x, shapedt) + [sum(nm)]


@op
def picktime(a, s):
    x = mkt(a)
    nm = [y.tzname() != x.tzname() for y, _ in clones(x)]
    return same(x, shapet) + [sum(nm)]


@op
def picktz(a, s):
    x = mktz(*a)
    nm = [y.tzname(None) != x.tzname(None) or str(y) != str(x) for y, _ in clones(x)]
    return same(x, zproj) + [sum(nm)]


@op
def pickiso(a, s):
    """ISO triples become plain tuples (as in the standard library)"""
    x = mk(*a).isocalendar()
    return [sum(tuple(y) != tuple(x) for y, _ in clones(x)), sum(y != x for y, _ in clones(x))] + list(x)


@op
def picktup(a, s):
    x = mkdt(a).timetuple()
    return [sum(tuple(y) != tuple(x) for y, _ in clones(x)), all(type(y) is type(x) for y, _ in clones(x)), all(y.short == x.short for y, _ in clones(x))] + list(x[:5])


# ---- C19 construction
@op
def mkdate(a, s):
    x = (date, datetime)[a[0]](*a[1:])
    r = list(x.b_date)
    if x.is_short:
        return [x.is_short, x.year, x.month, x.day] + r
    return [x.is_short, x.kull_i_shay, x.vahid, x.year, x.month, x.day] + r


@op
def mkfields(a, s):
    """how, number of fields of the time, date (short or long), quarters of day hour minute second, microsecond:
    given to the calendar's own methods"""
    how, cnt, f = a[0], a[1], a[2:]
    q = lambda x: x // 4 if x % 4 == 0 else x / 4
    d = tuple(f[:-5]) + (q(f[-5]),) + (q(f[-4]), q(f[-3]), q(f[-2]), f[-1])[:cnt]
    (bc.jd_from_badi_date, bc.long_date_from_short_date, bc.date_from_kvymdhms, bc.kvymdhms_from_b_date)[how](d)
    return [1]


@op
def mktime(a, s):
    x = time(*a[:4], fold=a[4])
    return shapet(x)


@op
def mkdtime(a, s):
    """form y m d h mi s us fold"""
    f = flds(*a[:4]) + ((None, None) if not a[0] else ())
    x = datetime(*f, *a[4:8], fold=a[8])
    return shapedt(x) + list(x.b_time)


def format_(x, f):
    return x.__format__(f)


@op
def mkbad(a, s):
    """constructions of wrong kind"""
    f = {
        "date0": lambda: date(181), "date2": lambda: date(181, 1), "date4": lambda: date(1, 10, 10, 1),
        "dt2": lambda: datetime(181, 1), "dt4": lambda: datetime(1, 10, 10, 1),
        "tzint": lambda: time(1, 2, tzinfo=5), "tzstr": lambda: time(1, 2, tzinfo="UTC"),
        "dttzint": lambda: datetime(181, 1, 1, tzinfo=5), "dttzstr": lambda: datetime(181, 1, 1, tzinfo="UTC"),
        "dttzdelta": lambda: datetime(181, 1, 1, tzinfo=timedelta(hours=1)),
        "tztzdelta": lambda: time(1, tzinfo=timedelta(hours=1)),
        "ymdstr": lambda: date("181", "1", "1"), "hourstr": lambda: time("1"),
        "frac1": lambda: datetime(181, 1, 1, None, None, 1.5, 30), "frac2": lambda: datetime(181, 1, 1, None, None, 1, 2.5, 30),
        "frac3": lambda: datetime(181, 1, 1, None, None, 1, 2, 3.5, 1),
        "combine1": lambda: datetime.combine(5, time(1)), "combine2": lambda: datetime.combine(date(181, 1, 1), 5),
        "combine3": lambda: datetime.combine(time(1), date(181, 1, 1)),
        "ordstr": lambda: date.fromordinal("5"), "isoint": lambda: date.fromisoformat(5), "tisoint": lambda: time.fromisoformat(5),
        "kind:fmtint": lambda: format_(date(181, 1, 1), 5), "kind:fmtnone": lambda: format_(datetime(181, 1, 1), None),
        "kind:fmtbytes": lambda: format_(time(1, 2), b"%H"), "kind:isobytes": lambda: date.fromisoformat(b"0181-01-01"),
        "kind:dtisonone": lambda: datetime.fromisoformat(None), "kind:dtisobytes": lambda: datetime.fromisoformat(b"0181-01-01"),
        "kind:tisonone": lambda: time.fromisoformat(None), "kind:strp1": lambda: datetime.strptime("0181", 5),
        "kind:strp2": lambda: datetime.strptime(b"0181", "%Y"), "kind:strp3": lambda: datetime.strptime("0181", None),
        "kind:ordnone": lambda: datetime.fromordinal(None), "kind:tsnone": lambda: date.fromtimestamp(None),
        "kind:tsstr": lambda: datetime.fromtimestamp("5"), "kind:isocal": lambda: date.fromisocalendar("0181", "1", "1"),
        "kind:combine4": lambda: datetime.combine(date(181, 1, 1), time(1), 5),
        "kind:combine5": lambda: datetime.combine(date(181, 1, 1), time(1), "UTC"),
        "kind:combine6": lambda: datetime.combine(date(181, 1, 1), datetime(181, 1, 1)),
        "kind:fromts": lambda: datetime.fromtimestamp(0, 5), "kind:repltz": lambda: datetime(181, 1, 1).replace(tzinfo=5),
        "kind:repltz2": lambda: time(1, 2).replace(tzinfo="UTC"), "value:spec": lambda: datetime(181, 1, 1).isoformat(timespec=5),
        "value:strfempty": lambda: date(181, 1, 1).strftime(""), "value:spec2": lambda: time(1, 2).isoformat(timespec="hour"),
        "strpint": lambda: datetime.strptime(5, "%Y"), "astz": lambda: datetime(181, 1, 1).astimezone(5),
    }[s[0]]
    f()
    return [1]


# ---- C27 repr
def rep(x):
    return eval(repr(x), {"badidatetime": B, "datetime": _dt})


@op
def reprdate(a, s):
    x = mk(*a)
    y = rep(x)
    return shape(y) + [type(y) is type(x), y == x]


@op
def reprdt(a, s):
    x = mkdt(a)
    y = rep(x)
    return shapedt(y) + [type(y) is type(x), y == x, y.tzname() == x.tzname()]


@op
def reprtime(a, s):
    x = mkt(a)
    y = rep(x)
    return shapet(y) + [type(y) is type(x), y == x]


@op
def reprtz(a, s):
    x = mktz(*a)
    y = rep(x)
    return zproj(y) + [type(y) is type(x), y == x, y.tzname(None) == x.tzname(None), str(y) == str(x)]


@op
def reprpair(a, s):
    """two datetimes with different fields have different reprs"""
    x, y = mkdt(a[:12]), mkdt(a[12:])
    return [repr(x) == repr(y)]


# ---- C26 zones with coordinates: quarter degrees, quarter hours, key number
KEYS = ("", "Asia/Tehran", "UTC", "Z/\u1e25")


class ZI:
    """stands for a ZoneInfo of a zone without daylight saving"""
    def __init__(self, key):
        self.key = key

    def dst(self, dt):
        return timedelta(0)


def mkzone(z):
    lat, lon, q, key, mode = z
    k = KEYS[key] or None
    zone = None if q == NONE else q / 4
    if mode == 1:
        zi = ZI(k or "Zi")
        return B.TZWithCoords.fromzoneinfo(zi, lat / 4, lon / 4, zone)
    return B.TZWithCoords(lat / 4, lon / 4, zone, key=k)


def seezone(z):
    la, lo, zo = z.coordinates
    w = z.utcoffset(None)
    x = datetime(181, 10, 10, None, None, 1, 2, 3, 4, tzinfo=z)
    v = x.utcoffset()
    return [la * 4, lo * 4, NONE if zo is None else zo * 4, z.lat == la, z.lon == lo, z.zone == zo,
            w.days * 96 + w.seconds // 900, v.days * 96 + v.seconds // 900], [z.key, z.tzname(None) or "", x.tzname() or "", str(z)]


@op
def zones(a, s):
    """make several zones, then (after all are made, used and copied) look at one of them"""
    n, at, how = a[:3]
    zs = []
    for i in range(n):
        z = mkzone(a[3 + 5 * i: 8 + 5 * i])
        zs.append(z)
        hash(z), str(z), z == zs[0]
        datetime(181, 1, 1, tzinfo=z).isoformat()
    z = zs[at]
    if how == 1:
        z = copy.copy(z)
    elif how == 2:
        z = copy.deepcopy(z)
    elif how == 3:
        z = pickle.loads(pickle.dumps(z))
    elif how == 4:
        z = pickle.loads(pickle.dumps(zs, 2))[at]
    elif how == 5:
        z = pickle.loads(pickle.dumps(datetime(181, 1, 1, tzinfo=z))).tzinfo
    elif how == 6:
        z = (datetime(181, 1, 1, tzinfo=z) + timedelta(days=400)).replace(month=1).tzinfo
    elif how == 7:
        z = datetime(181, 5, 5, tzinfo=timezone(timedelta(hours=2))).astimezone(z).tzinfo
    elif how == 8:
        z = eval(repr(z), {"badidatetime": B})
    u = datetime(181, 1, 1, tzinfo=B.UTC), B.UTC.coordinates[2], B.BADI.coordinates[2] * 2
    r, t = seezone(z)
    return r + [u[0].utcoffset() == timedelta(0), u[1], u[2], type(z) is B.TZWithCoords,
                z == zs[at], hash(z) == hash(zs[at])], t + [B.UTC.tzname(None), B.BADI.tzname(None)]


# ---- C14 units
from fractions import Fraction as Fr


def daysplit(x, unit=10**6, shift=Fr(0)):
    """a number of days as whole days, seconds and units of a second"""
    v = Fr(x) + shift
    n = v.numerator // v.denominator
    w = round((v - n) * 86400 * unit)
    return [n + w // (86400 * unit), w // unit % 86400, w % unit]


def secsplit(x, unit=10**6):
    w = round(Fr(x) * unit)
    return [w // unit, w % unit]


def hmsus(r):
    """hour minute second (with fraction) [microsecond] as h, m, s, us"""
    if len(r) == 4:
        return list(r)
    s, us = secsplit(r[2])
    return [r[0], r[1], s, us]


@op
def decday(a, s):
    """sec, us, days: a decimal day taken apart"""
    dec = a[2] + (a[0] + a[1] / 1e6) / 86400
    return hmsus(bc._hms_from_decimal_day(dec, us=True)) + hmsus(bc._hms_from_decimal_day(dec))


@op
def dayhms(a, s):
    return daysplit(bc._decimal_day_from_hms(*a))


@op
def dhms(a, s):
    """sec, us, zone in quarters of an hour, tenths of a microsecond"""
    t = a[0] + (a[1] + a[3] / 10) / 1e6
    r = bc._dhms_from_seconds(t, a[2] / 4, us=True)
    q = bc._dhms_from_seconds(t, a[2] / 4)
    return list(r) + list(q[:3]) + secsplit(q[3])


@op
def sdhms(a, s):
    """days h m s us zone"""
    return secsplit(bc._seconds_from_dhms(*a[:5], zone=a[5] / 4))


@op
def smicro(a, s):
    return list(bc._sec_microsec_from_seconds(a[0] + a[1] / 1e6))


def angle(a):
    v = float((Fr(a[0]) + Fr(a[1], 10000)) / 3600)
    return -v if a[2] else v


@op
def dms(a, s):
    """an angle (seconds of arc, 1/10000, sign): taken apart and put together"""
    v = angle(a)
    d, m, x, w = bc._dms_from_decimal(v, s[0])
    y = bc._decimal_from_dms(d, m, x, w)
    b = secsplit(abs(Fr(y)) * 3600, 10**4)
    return [d, m] + secsplit(x, 10**4) + b + [(y > 0) - (y < 0)], [w]


@op
def hmsdeg(a, s):
    v = abs(angle(a)) * 2
    h, m, x = bc._hms_from_degrees(v)
    return [h, m] + secsplit(x, 10**5) + secsplit(Fr(bc._degrees_from_hms(h, m, x)) * 1800, 10**4)


@op
def frac(a, s):
    """a fraction of an hour (0), minute (1) or second (2) given to a datetime or time: h m s us of the whole"""
    w, h, m, x, us, form = a
    v = {0: Fr(h) + Fr(m, 60) + (Fr(x) + Fr(us, 10**6)) / 3600, 1: Fr(m) + (Fr(x) + Fr(us, 10**6)) / 60, 2: Fr(x) + Fr(us, 10**6)}[w]
    f = (181, 1, 1, None, None) if not form else (1, 10, 10, 1, 1)
    t = datetime(*f, *((), (h,), (h, m))[w], float(v))
    return [t.hour, t.minute, t.second, t.microsecond] + list(t.b_time)


@op
def kvym(a, s):
    """k v y m d with a fraction of a day (sec, us) in long form, and back"""
    d = tuple(a[:4]) + (a[4] + (a[5] + a[6] / 1e6) / 86400,)
    x = bc.kvymdhms_from_b_date(d, us=True)
    y = bc.date_from_kvymdhms(x)
    z = bc.kvymdhms_from_b_date(d, us=True, short=True)
    return list(x) + list(y[:4]) + daysplit(y[4]) + list(z)


@op
def gymd(a, s):
    """y m d with a fraction of a day (sec, us), and back"""
    d = tuple(a[:2]) + (a[2] + (a[3] + a[4] / 1e6) / 86400,)
    x = gc.ymdhms_from_date(d, us=True)
    w = gc.ymdhms_from_date(d)
    y = gc.date_from_ymdhms(w)
    return list(x) + list(w[:3]) + hmsus(w[3:]) + list(y[:2]) + daysplit(y[2])


@op
def parts(a, s):
    """how, number of time fields given, date, quarters of hour minute second, microsecond: with only the first few fields"""
    how, cnt, d = a[0], a[1], tuple(a[2:-4])
    q = lambda x: x // 4 if x % 4 == 0 else x / 4
    f = tuple(q(x) for x in a[-4:-1]) + (a[-1],)
    if how == 0:
        return list(gc.ymdhms_from_date(d + f[:cnt], us=True))
    if how == 2:                # a fraction of the day followed by zeros
        return list(bc.kvymdhms_from_b_date(d[:-1] + (d[-1] + (f[0] * 3600 + f[1] * 60 + f[2] + f[3] / 1e6) / 86400,) + (0,) * cnt, us=True))
    x = (gc.date_from_ymdhms if how == 1 else bc.date_from_kvymdhms)(d + f[:cnt])
    return list(x[:-1]) + daysplit(x[-1])


# ---- C13 Gregorian dates and Julian days
@op
def gjd(a, s):
    """y m d sec us, how: 0 fraction of a day, 1 fields; exact"""
    y, m, d, sec, us, how, exact = a
    if how == 0:
        g = (y, m, d + (sec + us / 1e6) / 86400)
    elif how == 1:
        g = (y, m, d, sec // 3600, sec // 60 % 60, sec % 60 + us / 1e6)
    else:
        g = (y, m, d)
    return daysplit(gc.jd_from_gregorian_date(g, exact=bool(exact)), shift=Fr(1, 2))


@op
def galt(a, s):
    """y m d sec us: to a Julian day by the other rule for leap years, and back"""
    y, m, d, sec, us = a
    jd = gc.jd_from_gregorian_date((y, m, d, sec // 3600, sec // 60 % 60, sec % 60 + us / 1e6), exact=True, alt=True)
    x = gc.gregorian_date_from_jd(jd, exact=True, alt=True)
    h = gc.gregorian_date_from_jd(jd, exact=True, alt=True, hms=True)
    return daysplit(jd, shift=Fr(1, 2)) + list(x[:2]) + daysplit(x[2]) + list(h[:3]) + hmsus(h[3:])


@op
def gback(a, s):
    """day of the Julian period (from midnight), sec, ms; exact"""
    n, sec, ms, exact = a
    jd = float(n - Fr(1, 2) + (Fr(sec) + Fr(ms, 1000)) / 86400)
    x = gc.gregorian_date_from_jd(jd, exact=bool(exact))
    h = gc.gregorian_date_from_jd(jd, exact=bool(exact), hms=True)
    u = gc.gregorian_date_from_jd(jd, exact=bool(exact), hms=True, us=True)
    return list(x[:2]) + daysplit(x[2]) + list(h[:3]) + hmsus(h[3:]) + list(u) + [gc.gregorian_year_from_jd(jd) if not exact else x[0]]


@op
def gbad(a, s):
    gc.jd_from_gregorian_date(tuple(a[1:]), exact=bool(a[0]))
    return [1]


@op
def meeus(a, s):
    """day (from midnight), sec: proleptic to historical Julian day and back"""
    jd = float(a[0] - Fr(1, 2) + Fr(a[1], 86400))
    h = bc._meeus_from_exact(jd)
    return daysplit(h, shift=Fr(1, 2)) + daysplit(bc._exact_from_meeus(h), shift=Fr(1, 2))


# ---- C11 C12 C25 places and instants
from badidatetime import TZWithCoords
EPOCH0 = Fr(4881171, 2)        # Julian day of 1 January 1970, 0 h, in the exact reckoning
SEC = 86400


def jsplit(jd):
    """a Julian day as day (from midnight), seconds, microseconds"""
    return daysplit(jd, shift=Fr(1, 2))


def tsplit(ts):
    return daysplit(Fr(ts) / SEC, shift=EPOCH0 + Fr(1, 2))


def coords(a):
    """latitude, longitude in thousandths of a degree, zone in quarters of an hour"""
    return a[0] / 1000, a[1] / 1000, a[2] / 4


def hms(sec, us):
    return sec // 3600, sec // 60 % 60, sec % 60, us


def pad7(b):
    return list(b) + [0] * (7 - len(b))


def instant(n, sec, us):
    return n - Fr(1, 2) + (Fr(sec) + Fr(us, 10**6)) / SEC


@op
def sky(a, s):
    """civil day, latitude, longitude, depth: rise, noon, set and the length of the day"""
    lat, lon = a[1] / 1000, a[2] / 1000
    mid = a[0] + 1721424.5                       # midnight UT, in the historical reckoning
    at = mid + 0.5 - lon / 360                   # about noon of the place
    kw = {} if a[3] == 833 else {"offset": a[3] / 1000}
    noon = bc._sun_transit(mid, lon) * 86400
    noon += 86400 * round((43200 - 240 * lon - noon) / 86400)
    ln = bc._day_length(at - 2, lat, lon)
    out = [(bc._sun_rising(at, lat, lon, **kw) - mid) * 86400, noon, (bc._sun_setting(at, lat, lon, **kw) - mid) * 86400,
           ln[0] * 3600 + ln[1] * 60 + ln[2]]
    return [round(x) for x in out]


@op
def season(a, s):
    """year, season, zone, and a moment of the year (day, second, or zeros): the season's moment in UT and in the zone,
    next year's, and the next season's"""
    def moment(y, k, z=0, jd=None):
        if jd is None:
            jd = bc._approx_julian_day_for_equinoxes_or_solstices(y, 90 * k)
        return jsplit(bc._find_moment_of_equinoxes_or_solstices(jd, 90 * k, z))
    y, k = a[0], a[1]
    jd = None
    if a[3]:
        jd = _dt.date(y, 1, 1).toordinal() + 1721423.5 + a[3] + a[4] / 86400
    return moment(y, k) + moment(y, k, a[2] / 4, jd) + moment(y + 1, k) + moment(y + (k == 3), (k + 1) % 4)


@op
def daystart(a, s):
    """y m d, place, how: the instant the day starts"""
    d, p, how = tuple(a[:3]), coords(a[3:6]), a[6]
    if how == 0:
        return jsplit(bc.jd_from_badi_date(d, *p))
    if how == 1:
        return tsplit(bc.timestamp_from_badi_date(d, *p))
    if how == 2:                # clock time of the sunset in the zone
        return hmsus(bc.utc_sunset(d, *p))
    if how == 3:
        return list(bc.gregorian_date_from_badi_date(d, *p, us=True))
    g = bc.naw_ruz_g_date(d[0], *p, hms=True) if how == 4 else bc.first_day_of_ridvan_g_date(d[0], *p, hms=True)
    return list(g[:3]) + hmsus(g[3:])


@op
def dayat(a, s):
    """y m d sec us, place: start, instant, next start, and the date of the instant in both forms"""
    d, t, p = tuple(a[:3]), hms(a[3], a[4]), coords(a[5:8])
    jd = bc.jd_from_badi_date(d + t, *p)
    nx = nextday(d)
    x = bc.badi_date_from_jd(jd, *p, short=True, us=True)
    y = bc.badi_date_from_jd(jd, *p, us=True)
    return (jsplit(bc.jd_from_badi_date(d, *p)) + jsplit(jd) + jsplit(bc.jd_from_badi_date(nx, *p))
            + pad7(x) + list(y[:5]) + pad7(y[:0] + (0, 0, 0) + tuple(y[5:]))[3:])


def nextday(d):
    import dom
    return dom.ymd(dom.ordn(*d) + 1)


def prevday(d):
    import dom
    return dom.ymd(dom.ordn(*d) - 1)


@op
def atinstant(a, s):
    """n sec us (UTC), place, how: the date of the instant, with the starts of the day before, the day, and the next"""
    (n, sec, us), p, how = a[:3], coords(a[3:6]), a[6]
    jd = instant(n, sec, us)
    ts = (jd - EPOCH0) * SEC
    if how == 0:
        x = bc.badi_date_from_jd(float(jd), *p, short=True, us=True)
    elif how == 1:
        x = bc.badi_date_from_timestamp(float(ts), *p, short=True, us=True)
    elif how == 2:
        g = _dt.date.fromordinal(n - 1721423)
        x = bc.badi_date_from_gregorian_date((g.year, g.month, g.day) + (sec // 3600, sec // 60 % 60, float(sec % 60 + Fr(us, 10**6))), *p, short=True, us=True)
    elif how == 3:
        z = TZWithCoords(*p, key="here")
        q = datetime.fromtimestamp(float(ts), z, short=bool(n % 2))
        if q.tzinfo is not z:
            return [BADINT]
        x = q._short_from_long_form()[:3] + (q.hour, q.minute, q.second, q.microsecond)
    else:
        b = bc.badi_date_from_jd(float(jd), *p, us=True)
        x = ((b[0] - 1) * 361 + (b[1] - 1) * 19 + b[2],) + tuple(b[3:])
    x = pad7(x)
    d = tuple(x[:3])
    return x + sum((jsplit(bc.jd_from_badi_date(q, *p)) for q in (prevday(d), d, nextday(d))), [])


# ---- C31 the options and forms of one conversion
TEHRAN = (35.69435, 51.288701, 3.5)       # the place the calendar means when none is given


def place(p, mode):
    return (p, (), (None, p[1], p[2]), (p[0], None, p[2]), (p[0], p[1], None))[mode]


def row(x, w=0):
    """a tuple behind its length; from the field w on its last one may be seconds with a fraction"""
    x = list(x)
    if w and len(x) == w + 3:
        x[-1] = round(Fr(x[-1]) * 10**6)
    return [len(x)] + x


def micro(x):
    return row(list(x[:-1]) + [round(Fr(x[-1]) * 10**6)])


@op
def optsfrom(a, s):
    """n sec us, place, mode: one instant through every option"""
    (n, sec, us), mode = a[:3], a[6]
    here = coords(a[3:6])
    p, full = place(here, mode), (here if mode == 0 else TEHRAN)
    jd = float(instant(n, sec, us))
    f = bc.badi_date_from_jd
    x = f(jd, *p, short=True, us=True)
    out = row(x) + row(f(jd, *full, short=True, us=True))
    opts = [dict(short=bool(k & 1), us=bool(k & 2), trim=bool(k & 4)) for k in range(8)]

    def shown(r, o):
        w = 3 if o["short"] else 5
        if not o["us"] and len(r) == w + 4 and r[-1] == 0:
            r = r[:-1]           # a fourth field, always zero, is there for the microseconds
        return row(r, 0 if o["us"] else w)
    for o in opts:
        out += shown(f(jd, *p, **o), o)
    for k in range(4):
        out += row(f(jd, *p, rtd=True, short=bool(k & 1), trim=bool(k & 2)))
    out += micro(f(jd, *p, fraction=True)) + micro(f(jd, *p, fraction=True, short=True))
    ref = []
    for o in (dict(us=True, fraction=True), dict(us=True, rtd=True), dict(fraction=True, rtd=True), dict(us=True, rtd=True, fraction=True)):
        try:
            f(jd, *p, **o)
            ref.append(0)
        except AssertionError:
            ref.append(1)
    out += row(ref)
    l9 = f(jd, *p, us=True)
    secs = tuple(l9[:7]) + (l9[7] + l9[8] / 1e6,)
    for o in opts:
        out += shown(bc.kvymdhms_from_b_date(secs, **o), o)
    frac = bc.date_from_kvymdhms(l9)
    out += micro(frac) + micro(bc.date_from_kvymdhms(l9, short=True)[:3])
    s8 = tuple(x[:5]) + (x[5] + x[6] / 1e6,)
    for o in opts:
        src = (l9 if o["us"] else secs) if o["short"] else (x if o["us"] else s8)
        r = (bc.short_date_from_long_date if o["short"] else bc.long_date_from_short_date)(src, trim=o["trim"])
        out += shown(r, o)
    g = _dt.date.fromordinal(n - 1721423)
    g = (g.year, g.month, g.day, sec // 3600, sec // 60 % 60, float(sec % 60 + Fr(us, 10**6)))
    t = float((instant(n, sec, us) - EPOCH0) * SEC)
    for h, v in ((bc.badi_date_from_gregorian_date, g), (bc.badi_date_from_timestamp, t)):
        out += row(h(v, *p, short=True, us=True))
        for o in opts:
            out += shown(h(v, *p, **o), o)
        for k in (0, 1):
            out += row(h(v, *p, rtd=True, short=bool(k), trim=True))
    day = tuple(l9[:4]) + (l9[4] + (l9[5] * 3600 + l9[6] * 60 + l9[7] + l9[8] / 1e6) / 86400,)
    for o in opts:
        out += shown(bc.kvymdhms_from_b_date(day, **o), o)
    return out


@op
def optsto(a, s):
    """y m d sec us, place, mode: one day and time through every form of the time"""
    d, sec, us, mode = tuple(a[:3]), a[3], a[4], a[8]
    here = coords(a[5:8])
    p, full = place(here, mode), (here if mode == 0 else TEHRAN)
    h, m, q = sec // 3600, sec // 60 % 60, sec % 60
    f = bc.jd_from_badi_date

    def at(t, z=p):
        return row(jsplit(f(d + tuple(t), *z)))
    t4 = (h, m, q, us)
    short = t4
    while short and not short[-1]:
        short = short[:-1]
    dfrac = d[:2] + (d[2] + (sec + us / 1e6) / 86400,)
    out = at(t4) + at(t4, full) + at((h, m, q + us / 1e6)) + at((h, m + (q + us / 1e6) / 60)) + at((h + (m * 60 + q + us / 1e6) / 3600,))
    out += row(jsplit(f(dfrac, *p))) + at(short) + at((None,) * (1 + sec % 4)) + at(())
    out += row(tsplit(bc.timestamp_from_badi_date(d + t4, *p)))
    for u in (False, True):
        g = bc.gregorian_date_from_badi_date(d + t4, *p, us=u)
        out += row(list(g[:3]) + hmsus(g[3:]))
    out += row(hmsus(bc.utc_sunset(d + t4[:sec % 5], *p)))
    for md, k in (((1, 1), bc.naw_ruz_g_date), ((2, 13), bc.first_day_of_ridvan_g_date)):
        g, w = k(d[0], *p), k(d[0], *p, hms=True)
        n = int(g[2])
        out += row(jsplit(f((d[0],) + md, *p))) + row(list(g[:2]) + [n] + daysplit(g[2] - n)[1:]) + row(list(w[:3]) + hmsus(w[3:]))
    ld = lform(d[0]) + d[1:]
    for v, sh in ((d, True), (ld, False)):
        out += row(daysplit(bc.midday(v, _short=sh))) + row(hmsus(bc.midday(v, hms=True, _short=sh)))
    jd = f(d, *p)
    ln = bc._day_length(jd, *full[:2])
    return out + row(daysplit(bc._day_length(jd, *full[:2], decimal=True))) + row(hmsus(ln))


BADINT = -2000000001


# ---- C11 timestamps at the local place (latitude, longitude in thousandths of a degree; 999999: the default)
_PLACE = None


def at(lat, lon):
    global _PLACE
    if _PLACE != (lat, lon):
        _PLACE = (lat, lon)
        if lat == 999999:
            B.set_local_coordinates()
        else:
            B.set_local_coordinates(lat / 1000, lon / 1000)


def dtf(form, y, m, d):
    return lform(y) + (m, d) if form else (y, m, d, None, None)


@op
def ts(a, s):
    """form y m d sec us, place: timestamp; of the day's start, of the next day's; one unit later; and back"""
    form, y, m, d, sec, us = a[:6]
    at(*a[6:8])
    dt = datetime(*dtf(form, y, m, d), *hms(sec, us))
    t = dt.timestamp()
    later = dt + timedelta(0, 0, 1000) if us < 990000 else dt + timedelta(0, 1)
    q = datetime.fromtimestamp(t, short=not form)
    w = date.fromtimestamp(t, short=not form)
    return (tsplit(t) + tsplit(datetime(*dtf(form, y, m, d)).timestamp()) + tsplit(datetime(*dtf(form, *nextday((y, m, d)))).timestamp())
            + [int(later.timestamp() > t), int(q.tzinfo is None)] + shape(q) + [q.hour, q.minute, q.second, q.microsecond] + shape(w))


@op
def fromts(a, s):
    """n sec us (UTC), place: date and datetime at the local place, both forms"""
    at(*a[3:5])
    t = float((instant(*a[:3]) - EPOCH0) * SEC)
    q = datetime.fromtimestamp(t)
    l = datetime.fromtimestamp(t, short=False)
    u = datetime.fromtimestamp(t, timezone.utc)
    w = date.fromtimestamp(t)
    v = date.fromtimestamp(t, short=False)
    d = q.b_date
    return (list(d) + [q.hour, q.minute, q.second, q.microsecond] + shape(l) + [l.hour, l.minute, l.second, l.microsecond]
            + list(u.b_date) + [u.hour, u.minute, u.second, u.microsecond] + shape(w) + shape(v)
            + sum((tsplit(datetime(*x, None, None).timestamp()) for x in (prevday(d), d, nextday(d))), []))


# ---- C15 ISO text
@op
def isod(a, s):
    x = mk(a[0], 0, *a[1:4])
    return [], [x.isoformat(), str(x)]


@op
def isodt(a, s):
    x = mkdt(a)
    return [], [x.isoformat(s[0], s[1]), str(x)]


@op
def readd(a, s):
    return shape(date.fromisoformat(s[0], short=not a[0]))


@op
def readdt(a, s):
    return shapedt(datetime.fromisoformat(s[0]))


OPS["spelld"] = readd
OPS["spelldt"] = readdt


@op
def isoback(a, s):
    x = mkdt(a)
    y = datetime.fromisoformat(x.isoformat(s[0]))
    return shapedt(y) + [y == x]


@op
def isobackd(a, s):
    x = mk(a[0], 0, *a[1:4])
    y = date.fromisoformat(x.isoformat(), short=not a[0])
    return shape(y) + [y == x]


# ---- C16
def fmt(x, f):
    return [format(x, "") == str(x)], [x.strftime(f), format(x, f)]


@op
def fmtd(a, s):
    return fmt(mk(a[0], a[1], *a[2:5]), s[0])


@op
def fmtdt(a, s):
    return fmt(mkdt(a), s[0])


@op
def fmtt(a, s):
    return fmt(mkt(a), s[0])


@op
def ctimedt(a, s):
    return [], [mkdt(a).ctime()]


# ---- C17
@op
def strp(a, s):
    return shapedt(datetime.strptime(s[0], s[1]))


@op
def strpback(a, s):
    t = mkdt(a).strftime(s[0])
    try:
        return shapedt(datetime.strptime(t, s[0])), [t]
    except (ValueError, AssertionError):
        raise NotReadBack(t)


class NotReadBack(Exception):
    pass


# ---- C29 zones with daylight saving
# a datetime: 16 integers  form y m d h mi s us kind st sv n1 m1 n2 m2 fold
class Saving(B.tzinfo):
    """st minutes from UTC; sv more between local minute m1 of day n1 and m2 of day n2"""
    def __init__(self, st, sv, n1, m1, n2, m2):
        self.args = st, sv, n1, m1, n2, m2

    def __reduce__(self):
        return Saving, self.args

    def on(self, x):
        st, sv, n1, m1, n2, m2 = self.args
        w = x.toordinal() * 86400 + x.hour * 3600 + x.minute * 60 + x.second
        near = min if x.fold else max
        return n1 * 86400 + 60 * (m1 + near(sv, 0)) <= w < n2 * 86400 + 60 * (m2 + near(-sv, 0))

    def fromutc(self, x):
        """a zone of a user's own that says how it is shown, folds included"""
        st, sv, n1, m1, n2, m2 = self.args
        w = x.toordinal() * 86400 + x.hour * 3600 + x.minute * 60 + x.second + 60 * st
        o = timedelta(minutes=st + (sv if n1 * 86400 + 60 * m1 <= w and w + 60 * sv < n2 * 86400 + 60 * m2 else 0))
        y = x + o
        return y if y.utcoffset() == o else y.replace(fold=1)

    def utcoffset(self, x):
        return None if x is None else timedelta(minutes=self.args[0] + (self.args[1] if self.on(x) else 0))

    def dst(self, x):
        return None if x is None else timedelta(minutes=self.args[1] if self.on(x) else 0)

    def tzname(self, x):
        return None if x is None else "Sv" if self.on(x) else "St"


class Unknown(B.tzinfo):
    def __reduce__(self):
        return Unknown, ()

    def utcoffset(self, x):
        return None

    tzname = dst = utcoffset


class Odd(B.tzinfo):
    """answers what no zone may answer"""
    def __init__(self, what):
        self.what = what

    def utcoffset(self, x):
        return {"int": 60, "day": timedelta(1), "minusday": timedelta(-1), "float": 1.5, "text": "+01:00"}.get(self.what, timedelta(hours=1))

    def dst(self, x):
        return {"dstint": 1, "dstday": timedelta(1)}.get(self.what, timedelta(0))

    def tzname(self, x):
        return {"nameint": 5, "namebytes": b"Z"}.get(self.what, "Odd")


def mkx(a, other=None):
    form, y, m, d, h, mi, s, us, kind = a[:9]
    f = flds(form, y, m, d)
    if not form:
        f += (None, None)
    z = (None if kind == 0 else Saving(*a[9:15]) if kind == 1 else timezone(timedelta(minutes=a[9])) if kind == 2
         else Unknown() if kind == 4 else other.tzinfo)
    return datetime(*f, h, mi, s, us, z, fold=a[15])


def optsec(o):
    return [0, 0] if o is None else [1, o // timedelta(seconds=1)]


@op
def svshow(a, s):
    x = mkx(a)
    t = x.timetuple()
    u = ttlist(t)
    iso = x.isoformat()
    base = x.replace(tzinfo=None).isoformat()
    return (optsec(x.utcoffset()) + optsec(x.dst()) + [t.tm_isdst] + [u[-3], u[-2]] + ttlist(x.utctimetuple())[:-3],
            [x.tzname() or "", iso[len(base):] if iso.startswith(base) else "{?}" + iso, x.strftime("%Z"), t.tm_zone or ""])


@op
def svcmp(a, s):
    p = mkx(a[:16])
    q = mkx(a[16:], p)
    return sixtri(p, q) + sixtri(q, p) + [hash(p) == hash(q), len({p, q})]


@op
def svsub(a, s):
    p = mkx(a[:16])
    return dsu(p - mkx(a[16:], p))


@op
def svdo(a, s):
    x = mkx(a[:16])
    how, b = a[16], a[17:]
    if how in (0, 1):
        t = td(*b)
        z = x + t if how == 0 else x - t
    elif how == 2:
        z = x.replace(fold=1 - x.fold)
    elif how in (3, 4):
        f = timezone(timedelta(minutes=b[0]))
        z = x.replace(tzinfo=f) if how == 3 else x.astimezone(f)
    elif how == 5:
        z = datetime.combine(x.date(), x.timetz())
    elif how == 6:
        z = x.replace(hour=b[1] // 3600, minute=b[1] // 60 % 60, second=b[1] % 60)
    elif how == 7:
        z = copy.copy(x)
    elif how == 8:
        z = copy.deepcopy(x)
    else:
        z = pickle.loads(pickle.dumps(x, how - 5))
    return shapedt(z)


@op
def svinto(a, s):
    x = mkx(a[:16])
    how = a[16]
    w = (timezone.utc, timezone(timedelta(minutes=a[17])), Saving(a[17], *a[10:15]))[how]
    z = Saving(*a[9:15])
    y = x.astimezone(w).astimezone(z)
    return shapedt(y) + [y.tzinfo is z, y - x == timedelta(0)]


def stamp(x):
    t = x.timestamp()
    n = math.floor(t / 86400)
    u = round((t - n * 86400) * 10**6)
    return [n + u // (86400 * 10**6), u % (86400 * 10**6) // 10**6, u % 10**6]


@op
def svstamp(a, s):
    return stamp(mkx(a))


@op
def ats(a, s):
    return stamp(mkdt(a))


@op
def svtime(a, s):
    p = time(*a[:4], Saving(60, 60, 1, 0, 3, 0) if a[9] else Unknown(), fold=a[4])
    q = time(*a[5:9])
    return (sixtri(p, q) + sixtri(q, p) + [hash(p) == hash(q)]
            + [p.utcoffset() is not None, p.tzname() is not None, p.dst() is not None])


@op
def svbad(a, s):
    """what a zone may not answer must be refused where it is asked"""
    what, how = s
    x = datetime(*a[:3], None, None, *a[3:5], tzinfo=Odd(what))
    y = datetime(*a[:3], None, None, *a[3:5], tzinfo=timezone.utc)
    if how == "offset":
        x.utcoffset()
    elif how == "iso":
        x.isoformat()
    elif how == "less":
        x < y
    elif how == "minus":
        y - x
    elif how == "hash":
        hash(x)
    elif how == "dst":
        x.dst()
    elif how == "name":
        x.tzname()
    elif how == "utc":
        x.utctimetuple()
    else:
        raise AssertionError(how)
    return []
