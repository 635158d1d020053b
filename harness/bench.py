"""Behaviours of spec/Workbench.tla, made step by step with the real objects.

bench.py <shard> <scratch> <seed> <behaviours>: TLC walks the machine at random
and prints its behaviours; each step is made with the real objects, and after
each step the object must have exactly the fields the machine has, and must not
differ in anything it shows from an object made directly from these fields."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import copy, json, pickle, re
import vh
os.environ.setdefault("TEST_RUNNING", "true")
sys.path.insert(0, "/repo")
from badidatetime import date, datetime, time, timedelta, timezone, tzinfo
from dom import lform


class Day(date):
    pass


class Moment(datetime):
    pass


class Hour(time):
    pass


class Summer_(tzinfo):
    """210 minutes from UTC, 60 more from the 11th of the first month, 2:00, to the 11th of the tenth, 3:00"""
    def on(self, x):
        k = (x.month or 20, x.day, x.hour * 3600 + x.minute * 60 + x.second)
        return (1, 11, 7200 if x.fold else 10800) <= k < (10, 11, 7200 if x.fold else 10800)

    def utcoffset(self, x):
        return None if x is None else timedelta(minutes=270 if self.on(x) else 210)

    def dst(self, x):
        return None if x is None else timedelta(minutes=60 if self.on(x) else 0)

    def tzname(self, x):
        return None if x is None else "Summer" if self.on(x) else "Winter"

    def fromutc(self, x):
        l = x + timedelta(minutes=210)
        k = (l.month or 20, l.day, l.hour * 3600 + l.minute * 60 + l.second)
        if (1, 11, 7200) <= k < (10, 11, 7200):
            l += timedelta(minutes=60)
            return l
        return l.replace(fold=1) if l.utcoffset() != timedelta(minutes=210) else l

    def __repr__(self):
        return "SUMMER"

    def __reduce__(self):
        return "SUMMER"


SUMMER = Summer_()
CLASSES = ((date, Day), (datetime, Moment), (time, Hour))
KIND = {c: k for k, cs in enumerate(CLASSES) for c in cs}
MOMENTS = CLASSES[1]
UTCNAME, UTCCOPY = repr(timezone.utc), repr(pickle.loads(pickle.dumps(timezone.utc)))
WAYS = (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, 4)), lambda x: pickle.loads(pickle.dumps(x, 5)))
NAMES = dict(enumerate("- New AddDays AddTime PutDay PutMonth PutYear PutLong PutTime PutZone PutFold ToDate ToTime WithTime "
                       "WithDate Rejoin Reorder Move Copy IsoBack TextBack Around RefuseDays RefusePut RefuseMix MoveSummer".split()))


def zone(aware, off):
    return SUMMER if aware == 2 else timezone(timedelta(minutes=off)) if aware else None


def hms(s):
    return s // 3600, s // 60 % 60, s % 60


def dfields(form, y, m, d):
    return (lform(y) if form else (y,)) + (m, d)


def make(v, ymd):
    """An object made from the fields of the machine alone."""
    k, form, _, s, u, aware, off, fold, sub = v
    cls = CLASSES[k][sub]
    if k == 0:
        return cls(*dfields(form, *ymd))
    if k == 2:
        return cls(*hms(s), u, tzinfo=zone(aware, off), fold=fold)
    f = dfields(form, *ymd)
    return cls(*f, *((None, None) if not form else ()), *hms(s), u, tzinfo=zone(aware, off), fold=fold)


def fields(x):
    """The fields of the object, in the machine's terms."""
    k = KIND.get(type(x), 9)
    form = off = aware = s = u = fold = 0
    sub = CLASSES[k].index(type(x)) if k < 9 else 9
    ymd = ()
    if k in (0, 1):
        form = int(not x.is_short)
        ymd = tuple(x.b_date)
        if k == 0:
            return [k, form, 0, 0, 0, 0, 0, sub], ymd
    if k in (1, 2):
        s = x.hour * 3600 + x.minute * 60 + x.second
        u, fold = x.microsecond, x.fold
        o = x.utcoffset()
        aware = 2 if x.tzinfo is SUMMER else int(x.tzinfo is not None)
        off = 0 if o is None else o / timedelta(minutes=1)
    return [k, form, s, u, aware, off, fold, sub], ymd


def tell(f, *a):
    try:
        r = f(*a)
        # a copy of timezone.utc need not be the very object
        return (type(r).__name__, (r if type(r) is str else repr(r)).replace(UTCCOPY, UTCNAME), repr(tuple(r)) if isinstance(r, tuple) else "")
    except Exception as e:
        return type(e).__name__


CHEAP = {
    0: [repr, str, hash, lambda x: x.isoformat(), lambda x: x.is_short, lambda x: x.b_date, lambda x: pickle.dumps(x, 4), lambda x: (x.year, x.month, x.day)],
    1: [repr, str, lambda x: x.isoformat(sep=" ", timespec="milliseconds"), lambda x: x.is_short, lambda x: x.b_date,
        lambda x: pickle.dumps(x, 4), lambda x: pickle.dumps(x, 5), lambda x: (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.fold),
        lambda x: x.tzname(), lambda x: x.utcoffset(), lambda x: x.dst(), lambda x: x.date(), lambda x: x.time(), lambda x: x.timetz(), lambda x: x.tzinfo],
    2: [repr, str, hash, lambda x: x.isoformat(), lambda x: x.isoformat("minutes"), lambda x: x.strftime("%H:%M:%S.%f %z %Z %p"), lambda x: pickle.dumps(x, 4),
        lambda x: pickle.dumps(x, 5), lambda x: (x.hour, x.minute, x.second, x.microsecond, x.fold), lambda x: x.tzname(), lambda x: x.utcoffset(),
        lambda x: x.dst(), lambda x: x.tzinfo],
}
DEAR = {    # the code works out positions of the sun for these
    0: [lambda x: x.ctime(), lambda x: x.toordinal(), lambda x: x.weekday(), lambda x: x.isoweekday(), lambda x: x.isocalendar(), lambda x: x.timetuple(),
        lambda x: x.strftime("%D %x %K %V %u %j"), lambda x: format(x, "%Y"), lambda x: x.timetuple()],
    1: [hash, lambda x: x.ctime(), lambda x: x.toordinal(), lambda x: x.weekday(), lambda x: x.isoweekday(), lambda x: x.isocalendar(),
        lambda x: x.timetuple(), lambda x: x.utctimetuple(), lambda x: x.strftime("%c %x %X %T %f %z %Z %y"), lambda x: x.strftime("%p %I"), lambda x: format(x, "%j")],
    2: [lambda x: format(x, "%H"), hash],
}


def look(x, w, n, plain):
    """What tells the object from one made directly from the same fields."""
    k = KIND[type(x)]
    dear = DEAR[k] if n % 14 == 13 else DEAR[k][n % len(DEAR[k]):][:1]
    for i, f in enumerate(CHEAP[k] + dear):
        a, b = tell(f, x), tell(f, w)
        if a != b:
            return "shows %r, one made directly %r (%d)" % (a, b, i)
    if type(x) is not CLASSES[k][0] and n % 3 == 0:
        p = plain
        if not (p == x and x == p) or p != x or p < x or (k != 2 and hash(p) != hash(x)):
            return "is not equal to the same value of the plain class"
    if not (x == w and w == x) or x != w or x < w or w < x or not (x <= w and x >= w):
        return "is not equal to one made directly"
    if len({x, w}) != 1:
        return "is another key than one made directly"
    return None


class Refused(Exception):
    pass


def refused(f):
    try:
        r = f()
    except Exception:
        return
    raise Refused("gave %r instead of refusing" % (r,))


def do(x, step):
    act, a, b, c = step[:4]
    v, ymd = step[4:13], step[13:]
    moment = MOMENTS[v[8]]
    n = NAMES[act]
    if n == "New":
        return make(v, ymd)
    if n == "AddDays":
        t = timedelta(a if not b else -a)
        return x + t if not b else x - t
    if n == "AddTime":
        return timedelta(a, b, c) + x
    if n in ("PutDay", "PutMonth", "PutYear"):
        return x.replace(**{n[3:].lower(): a})
    if n == "PutLong":
        return x.replace(**{("year", "vahid", "kull_i_shay")[a]: b})
    if n == "PutTime":
        return x.replace(**{("hour", "minute", "second", "microsecond")[a]: b})
    if n == "PutZone":
        return x.replace(tzinfo=zone(a, b))
    if n == "PutFold":
        return x.replace(fold=a)
    if n == "ToDate":
        return x.date()
    if n == "ToTime":
        return x.timetz() if a else x.time()
    if n == "WithTime":
        return moment.combine(x.date() if type(x) in MOMENTS else x, time(*hms(a), b, tzinfo=zone(c, 210)))
    if n == "WithDate":
        return moment.combine(date(*dfields(b, *ymd)), x)
    if n == "Rejoin":
        return moment.combine(x.date(), x.timetz())
    if n == "Reorder":
        return type(x).fromordinal(x.toordinal(), short=not a)
    if n == "Move":
        return x.astimezone(zone(1, a))
    if n == "MoveSummer":
        return x.astimezone(SUMMER)
    if n == "Copy":
        return WAYS[a](x)
    if n == "IsoBack":
        return type(x).fromisoformat(x.isoformat() if type(x) not in CLASSES[2] else "T" + x.isoformat())
    if n == "TextBack":
        return moment.strptime(x.strftime("%Y-%m-%d %H:%M:%S.%f"), "%Y-%m-%d %H:%M:%S.%f")
    if n == "Around":
        w = date.fromordinal(a, short=x.is_short)
        w = moment.combine(w, time(*hms(b), tzinfo=x.tzinfo))
        return w + (x - w)
    if n == "RefuseDays":
        t = timedelta(a if not b else -a)
        refused(lambda: x + t if not b else x - t)
        return x
    if n == "RefusePut":
        names = ("day", "month", "hour", "minute", "second", "microsecond", "fold", "vahid")
        refused(lambda: x.replace(**{names[a]: b}))
        return x
    if n == "RefuseMix":
        if type(x) in MOMENTS:
            w = x.replace(tzinfo=None if x.tzinfo else timezone.utc)
            refused(lambda: x - w)
            refused(lambda: x.replace(fold=0) - x.date())
        else:
            w = x.replace(tzinfo=None if x.tzinfo else timezone.utc)
        refused(lambda: x < w)
        if x == w:
            raise Refused("a naive and an aware value are equal")
        return x
    raise AssertionError(n)


def play(beh):
    """Make the steps of a behaviour; returns (number of steps, what went wrong)."""
    x = None
    salt = sum(beh[0]) % 97
    for i, st in enumerate(beh):
        old, before = x, None if x is None else (fields(x), repr(x))
        try:
            x = do(x, st)
            w = make(st[4:13], st[13:])
            got, ymd = fields(x)
            want = [st[4], st[5]] + st[7:13]
            wymd = tuple(dfields(st[5], *st[13:])) if st[4] != 2 else ()
            if got != want or ymd != wymd:
                return i, "fields %r %r, the machine has %r %r" % (got, ymd, want, wymd)
            bad = look(x, w, i if i == 13 else i * 5 + salt, make(st[4:12] + [0], st[13:]))
            if bad is None and i % 4 == 3 and st[4] != 2 and x.toordinal() != st[6]:
                bad = "ordinal %r, the machine has %r" % (x.toordinal(), st[6])
            if bad is None and before is not None and (fields(old), repr(old)) != before:
                bad = "the value it was made from changed from %s to %r" % (before[1], old)
            if bad:
                return i, bad
        except Refused as e:
            return i, str(e)
        except Exception as e:
            return i, "%s: %s" % (type(e).__name__, e)
    return len(beh), None


def behaviours(out):
    for b in dict.fromkeys(re.sub(r"\s+", "", t) for t in out.split('"B"')[1:]):
        b = b[b.index("<<<"):]
        yield [[int(n) for n in t.split(",")] for t in b[2:b.index(">>>")].strip("<>").split(">>,<<")]


def main():
    shard, scratch, seed, num = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    depth = 14
    rc, out = vh.tlc("Workbench", "Workbench", scratch, workers=1, heap="1g", timeout=700,
                     extra=("-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)))
    if "Error" in out or "violated" in out:
        raise SystemExit("TLC: " + out[-800:])
    acts, fails, n, steps = {}, [], 0, 0
    for beh in behaviours(out):
        if any(len(s) != 16 for s in beh) or not beh:
            raise SystemExit("unreadable behaviour %r" % (beh,))
        n += 1
        k, bad = play(beh)
        steps += min(k + 1, len(beh))
        for s in beh[:k + 1]:
            acts[NAMES[s[0]]] = acts.get(NAMES[s[0]], 0) + 1
        if bad and len(fails) < 20:
            fails.append(dict(what="after %s%r: %s" % (NAMES[beh[k][0]], tuple(beh[k][1:4]), bad), step=k,
                              behaviour=[[NAMES[s[0]]] + s[1:] for s in beh[:k + 1]]))
        last = beh
    if n < num * 0.5:
        raise SystemExit("only %d behaviours" % n)
    with open(os.path.join(scratch, "bench-%d.json" % shard), "w") as f:
        json.dump(dict(behaviours=n, steps=steps, acts=acts, fails=fails, sample=last), f)


if __name__ == "__main__":
    main()
