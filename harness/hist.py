"""Histories and schedules of calls (C23, C24).

hist.py run <pid> <tier> <shard> <dir> writes <dir>/table-<shard>.ndjson - every
query with the result it has alone, first thing in a fresh process - and
<dir>/trace-<shard>.ndjson - invocations and returns of the queries in long
histories (C23) or under chosen interleavings of two threads (C24), with the
settings of the local place among them.  TLC decides the trace on the machine
of spec/History.tla.
"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dis, importlib, inspect, json, pickle, random, signal, threading, time as _t
_t.sleep(0)
CLOCK = [None]
_real = _t.time


def _clock():
    return _real() if CLOCK[0] is None else CLOCK[0]


ZONES = (("UTC", 0), ("Asia/Kolkata", 19800), ("Etc/GMT+8", -28800), ("Asia/Tehran", 12600))
PKG = "/repo/badidatetime/"
TEHRAN = (35.69435, 51.288701, 3.5)
# what is asked for: nothing, coordinates, or the name of a place
CITIES = {"New York": (40.7127281, -74.0060152), "Sydney": (-33.8698439, 151.2082848), "27601": (35.7738, -78.6344)}
COORDS = [(35.7796, -78.6382), (0.0, 0.0), (-41.28, 174.77), (51.5, 0.0), (0.0, 100.5), (64.13, -21.9), (35, -78), (0, 12)]
NETWORK = [0]


class FakeNominatim:
    """Stands in for the network service that finds places by name."""
    def __init__(self, *a, **k):
        pass

    def geocode(self, what, *a, **k):
        NETWORK[0] += 1
        c = CITIES.get(str(what))
        if not c:
            return None

        class L:
            latitude, longitude = c
        return L


def requests(off):
    """(arguments of set_local_coordinates, the place that results or None)"""
    z = off / 3600
    r = [(((), {}), TEHRAN)]
    for c in COORDS:
        r.append(((c, {}), c + (z,)))
    r.append((((35.7796, -78.6382), {"locale": "Sydney"}), (35.7796, -78.6382, z)))
    r.append((((), {"lat": 10.25, "lon": -61.5}), (10.25, -61.5, z)))
    for n, c in CITIES.items():
        r.append((((), {"locale": int(n) if n.isdigit() else n}), c + (z,)))
    r.append((((), {"locale": "No such place"}), None))
    return r


def load(off_zone):
    os.environ.update(TZ=off_zone, LC_ALL="C.UTF-8", TEST_RUNNING="true")
    _t.tzset()
    _t.time = _clock
    global ops, vh, gens, dom
    import ops, vh, gens, dom          # noqa
    import badidatetime
    badidatetime.Nominatim = FakeNominatim
    import geopy.geocoders
    geopy.geocoders.Nominatim = FakeNominatim
    define()
    for f in sorted(os.listdir(PKG)):         # modules the package imports late
        if f.endswith(".py") and f != "__init__.py":
            try:
                importlib.import_module("badidatetime." + f[:-3])
            except Exception:
                pass
    codes()


OBJ = {}


def define():
    """The operations only histories use: queries of the local place, and
    methods of objects that live as long as the process."""
    BD, B = ops.BD, ops.B
    date, datetime, time, timedelta, timezone = ops.date, ops.datetime, ops.time, ops.timedelta, ops.timezone
    L = ops.OPS

    def txt(*v):
        return [], [repr(x) for x in v]

    def flat(x):
        return [x.is_short] + list(x.b_date) + ([x.hour, x.minute, x.second, x.microsecond] if isinstance(x, datetime) else [])

    def at(a):
        return a[0] + a[1] / 8

    def off(tz):
        d = tz.utcoffset(None)
        return [d.days, d.seconds, d.microseconds]

    def ldate(a, s):
        return flat(date.fromtimestamp(at(a), short=bool(a[2])))

    def xdate(a, s, p):
        r = B.BahaiCalendar().badi_date_from_timestamp(at(a), *p, short=bool(a[2]), trim=True)
        return [a[2]] + list(r[:3] if a[2] else r[:5])

    def ltoday(a, s):
        CLOCK[0] = at(a)
        try:
            x = date.today(short=bool(a[2]))
            return flat(x)
        finally:
            CLOCK[0] = None

    def lnow(a, s):
        CLOCK[0] = at(a)
        try:
            return flat(datetime.now(short=bool(a[2])))
        finally:
            CLOCK[0] = None

    def ldt(a, s):
        return flat(datetime.fromtimestamp(at(a), short=bool(a[2])))

    def xdt(a, s, p):
        r = B.BahaiCalendar().badi_date_from_timestamp(at(a), *p, us=True, short=bool(a[2]))
        k = 3 if a[2] else 5
        h = list(r[k:])
        h[2] = min(h[2], 59)
        return [a[2]] + list(r[:k]) + h

    def lstamp(a, s):
        return txt(datetime(*ops.dtf(a[0], *a[1:4]), a[4], a[5], a[6]).timestamp())

    def xstamp(a, s, p):
        return txt(B.BahaiCalendar().timestamp_from_badi_date((a[1], a[2], a[3], a[4], a[5], a[6], 0), *p))

    def lzone(a, s):
        return off(datetime(*ops.dtf(a[0], *a[1:4]), a[4], a[5], a[6]).astimezone().tzinfo)

    def xzone(a, s, p):
        return off(timezone(timedelta(hours=p[2])))

    def place(a, s):
        return txt(*(float(x) for x in BD.LOCAL_COORD), *(float(x) for x in B.LOCAL_COORD)), \
            off(BD.LOCAL) + off(B.LOCAL) + off(BD.timezone.local) + off(B.timezone.local)

    def place2(a, s):
        r = place(a, s)
        return r[1], r[0][1]

    def xplace(a, s, p):
        return off(timezone(timedelta(hours=p[2]))) * 4, [repr(float(x)) for x in p] * 2

    def keep(f):
        def g(a, s):
            key = tuple(a[:-1])
            if key not in OBJ:
                OBJ[key] = f(a[:-1])
            return method(OBJ[key], a[-1])
        return g

    def rp(x):
        if isinstance(x, BD.struct_time if hasattr(BD, "struct_time") else ops.struct_time):
            return tuple(x), x.tm_zone if hasattr(x, "tm_zone") else None
        return x

    def method(x, m):
        D = isinstance(x, date)
        T = isinstance(x, datetime)
        fs = [lambda: hash(x), lambda: str(x), lambda: repr(x), lambda: x.isoformat(), lambda: x.strftime("%c|%x|%X|%U|%j"),
              lambda: pickle.loads(pickle.dumps(x)), lambda: hash(pickle.loads(pickle.dumps(x, 2))),
              lambda: x == x.replace(), lambda: hash(x.replace()) == hash(x), lambda: x.strftime("%A %B %d")]
        if D:
            fs += [lambda: x.toordinal(), lambda: tuple(x.isocalendar()), lambda: rp(x.timetuple()), lambda: x + timedelta(1),
                   lambda: hash(x + timedelta(1)), lambda: x.replace(day=1), lambda: hash(x.replace(day=1)), lambda: x.b_date,
                   lambda: x - x.replace(day=1), lambda: x < x.replace(day=1), lambda: x.ctime(), lambda: x.weekday(),
                   lambda: type(x).fromordinal(x.toordinal()), lambda: x.is_short]
        if T:
            fs += [lambda: rp(x.utctimetuple()), lambda: x.date(), lambda: x.time(), lambda: x.timetz(), lambda: hash(x.time()),
                   lambda: x.utcoffset(), lambda: x.tzname(), lambda: x.dst(), lambda: hash(x.replace(microsecond=77)),
                   lambda: x.replace(fold=1), lambda: hash(x.replace(fold=1)), lambda: x.b_time, lambda: x.isoformat("T", "milliseconds"),
                   lambda: hash(x.replace(tzinfo=timezone(timedelta(hours=2)))),
                   lambda: (x if x.tzinfo else x.replace(tzinfo=timezone.utc)).astimezone(timezone(timedelta(hours=-3))), lambda: hash(x.date())]
        if isinstance(x, time):
            fs += [lambda: x.replace(hour=3), lambda: hash(x.replace(hour=3)), lambda: x.utcoffset(), lambda: x.tzname(),
                   lambda: x < x.replace(hour=23, minute=59), lambda: hash(x.replace(tzinfo=timezone(timedelta(hours=2)))),
                   lambda: x.isoformat("minutes"), lambda: hash(x.replace(fold=1)), lambda: x.b_time]
        return txt(fs[m % len(fs)]())

    def mk(a):
        kind, form, y, m, d, h, mi, s, us, o = a
        tz = None if o == 9999 else timezone(timedelta(minutes=o))
        if kind == 0:
            return date(*ops.flds(form, y, m, d))
        if kind == 1:
            return datetime(*ops.dtf(form, y, m, d), h, mi, s, us, tzinfo=tz)
        return time(h, mi, s, us, tzinfo=tz)
    L.update(ldate=ldate, ltoday=ltoday, lnow=lnow, ldt=ldt, lstamp=lstamp, lzone=lzone, place=place2, obj=keep(mk))
    LOCAL.update(ldate=xdate, ltoday=xdate, lnow=xdt, ldt=xdt, lstamp=xstamp, lzone=xzone, place=xplace)


LOCAL = {}


# ---------------------------------------------------------------- queries
def localqueries(rng):
    def rt():
        x = rng.random()
        if x < .6:
            return rng.randint(-2 * 10**9, 2 * 10**9)
        return rng.choice((0, 1, -1, 86400, 951782400, 1700000000, 1710907200, 1742443200, 1773979200)) + rng.randint(-90000, 90000)
    q = [("place", (), ())]
    for _ in range(3):
        t = rt()
        for op in ("ldate", "ltoday", "lnow", "ldt"):
            q.append((op, (t, rng.randint(0, 7), rng.randint(0, 1)), ()))
    for _ in range(3):
        d = dom.rdate(rng, 1, 300)
        t = dom.rtime(rng)[:3]
        for op in ("lstamp", "lzone"):
            q.append((op, (rng.randint(0, 1),) + d + t, ()))
    return q


def objqueries(rng, kind=None):
    kind = rng.choice((0, 1, 1, 1, 2, 2)) if kind is None else kind
    y, m, d = dom.rdate(rng)
    t = dom.rtime(rng)
    o = rng.choice((9999, 0, 210, -570, 90, rng.randint(-1439, 1439)))
    base = (kind, rng.randint(0, 1), y, m, d) + t + (o,)
    n = (24, 40, 19)[kind]
    return [("obj", base + (m,), ()) for m in [0] + rng.sample(range(1, n), 7)]


def neighbours(rng, q, k):
    """Calls that share nearly everything with q."""
    op, a, s = q
    out = []
    for _ in range(k):
        b = list(a)
        if not b:
            break
        i = rng.randrange(len(b))
        b[i] = rng.choice((b[i] + 1, b[i] - 1, 1 - b[i] if b[i] in (0, 1) else b[i] + 1, 0, -1, -2, -b[i]))
        if op == "astz" and (b[12] == 0 or b[8] == 0):     # would ask for the local place
            continue
        out.append((op, tuple(b), s))
    for _ in range(k if s else 0):
        r = list(s)
        i = rng.randrange(len(r))
        x = r[i]
        c = rng.random()
        r[i] = x.swapcase() if c < .4 else x.lower() if c < .5 else x + " " if c < .6 else x[:-1] if c < .8 else x.replace("%", "%%", 1)
        out.append((op, a, tuple(r)))
    return out


def families(rng, tier, shard, pids, per):
    fam = []
    for pid in pids:
        seen = {}
        for j, q in enumerate(gens.G[pid](random.Random("%s/%s/%d/h" % (pid, vh.SEED, shard)), "quick", shard, 8)):
            l, c = seen.setdefault(q[0], ([], [0]))
            c[0] += 1
            if len(l) < per:
                l.append(q)
            else:
                k = rng.randrange(c[0])
                if k < per:
                    l[k] = q
        for l, c in seen.values():
            for op, a, s in l:
                if op in ("ts", "fromts"):      # these set the place themselves
                    continue
                q = (op, tuple(int(x) for x in a), tuple(s))
                fam.append([q] + neighbours(rng, q, 2))
    return fam


# ------------------------------------------------------------- real calls
def fresh(job, timeout=120):
    """Run job() in a forked process - nothing it does is seen here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(timeout)
            out = job()
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def answer(q):
    op, a, s = q
    r = vh.call(ops.OPS[op], list(a), list(s))
    return [r["ok"], r["ex"], r["r"], r["t"]]


COST = {}


def alone(i, q, places):
    """What q answers first thing in a fresh process, at every place."""
    op, a, s = q
    if op not in LOCAL:
        t = _real()
        r = [fresh(lambda: answer(q)) or [2, "died", [], []]]
        COST[i] = _real() - t
        return r

    def explicit():
        out = []
        for p in places:
            r = vh.call(lambda a, s: LOCAL[op](a, s, p), list(a), list(s))
            out.append([r["ok"], r["ex"], r["r"], r["t"]])
        return out
    # the conversions with explicit places, each in a process of its own
    out = []
    for p in places:
        def one(p=p):
            r = vh.call(lambda a, s: LOCAL[op](a, s, p), list(a), list(s))
            return [r["ok"], r["ex"], r["r"], r["t"]]
        out.append(fresh(one) or [2, "died", [], []])
    return out


def setplace(req):
    import badidatetime
    NETWORK[0] = 0
    args, kw = req
    try:
        badidatetime.set_local_coordinates(*args, **kw)
    except Exception:
        return 0
    return 1


def history(fam, loc, reqs, rng, length):
    """One long history in one process: related queries close together and
    again later, local queries, settings of the place."""
    ev = [("fresh", 0, 0, None)]
    todo = []
    used = []
    while len(ev) < length:
        x = rng.random()
        if x < .08:
            j = rng.randrange(len(reqs))
            ok = setplace(reqs[j][0])
            ev.append(("set", j + 1, NETWORK[0] if reqs[j][0][0] or "lat" in reqs[j][0][1] else 0, ok))
            todo += rng.sample(loc, min(len(loc), 3))
        elif x < .16:
            todo.append(rng.choice(loc))
        elif x < .30 and used:
            todo.append(rng.choice(used))
        else:
            f = rng.choice(fam)
            k = rng.sample(f, min(len(f), rng.randint(1, 4)))
            if rng.random() < .5:
                k.append(k[0])
            todo += k
        for i in todo:
            ev.append(("call", i, 0, answer(QS[i])))
            if rng.random() < .3:
                used.append(i)
        todo = []
    return ev


QS = []


def number(fams):
    """Give every query its number in the table."""
    idx = {}
    out = []
    for f in fams:
        g = []
        for q in f:
            if q not in idx:
                idx[q] = len(QS)
                QS.append(q)
            g.append(idx[q])
        out.append(g)
    return out


# ----------------------------------------------------------- interleavings
def where(code, loc):
    return code.co_filename, code.co_name, code.co_firstlineno, loc


MOST = 40000
CODES = {}
MON = getattr(sys, "monitoring", None)


def codes():
    """Every code object of the package, by name."""
    import gc

    def walk(c):
        if CODES.setdefault((c.co_filename, c.co_name, c.co_firstlineno), c) is c:
            for k in c.co_consts:
                if isinstance(k, type(c)):
                    walk(k)
    for o in gc.get_objects():
        c = getattr(o, "__code__", None) if callable(o) else None
        if c is not None and getattr(c, "co_filename", "").startswith(PKG):
            walk(c)


def points(q, opcodes):
    """The places in the code that call q passes through, with the number of
    times it does, and whether they are in code that stores into objects."""
    pts = {}
    left = [MOST]
    E = MON.events.INSTRUCTION if opcodes else MON.events.LINE

    def seen(code, loc):
        left[0] -= 1
        if left[0] < 0:
            return MON.DISABLE
        pts[code, loc] = pts.get((code, loc), 0) + 1
    MON.use_tool_id(3, "points")
    MON.register_callback(3, E, seen)
    for c in CODES.values():
        MON.set_local_events(3, c, E)
    answer(q)
    for c in CODES.values():
        MON.set_local_events(3, c, 0)
    near = {}
    for c, _ in pts:
        if c not in near:
            near[c] = c.co_name not in ("__init__", "__new__") and any(
                ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_SUBSCR")
                or ins.opname == "LOAD_GLOBAL" and "cache" in str(ins.argval).lower() for ins in dis.get_instructions(c))
    return [(where(c, l), k, near[c]) for (c, l), k in pts.items()]


def both(qa, qb, pa, pb, opcodes, order, before=()):
    """After some calls, call qa in one thread and stop it at pa - a place in the code and how
    often it was passed before -, run qb in another (up to pb, if given), then
    finish them in the given order.  Returns the events as they happened."""
    ev = [("call", q, 0, answer(QS[q])) for q in before]
    lock = threading.Lock()
    paused = [threading.Event(), threading.Event()]
    go = [threading.Event(), threading.Event()]
    done = [threading.Event(), threading.Event()]
    ready, start = [threading.Event(), threading.Event()], [threading.Event(), threading.Event()]
    E = MON.events.INSTRUCTION if opcodes else MON.events.LINE
    stops, count, who = {}, [0, 0], {}
    for i, p in enumerate((pa, pb)):
        if p:
            stops[i] = (CODES[p[0][:3]], p[0][3], p[1])

    def seen(code, loc):
        i = who.get(threading.get_ident())
        if i in stops and stops[i][0] is code and stops[i][1] == loc:
            if count[i] == stops[i][2]:
                paused[i].set()
                go[i].wait(30)
            count[i] += 1
    MON.use_tool_id(3, "points")
    MON.register_callback(3, E, seen)
    for c, _, _ in stops.values():
        MON.set_local_events(3, c, E)

    def runner(i, q):
        def run():
            who[threading.get_ident()] = i
            ready[i].set()
            start[i].wait(30)
            with lock:
                ev.append(("inv", i + 1, q, None))
            r = answer(QS[q])
            with lock:
                ev.append(("ret", i + 1, q, r))
            done[i].set()
            paused[i].set()
        return threading.Thread(target=run, daemon=True)
    A, B = runner(0, qa), runner(1, qb)
    for i, x in enumerate((A, B)):
        x.start()
        ready[i].wait(30)
    start[0].set()
    paused[0].wait(30)
    start[1].set()
    paused[1].wait(.3)     # B may wait for a lock that A holds
    first = order if pb else 0
    go[first].set()
    done[first].wait(.05)
    go[1 - first].set()
    for i in (0, 1):
        done[i].wait(60)
    with lock:
        return list(ev)


def storm(qs, rng, threads=4, length=12):
    """Threads left to the interpreter's own scheduling, switching often."""
    ev = []
    lock = threading.Lock()
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(threads)
    lists = [[rng.choice(qs) for _ in range(length)] for _ in range(threads)]

    def run(i):
        gate.wait()
        for q in lists[i]:
            with lock:
                ev.append(("inv", i + 1, q, None))
            r = answer(QS[q])
            with lock:
                ev.append(("ret", i + 1, q, r))
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    with lock:
        return list(ev)


def schedules(fam, rng, tier, deadline, emit):
    """Pairs of calls that share code and state; the first is stopped at every
    place in the code at least once over the whole run, as time allows."""
    covered = {}
    stats = dict(schedules=0, pairs=0)
    byop = {}
    for f in fam:
        byop.setdefault(QS[f[0]][0], []).append(f)
    names = sorted(set(byop) - {"obj"})
    shared = [n for n in names if "bc." in inspect.getsource(ops.OPS[n])]       # one calendar object for both threads
    objs = byop.pop("obj")
    parses, formats = [], set()
    for f in byop["strp"]:
        g = next((x for x in QS[f[0]][2] if "%" in x), "")
        if g not in formats:
            formats.add(g)
            parses.append(f[0])
    rng.shuffle(names)
    turn = 0
    while _real() < deadline:
        x = rng.random()
        if x < .25:
            f = rng.choice(objs)
        elif x < .45:
            f = rng.choice(byop["strp"])
        elif x < .65:
            f = rng.choice(byop[rng.choice(shared)])
        else:
            f = rng.choice(byop[names[turn % len(names)]])
            turn += 1
        if not .45 <= x < .65 and rng.random() > .012 / (.006 + COST.get(f[0], 0)):      # fewer of the slow calls
            continue
        if x < .25 and rng.random() < .4:
            f = f[:1]
        y = rng.random()
        qa = rng.choice(f)
        qb = qa if y < .3 else rng.choice(f) if y < .75 else rng.choice(rng.choice(fam))
        if .45 <= x < .65 and y >= .3:
            qb = rng.choice(rng.choice(byop[rng.choice(shared)]))
        opc = rng.random() < .5
        warm = rng.choice((0, 0, 0, 1, 2)) if QS[qa][0] not in ("strp", "strpback") else rng.choice((0, 2, 2, 2))
        if warm == 2 and rng.random() < .5:
            qb = rng.choice(parses)
        pts = fresh(lambda: points(QS[qa], opc))
        if not pts:
            continue
        ptb = fresh(lambda: points(QS[qb], opc)) if rng.random() < .3 else None
        stats["pairs"] += 1
        rng.shuffle(pts)
        # first the code that stores into objects, and there what was tried least
        pts.sort(key=lambda p: (not p[2], covered.get((opc, p[0]), 0)))
        m = (16 if tier == "quick" else 40) if pts[0][2] else 3
        for p, k, near in pts[:m] + rng.sample(pts, min(len(pts), 3)):
            covered[opc, p] = covered.get((opc, p), 0) + 1
            pa = (p, rng.choice((0, rng.randrange(k))))
            pb = None
            if ptb and rng.random() < .5:
                b = rng.choice([x for x in ptb if x[2]] or ptb) if rng.random() < .5 else rng.choice(ptb)
                pb = (b[0], rng.randrange(b[1]))
            order = rng.randint(0, 1)
            before = []
            if warm == 1:
                before = rng.sample(f, 1)
            elif warm == 2:
                k = rng.choice((4, 5, 5, 5, 5, 6, 7))        # so many formats that the next one empties the table
                before = rng.sample(parses, min(k, len(parses)))
            ev = fresh(lambda: both(qa, qb, pa, pb, opc, order, before)) or [("inv", 1, qa, None), ("ret", 1, qa, [2, "died", [], []])]
            emit([("fresh", 0, 0, None)] + ev, "%s:%s" % (p[1], p[3]))
            stats["schedules"] += 1
            if _real() > deadline:
                break
        if rng.random() < .3:
            qs = rng.sample(f, min(len(f), 3)) + rng.sample(rng.choice(fam), 1)
            ev = fresh(lambda: storm(qs, rng)) or []
            emit([("fresh", 0, 0, None)] + ev, "free")
            stats["free_runs"] = stats.get("free_runs", 0) + 1
    stats["points"] = len(covered)
    return stats


def main():
    _, pid, tier, shard, out = sys.argv
    shard = int(shard)
    zone, off = ZONES[shard % len(ZONES)]
    load(zone)
    rng = random.Random("%s/%s/%d" % (pid, vh.SEED, shard))
    reqs = requests(off)
    places = [p for _, p in reqs]
    real = [p for p in places if p]
    pids = [p for p in sorted(gens.G)]
    quick = tier == "quick"
    if pid == "C23":
        fam = fresh(lambda: families(rng, tier, shard, pids, 2 if quick else 6))
        fam += [objqueries(rng) for _ in range(20 if quick else 100)]
        loc = localqueries(rng)
        fams = number(fam)
        nloc = number([loc])[0]
    else:
        fam = fresh(lambda: families(rng, tier, shard, pids, 1 if quick else 5))
        fam += fresh(lambda: [[q] for q in gens.G["C17"](random.Random("%s/%d/p" % (vh.SEED, shard)), "quick", shard, 8) if q[0] == "strp"][5:300:20])
        fam += [objqueries(rng, j % 3) for j in range(18 if quick else 99)]
        fams = number(fam)
        nloc = []
    t0 = _real()
    with open(os.path.join(out, "table-%d.ndjson" % shard), "w") as f:
        for i, q in enumerate(QS):
            op, a, s = q
            w = alone(i, q, real)
            if op in LOCAL:          # requests refused keep the previous place: no column of their own
                it = iter(w)
                w = [next(it) if p else [2, "refused", [], []] for p in places]
            f.write(json.dumps(dict(op=op, a=[vh.I(x) for x in a], s=[vh.E(x) for x in s], local=int(op in LOCAL),
                                    want=[dict(ok=x[0], ex=x[1], r=x[2], t=x[3]) for x in w])) + "\n")
    t1 = _real()
    n = [0]
    with open(os.path.join(out, "places-%d.ndjson" % shard), "w") as f:
        for (req, p) in reqs:
            f.write(json.dumps(dict(asked=vh.E(repr(req)), found=int(p is not None))) + "\n")
    tf = open(os.path.join(out, "trace-%d.ndjson" % shard), "w")

    def emit(ev, why=""):
        for k, x, y, r in ev:
            e = dict(k=k, c=1, q=0, n=0, ok=0, ex="", r=[], t=[], at=why)
            if k == "set":
                e.update(q=x, n=y, ok=r)
            elif k in ("inv", "ret"):
                e.update(c=x, q=y + 1)
            elif k == "call":
                e.update(q=x + 1)
            if k in ("call", "ret"):
                e.update(ok=r[0], ex=r[1], r=r[2], t=r[3])
            tf.write(json.dumps(e) + "\n")
            n[0] += 1
    budget = ((16 if pid == "C23" else 40) if quick else 240)
    stats = {}
    if pid == "C23":
        cnt = 0
        end = _real() + budget
        while _real() < end:
            seed = rng.random()
            ev = fresh(lambda: history(fams, nloc, reqs, random.Random(seed), 120 if quick else 400))
            emit(ev or [("fresh", 0, 0, None), ("call", 0, 0, [2, "died", [], []])])
            cnt += 1
        stats = dict(histories=cnt)
    else:
        stats = schedules(fams, rng, tier, _real() + budget, emit)
    tf.close()
    stats.update(queries=len(QS), events=n[0], table_s=round(t1 - t0, 1))
    json.dump(stats, open(os.path.join(out, "stats-%d.json" % shard), "w"))


if __name__ == "__main__":
    main()
