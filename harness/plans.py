"""What each check runs: models of the specification, and generated calls."""
import json, multiprocessing as mp, os, subprocess, sys, time
import vh

ALLDAYS = [("MC_Clock", "MC_Clock_T")]          # every day of every year
SOMEDAYS = [("MC_Clock", "MC_Clock_Q")]         # windows of twelve years
NEWYEARS = [("NewYears", "NewYears")]
GREG = [("GregClock", "GregClock_Q")]
GREG_T = [("GregClock", "GregClock_T")]
MOMENTS = [("Moments", "Moments")]
MOMENTS_T = [("Moments", "Moments_T")]
SUN = [("SunWalk", "SunWalk_Q"), ("SunWalk", "SunWalk_Y")]
SUN_T = [("SunWalk", "SunWalk_T")]
NOT_APPLICABLE = {}
PLANS = {
    "C01": dict(models=ALLDAYS),
    "C02": dict(models=NEWYEARS + SUN[1:]),
    "C03": dict(models=ALLDAYS),
    "C04": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C05": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C06": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C07": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C08": dict(models=SOMEDAYS + MOMENTS, models_thorough=ALLDAYS + MOMENTS_T),
    "C09": dict(models=MOMENTS, models_thorough=ALLDAYS + MOMENTS_T),
    "C10": dict(models=MOMENTS),
    "C11": dict(models=SUN[:1], models_thorough=SUN_T),
    "C12": dict(models=GREG, models_thorough=GREG_T + SUN_T),
    "C13": dict(models=GREG, models_thorough=GREG_T),
    "C14": dict(models=MOMENTS, models_thorough=MOMENTS_T),
    "C15": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C16": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C17": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C18": dict(models=SOMEDAYS),
    "C19": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C20": dict(models=SOMEDAYS),
    "C21": dict(models=MOMENTS),
    "C22": dict(models=SOMEDAYS, models_thorough=ALLDAYS),
    "C23": dict(models=[("Caches", "Caches_H")], models_thorough=[("Caches", "Caches_Q")], calls=False,
                technique="TLA+ specification model-checked with TLC; histories of real calls decided on the machine History.tla by TLC (trace validation)",
                note="The machine of History.tla decides every recorded answer; histories and schedules are a random, code-guided sample whose size is in the evidence; Caches.tla is checked exhaustively. Trusted: TLC, the answers alone (recorded in forked, fresh processes), the projection in harness."),
    "C24": dict(models=[("Caches", "Caches_Q")], models_thorough=[("Caches", "Caches_T"), ("Caches", "Caches_T3")], calls=False,
                mistakes=[("Caches", "Caches_M%d" % i) for i in (1, 2, 3)],
                technique="TLA+ specification of the caches model-checked with TLC over all interleavings; controlled schedules of real threads decided on the machine History.tla by TLC (trace validation)",
                note="The machine of History.tla decides every recorded answer; histories and schedules are a random, code-guided sample whose size is in the evidence; Caches.tla is checked exhaustively. Trusted: TLC, the answers alone (recorded in forked, fresh processes), the projection in harness."),
    "C25": dict(models=SUN, models_thorough=SUN_T),
    "C26": dict(models=SOMEDAYS),
    "C27": dict(models=SOMEDAYS),
    "C29": dict(models=[("SavingClock", "SavingClock")]),
    "C30": dict(models=SUN, models_thorough=SUN_T),
    "C31": dict(models=SUN, models_thorough=SUN_T),
    "C28": dict(models=SOMEDAYS + MOMENTS, models_thorough=ALLDAYS + MOMENTS_T, calls=False,
                technique="TLA+ specification; behaviours that TLC generates from the machine Workbench.tla (simulation) are replayed step by step with the real objects",
                note="Each step's object is compared with the machine's state and, in all that it shows, with an object made directly from that state. The behaviours are a random sample of the machine whose size is in the evidence. Trusted: TLC, the calendar operators it uses (checked exhaustively in MC_Clock and against the code in the other properties), the replay driver."),
}


def histories(rep, pid, tier, scratch):
    """Long histories or schedules of real calls, in processes of their own,
    decided on the machine of History.tla."""
    here = os.path.dirname(os.path.abspath(__file__))
    n = vh.NPROC
    t0 = time.time()
    ps = [subprocess.Popen([sys.executable, os.path.join(here, "hist.py"), pid, tier, str(i), scratch],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch) for i in range(n)]
    for p in ps:
        out, _ = p.communicate(timeout=800)
        if p.returncode:
            raise vh.MachineryError("histories: %s" % out[-1500:])
    t1 = time.time()
    name = lambda k, i: os.path.join(scratch, "%s-%d.%s" % (k, i, "json" if k == "stats" else "ndjson"))
    stats = {}
    for i in range(n):
        for k, v in json.load(open(name("stats", i))).items():
            stats[k] = round(stats.get(k, 0) + v, 1)
        with open(name("trace", i), "a") as f:
            f.write('{"k":"fresh","c":1,"q":0,"n":0,"ok":0,"ex":"","r":[],"t":[],"at":""}\n' * 2)
    files = [name("trace", i) for i in range(n)]
    env = {f: dict(TABLE=name("table", i), PLACES=name("places", i)) for i, f in enumerate(files)}
    fails, states = vh.validate(files, scratch, "ConfHist", "ConfHist", env=env)
    rep.coverage.update(histories=stats, events_decided=states, traces_validated_against_impl=states,
                        seconds=dict(calls=round(t1 - t0, 1), tlc=round(time.time() - t1, 1)))
    rep.coverage["states"] += states
    rep.coverage["transitions"] += states
    cache = {}
    for f, i, clauses, _ in fails:
        if f not in cache:
            k = files.index(f)
            cache[f] = ([json.loads(l) for l in open(f)], [json.loads(l) for l in open(name("table", k))],
                        [json.loads(l) for l in open(name("places", k))])
        tr, tab, places = cache[f]
        say = lambda e: ("%s(%s%s)" % (tab[e["q"] - 1]["op"], tab[e["q"] - 1]["a"], tab[e["q"] - 1]["s"] or "")
                         if e["k"] in ("call", "inv", "ret") else "set %s" % places[e["q"] - 1]["asked"] if e["k"] == "set" else e["k"])
        e = tr[i]
        j = i - 1
        while j > 0 and tr[j]["k"] != "fresh":
            j -= 1
        rep.violation("%s: %s%s -> %s, alone %s" % (
            ", ".join(clauses), say(e), " preempted at " + e["at"] if e["at"] else "", (e["r"], e["t"]) if e["ok"] else e["ex"],
            tab[e["q"] - 1]["want"] if e["k"] in ("call", "ret") else ""),
            dict(clauses=clauses, history=[say(x) for x in tr[j:i + 1]], event=e, query=tab[e["q"] - 1] if e["k"] in ("call", "ret") else None))
    rep.coverage["samples"] = [[x["k"], x["c"], say_q] for x, say_q in ((y, tab0) for y, tab0 in samples(files, name))]


def workbench(rep, pid, tier, scratch):
    """Behaviours of Workbench.tla made with the real objects."""
    here = os.path.dirname(os.path.abspath(__file__))
    n, t0 = vh.NPROC, time.time()
    num = 400 if tier == "quick" else 4000
    ps = [subprocess.Popen([sys.executable, os.path.join(here, "bench.py"), str(i), scratch, str(vh.SEED * 1000 + i), str(num)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch) for i in range(n)]
    tot, acts = dict(behaviours=0, steps=0), {}
    for i, p in enumerate(ps):
        out, _ = p.communicate(timeout=850)
        if p.returncode:
            raise vh.MachineryError("workbench: %s" % out[-1500:])
        d = json.load(open(os.path.join(scratch, "bench-%d.json" % i)))
        for k in tot:
            tot[k] += d[k]
        for k, v in d["acts"].items():
            acts[k] = acts.get(k, 0) + v
        for f in d["fails"]:
            rep.violation(f["what"], f)
        sample = d["sample"]
    rep.coverage.update(behaviours_replayed=tot["behaviours"], steps_replayed=tot["steps"], steps_by_action=acts,
                        traces_validated_against_impl=tot["behaviours"], samples=[sample], seconds=dict(replay=round(time.time() - t0, 1)))
    rep.coverage["states"] += tot["steps"]
    rep.coverage["transitions"] += tot["steps"]


EXTRA = {"C23": [histories], "C24": [histories], "C28": [workbench]}


def samples(files, name):
    tab = [json.loads(l) for l in open(name("table", 0))]
    with open(files[0]) as f:
        for j, l in zip(range(12), f):
            e = json.loads(l)
            yield e, (dict(op=tab[e["q"] - 1]["op"], a=tab[e["q"] - 1]["a"], s=tab[e["q"] - 1]["s"]) if e["k"] in ("call", "inv", "ret") else e["q"])


def run(plan, rep, pid, tier, scratch, shard_run):
    models = []
    for m in plan.get("models", []) + (plan.get("models_thorough", []) if tier == "thorough" else []):
        models.append(vh.model_check(*m, scratch))
    refuted = [vh.model_refutes(*m, scratch) for m in plan.get("mistakes", [])]
    if refuted:
        rep.coverage["mistakes_refuted"] = refuted
    t1 = time.time()
    events, kinds, files = 0, {}, []
    if plan.get("calls", True):
        n = vh.NPROC
        import ops, gens          # noqa - import once, before forking
        args = [(pid, tier, i, n, os.path.join(scratch, "trace-%d.ndjson" % i)) for i in range(n)]
        with mp.get_context("fork").Pool(n) as pool:
            for path, cnt, ks in pool.imap_unordered(shard_run, args):
                files.append(path)
                events += cnt
                for k, v in ks.items():
                    kinds[k] = kinds.get(k, 0) + v
        t2 = time.time()
        fails, states = vh.validate(sorted(files), scratch)
        t3 = time.time()
        cache = {}
        for f, i, clauses, devs in fails:
            if f not in cache:
                cache[f] = open(f).read().splitlines()
            e = json.loads(cache[f][i])
            if clauses:
                rep.violation("%s: %s(%s%s) -> %s" % (", ".join(clauses), e["op"], e["a"], e["s"] or "",
                              (e["r"], e["t"]) if e["ok"] else e["ex"]), dict(event=e, clauses=clauses))
            for d in devs:
                rep.deviations.setdefault(d, e)
        lines = open(sorted(files)[0]).read().splitlines()
        samples = [json.loads(lines[j]) for j in sorted({0, len(lines) // 2, len(lines) - 1})] if lines else []
        rep.coverage.update(events_by_operation=kinds, events_decided=states, samples=samples,
                            traces_validated_against_impl=events,
                            seconds=dict(models=round(t1 - rep.t0, 1), calls=round(t2 - t1, 1), tlc=round(t3 - t2, 1)))
    rep.coverage.update(models=models, states=sum(m["states"] for m in models) + rep.coverage.get("events_decided", 0),
                        transitions=sum(m["transitions"] for m in models) + events)
    for extra in EXTRA.get(pid, []):
        extra(rep, pid, tier, scratch)
    return rep.finish()
