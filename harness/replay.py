#!/opt/venv/bin/python
"""replay.py FILE: make what a replay file holds once more and judge it again.

Events are called again and decided by TLC; behaviours of the workbench are
made again step by step; of a history the last call is made alone, in a fresh
process, next to what it gave in the history (the histories themselves depend
on other threads: run the check again to see them)."""
import os, sys
sys.dont_write_bytecode = True
os.environ["TZ"] = "UTC"
os.environ["LC_ALL"] = "C.UTF-8"
os.environ["TEST_RUNNING"] = "true"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json, re, shutil, tempfile
import vh


def plain(t):
    return re.sub(r"\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), t)


def main():
    rec = json.load(open(sys.argv[1]))
    data = rec["data"]
    print(rec["what"])
    if "behaviour" in data:
        import bench
        num = {v: k for k, v in bench.NAMES.items()}
        beh = [[num[s[0]]] + s[1:] for s in data["behaviour"]]
        for s in data["behaviour"]:
            print("  ", *s)
        k, bad = bench.play(beh)
        print("now:", "step %d %s" % (k, bad) if bad else "as the machine says")
        return 1 if bad else 0
    import ops
    e = data if "op" in data else data.get("event", {})
    if "op" in e:
        s = [plain(x) for x in e["s"]]
        now = dict(op=e["op"], a=e["a"])
        now.update(vh.call(ops.OPS[e["op"]], e["a"], s))
        now["s"] = e["s"]
        print("recorded:", json.dumps({k: e[k] for k in ("ok", "ex", "r", "t")}))
        print("now:     ", json.dumps({k: now[k] for k in ("ok", "ex", "r", "t")}))
        d = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            f = os.path.join(d, "t.ndjson")
            open(f, "w").write(json.dumps(now) + "\n")
            fails, _ = vh.validate([f], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for _, _, clauses, devs in fails:
            print("verdict: violated %s, deviations %s" % (clauses, devs))
        if not fails:
            print("verdict: as specified")
        return 1 if any(c for _, _, c, _ in fails) else 0
    for h in data.get("history", []):
        print("  ", h)
    q = data.get("query")
    if q:
        print("alone:", json.dumps(vh.call(ops.OPS[q["op"]], q["a"], [plain(x) for x in q["s"]])))
    return 0


if __name__ == "__main__":
    sys.exit(main())
