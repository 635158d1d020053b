#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]: decide one property."""
import os, sys
sys.dont_write_bytecode = True
os.environ["TZ"] = "UTC"
os.environ["LC_ALL"] = "C.UTF-8"
os.environ["TEST_RUNNING"] = "true"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json, multiprocessing as mp, random, shutil, tempfile, time, traceback
import vh


def shard_run(args):
    pid, tier, shard, n, path = args
    import gens, ops
    rng = random.Random("%s/%s/%d" % (pid, vh.SEED, shard))
    cnt = 0
    kinds = {}
    nontriv = set()
    with open(path, "w") as f:
        for opn, a, s in gens.G[pid](rng, tier, shard, n):
            e = dict(op=opn, a=[int(x) for x in a], s=list(s))
            e.update(vh.call(ops.OPS[opn], e["a"], e["s"]))
            e["s"] = [vh.E(x) for x in e["s"]]
            f.write(json.dumps(e) + "\n")
            cnt += 1
            kinds[opn] = kinds.get(opn, 0) + 1
    return path, cnt, kinds


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else vh.TIER if vh.TIER in ("quick", "thorough") else "quick"
    if "--quick" in sys.argv:
        tier = "quick"
    import plans
    plan = plans.PLANS[pid]
    rep = vh.Report(pid, tier, plan.get("level", "model_checking"))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = plans.run(plan, rep, pid, tier, scratch, shard_run)
    except vh.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
