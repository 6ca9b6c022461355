"""One simulation worker process.

  worker.py search  PROP SEED TIER START STEP COUNT DEADLINE_S OUT SCRATCH
  worker.py some    PROP SEED TIER INDEXFILE OUT SCRATCH
  worker.py shrink  IN OUT SCRATCH
  worker.py replay  FILE OUT SCRATCH
"""

import faulthandler
import gc
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import core, env, known as KF, props  # noqa: E402


def scenario(W, prop, seed, i, tier):
    r = core.rng_for(seed, prop, i)
    r.index = i
    return W.gen(prop, r, tier), core.derive(seed, prop, i, "s")


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def run_one(W, sc, seed, replay):
    """Run a scenario; an unexpected exception of the code under test is a violation."""
    try:
        return W.run(sc, seed, replay)
    except Exception as e:  # noqa: BLE001
        from sim.core import Result

        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if "/src/synthpix/" in f.filename or "/scripts/" in f.filename]
        if not in_repo:
            raise
        r = Result()
        f = in_repo[-1]
        r.viol.append({"kind": "unexpected-exception:" + type(e).__name__,
                       "msg": f"{type(e).__name__}: {e} at {os.path.basename(f.filename)} in {f.name}", "t": 0.0})
        r.stats = {"steps": 0, "switches": 0, "vtime": 0.0, "faults": {}, "timeouts": 0, "tasks": 0, "decisions": 0}
        return r


_beat = None


def beat(path, i):
    """Tell the parent which run is being executed, since when."""
    global _beat
    if _beat is None:
        _beat = os.open(path + ".beat", os.O_WRONLY | os.O_CREAT, 0o644)
    os.pwrite(_beat, b"%12d %20.6f" % (i, time.time()), 0)


def search(prop, seed, tier, start, step, count, deadline, out, scratch):
    env.setup(scratch)
    W = props.world(prop)
    if hasattr(W, "prepare"):
        W.prepare(prop)
    gc.disable()
    t0 = time.time()
    agg = {"runs": 0, "steps": 0, "switches": 0, "vtime": 0.0, "timeouts": 0, "decisions": 0,
           "faults": {}, "faulted_runs": 0, "max_steps": 0, "max_tasks": 0, "real": {}, "known": {}}
    digests = set()
    nontriv = set()
    covers = set()
    scs = set()
    viols = []
    samples = []
    perrun = {}
    for n in range(count):
        i = start + n * step
        beat(out, i)
        if time.time() - t0 > deadline:
            break
        sc, s = scenario(W, prop, seed, i, tier)
        res = run_one(W, sc, s, None)
        core.housekeeping()
        st = res.stats
        agg["runs"] += 1
        for k in ("steps", "switches", "vtime", "timeouts", "decisions"):
            agg[k] += st[k]
        agg["max_steps"] = max(agg["max_steps"], st["steps"])
        agg["max_tasks"] = max(agg["max_tasks"], st["tasks"])
        for k, v in st["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        if st["faults"]:
            agg["faulted_runs"] += 1
        digests.add(res.digest)
        covers |= set(map(str, res.cover))
        h = core.derive(json.dumps(sc, sort_keys=True))
        scs.add(h)
        nt = st["switches"] > 0 or st["faults"] or st.get("nontrivial")
        if nt:
            nontriv.add((h, res.digest))
        for k in st.get("real", ()):
            agg["real"][k] = agg["real"].get(k, 0) + 1
        if i % 97 == 0:
            perrun[i] = [res.digest, st.get("xdigest", "")]
        elif st.get("xdigest"):
            perrun[i] = ["", st["xdigest"]]
        if len(samples) < 2 and nt and n > 3 and not res.viol:
            samples.append(jsonable({"index": i, "scenario": sc, "history": res.hist[:12],
                                     "steps": st["steps"], "virtual_s": round(st["vtime"], 3),
                                     "nondefault_decisions": len(res.decisions)}))
        kf = [KF.match(prop, v["kind"], sc) for v in res.viol]
        if kf and all(kf):
            for k in kf[:1]:
                agg["known"][k["what"]] = agg["known"].get(k["what"], 0) + 1
        elif res.viol:
            v = res.viol[[bool(k) for k in kf].index(False)]
            viols.append(jsonable({"index": i, "scenario": sc, "seed": s, "decisions": res.decisions,
                                   "kind": v["kind"], "msg": v["msg"], "all": res.viol[:5],
                                   "digest": res.digest}))
            if len(viols) >= 3:
                break
    agg["wall_s"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump({"agg": agg, "digests": sorted(digests), "nontrivial": sorted(nontriv), "scenarios": len(scs),
                   "covers": sorted(covers), "violations": viols, "samples": samples, "perrun": perrun}, f)
    os.replace(out + ".tmp", out)


def some(prop, seed, tier, idxfile, out, scratch):
    """Execute the listed runs (in this process' own order) and report their digests."""
    with open(idxfile) as f:
        idx = json.load(f)
    env.setup(scratch)
    W = props.world(prop)
    if hasattr(W, "prepare"):
        W.prepare(prop)
    gc.disable()
    r = {}
    for i in reversed(idx):
        beat(out, i)
        sc, s = scenario(W, prop, seed, i, tier)
        res = run_one(W, sc, s, None)
        core.housekeeping()
        r[i] = {"digest": res.digest, "xdigest": res.stats.get("xdigest", ""), "scenario": jsonable(sc)}
    with open(out + ".tmp", "w") as f:
        json.dump(r, f)
    os.replace(out + ".tmp", out)


def shrink(inp, out, scratch):
    from sim.shrink import Shrinker

    with open(inp) as f:
        v = json.load(f)
    env.setup(scratch)
    W = props.world(v["property"])
    if hasattr(W, "prepare"):
        W.prepare(v["property"])
    gc.disable()
    sh = Shrinker(lambda sc, s, d: run_one(W, sc, s, d), v["scenario"],
                  {int(k): d for k, d in v["decisions"].items()}, v["kind"], v.get("budget_s", 60.0))
    best = sh.go()
    r = {"ok": best is not None, "tries": sh.tries}
    if best is not None:
        res = sh.res
        vv = [x for x in res.viol if x["kind"] == v["kind"]][0]
        r.update(jsonable({"scenario": best[0], "decisions": best[1], "digest": res.digest, "kind": vv["kind"],
                           "msg": vv["msg"], "history": res.hist[-60:], "trace": res.trace[-400:],
                           "faults": res.stats["faults"]}))
    with open(out + ".tmp", "w") as f:
        json.dump(r, f)
    os.replace(out + ".tmp", out)


def replay(path, out, scratch):
    with open(path) as f:
        v = json.load(f)
    env.setup(scratch)
    W = props.world(v["property"])
    if hasattr(W, "prepare"):
        W.prepare(v["property"])
    gc.disable()
    res = run_one(W, v["scenario"], v.get("seed") if v.get("decisions") is None else None,
                  None if v.get("decisions") is None else {int(k): d for k, d in v["decisions"].items()})
    with open(out + ".tmp", "w") as f:
        json.dump(jsonable({"viol": res.viol, "digest": res.digest, "history": res.hist, "trace": res.trace,
                            "xdigest": res.stats.get("xdigest", "")}), f)
    os.replace(out + ".tmp", out)


def main():
    faulthandler.enable()
    mode = sys.argv[1]
    scratch = sys.argv[-1]
    try:
        if mode == "search":
            prop, seed, tier, start, step, count, dl, out = sys.argv[2:10]
            search(prop, int(seed), tier, int(start), int(step), int(count), float(dl), out, scratch)
        elif mode == "some":
            prop, seed, tier, idxf, out = sys.argv[2:7]
            some(prop, int(seed), tier, idxf, out, scratch)
        elif mode == "shrink":
            shrink(sys.argv[2], sys.argv[3], scratch)
        elif mode == "replay":
            replay(sys.argv[2], sys.argv[3], scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
