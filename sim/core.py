"""Running one simulated scenario, and the shape of its result."""

import gc
import random

from . import env, kernel as K, simmods


class Result:
    __slots__ = ("hist", "viol", "digest", "stats", "decisions", "trace", "cover")

    def __init__(self):
        self.hist = []
        self.viol = []
        self.digest = ""
        self.stats = {}
        self.decisions = {}
        self.trace = []
        self.cover = set()


SCHED_DEFAULT = {"p_switch": 0.1, "p_stall": 0.0, "lat": "zero", "io_seed": 0, "jumps": [],
                 "faults": {}, "shuffle": False}


def gen_sched(rng, stalls=True, lats=("zero", "fast", "mixed", "slow"), jumps=False, p=None):
    sc = {
        "p_switch": rng.choice(p or [0.0, 0.03, 0.1, 0.3, 0.6]),
        "p_stall": rng.choice([0.0, 0.0, 0.01, 0.03]) if stalls else 0.0,
        "lat": rng.choice(lats),
        "io_seed": rng.randrange(1 << 30),
        "jumps": [],
        "faults": {},
        "shuffle": rng.random() < 0.3,
    }
    if jumps and rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            sc["jumps"].append([round(rng.uniform(0, 30), 2), rng.choice([-3600.0, -5.0, 5.0, 3600.0])])
    return sc


class Ctx:
    """What a world's body gets: kernel, history, violation list, helpers."""

    def __init__(self, k, res, sc):
        self.k = k
        self.io = k.io
        self.res = res
        self.sc = sc

    def log(self, *a):
        self.res.hist.append(list(a))

    def bad(self, kind, msg):
        self.res.viol.append({"kind": kind, "msg": msg, "t": round(self.k.seconds(), 6)})

    def now(self):
        return self.k.seconds()

    def pause(self, s):
        self.k.sleep(s, "consumer_pause")

    def quiet(self):
        """Faults stop: no more latency, stalls or preemption surprises."""
        self.io.quiet = True
        self.k.dec.p_stall = 0.0
        self.k.dec.stall_budget = 0

    def spawn(self, fn, name):
        return env.mods["threading"].Thread(target=fn, name=name, daemon=True)


def simulate(sc, body, seed=None, replay=None, step_limit=None):
    simmods.fresh_run()
    random.seed(12345)  # the process-wide generators must not matter, but must replay
    env.np.random.seed(12345)
    dec = K.Decisions(seed=seed, replay=replay, p_switch=sc.get("p_switch", 0.1),
                      p_stall=sc.get("p_stall", 0.0), stalls=sc.get("stalls", (0.001, 0.05, 0.5, 3.0)))
    io = env.IO(sc.get("io_seed", 0), sc.get("lat", "zero"), sc.get("faults"), sc.get("shuffle", False))
    k = K.Kernel(dec, step_limit=step_limit or sc.get("step_limit", 60_000), wall_jumps=sc.get("jumps", ()), io=io)
    res = Result()
    cx = Ctx(k, res, sc)
    with k:
        try:
            body(cx)
        except K.SimAbort as e:
            res.hist.append(["abort", e.kind, e.detail])
            res.viol.append({"kind": "hang:" + e.kind, "msg": f"simulation cannot make progress: {e}",
                             "t": round(k.seconds(), 6)})
        except MALFORMED as e:  # what was served cannot even be looked at (wrong shape, type, ...)
            if not res.viol:
                res.viol.append(malformed(e, k.seconds()))
    res.digest = k.hash.hexdigest()
    res.decisions = dict(dec.log)
    res.trace = k.trace
    f = dict(io.fired)
    if k.stalls:
        f["thread_stall"] = k.stalls
    if sc.get("jumps"):
        n = sum(1 for t, _ in k.wall_jumps if t <= k.now)
        if n:
            f["clock_jump"] = n
    extra = res.stats
    res.stats = {"steps": k.steps, "switches": k.switches, "vtime": k.seconds(), "faults": f,
                 "timeouts": k.timeouts, "tasks": k.max_tasks, "decisions": dec.idx, **extra}
    return res


MALFORMED = (ArithmeticError, AssertionError, AttributeError, LookupError, RuntimeError, TypeError, ValueError)


def malformed(e, t):
    import traceback

    where = [f for f in traceback.extract_tb(e.__traceback__)][-1]
    return {"kind": "malformed", "t": round(t, 6),
            "msg": f"what the code gave cannot be judged: {type(e).__name__}: {e} (at {where.name}:{where.lineno})"[:400]}


_n = 0


def housekeeping():
    global _n
    _n += 1
    if _n % 40 == 0:
        gc.collect()


def derive(*parts):
    import hashlib

    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def rng_for(*parts):
    return random.Random(derive(*parts))
