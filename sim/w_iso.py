"""C23: pipelines, delivered batches and observers do not disturb each other.

Several pipelines in one process, driven alone first (the reference), then together:
from one thread in turns, or from a thread each.  Every pipeline has to serve what it
served alone; batches already handed out have to stay as they were, and what the
consumer writes into them must not come back.
"""

import copy
import json

from . import env, kernel as K, w_sampler as W
from .core import gen_sched, simulate
from .w_prefetch import DATA, EDATA

prepare = W.prepare


# ---------------------------------------------------------------------------
# scenario
# ---------------------------------------------------------------------------

def gen(prop, r, tier):
    sc = gen_sched(r, stalls=False, lats=("zero", "fast", "mixed"))
    sc["prop"] = prop
    sc["stalls"] = [0.001, 0.05]
    sc["p_stall"] = r.choice([0.0, 0.0, 0.01])
    sc["mode"] = r.choice(["turns", "threads", "threads"])
    sc["make"] = r.random() < 0.2
    if sc["make"]:
        sc["lat"] = r.choice(["zero", "fast"])
    n = r.choice([1, 2, 2, 3])
    shared = r.random() < 0.6
    epi = r.random() < 0.3
    sc["pipes"] = [gen_make(r, sc) if sc["make"] else gen_pipe(r, epi if shared else r.random() < 0.3)
                   for _ in range(n)]
    if shared:
        for p in sc["pipes"][1:]:
            a = sc["pipes"][0]
            if sc["make"] and (p["real"], p["T"]) != (a["real"], a["T"]):
                continue
            p["data"] = a["data"]
            m = sum(e[1] for e in p["data"]["dirs"])
            p["list"] = [i % m for i in p["list"]] if p["list"] else None
            p["images"] = p.get("images", False) and p["data"]["kind"] == "mat"
    sc["samecfg"] = sc["make"] and r.random() < 0.5
    if sc["samecfg"]:
        for p in sc["pipes"][1:]:
            p.update({k: copy.deepcopy(v) for k, v in sc["pipes"][0].items() if k != "ops"})
    sc["turns"] = [r.randrange(n) for _ in range(60)]
    sc["watch"] = r.random() < 0.4  # another thread keeps observing
    return sc


def gen_pipe(r, epi):
    p = {"B": r.choice([1, 1, 2, 3]), "T": 0, "buffer": r.choice([0, 0, 1, 2, 4]), "key": r.randrange(6),
         "ekey": r.randrange(6), "loop": r.random() < 0.5, "randomize": r.random() < 0.4,
         "list": None, "images": False, "scribble": r.random() < 0.5, "dirs": False}
    if epi:
        p["data"], p["T"] = r.choice(EDATA), r.randint(1, 3)
        p["randomize"] = r.random() < 0.2
        p["images"] = r.random() < 0.3
    else:
        p["data"] = r.choice(DATA)
        n = sum(d[1] for d in p["data"]["dirs"])
        if r.random() < 0.4:
            p["list"] = [r.randrange(n) for _ in range(r.randint(1, n + 2))]
        p["images"] = p["data"]["kind"] == "mat" and r.random() < 0.5
        p["dirs"] = p["list"] is None and r.random() < 0.3
    p["ops"] = gen_ops(r, p["T"])
    return p


def gen_ops(r, T):
    ops = []
    for _ in range(r.randint(3, 14) if r.random() < 0.97 else r.randint(40, 120)):
        x = r.random()
        if x < 0.62:
            ops.append(["get"])
        elif x < 0.78:
            ops.append(["look", r.choice(["shape", "len", "files", "steps", "running"])])
        elif x < 0.84:
            ops.append(["pause", r.choice([0.1, 2.5])])
        elif x < 0.92:
            ops.append(["reset"])
        elif T:
            ops.append(["episode"])
    if r.random() < 0.2:
        ops.append(["shutdown"])
    elif r.random() < 0.2:
        ops.append(["drop"])
    return ops


def gen_make(r, sc):
    p = {}
    W.gen_make(r, p)
    p.pop("lat", None)
    if not p["real"]:
        p["combo"] = list(W.COMBOS[(5 * getattr(r, "index", 0) + 1) % 8])
    p["ops"] = gen_ops(r, p["T"])
    p["scribble"] = False
    p["list"] = p.get("list")
    return p


def run(sc, seed=None, replay=None):
    return simulate(sc, lambda cx: body(cx, sc), seed, replay, 300_000)


# ---------------------------------------------------------------------------
# pipelines
# ---------------------------------------------------------------------------

class Pipe:
    """One pipeline, and what its consumer got and kept."""

    def __init__(self, cx, sc, p, cfg=None, observe=True):
        self.cx, self.p, self.observe = cx, p, observe
        self.out = []
        self.kept = []   # (batch, digest after the consumer was done with it)
        self.wrong = []
        self.t = 0
        self.shut, self.alive = False, False
        if sc["make"]:
            self.d = env.dataset(W.make_data(p))
            c, key = cfg if cfg is not None else W.mk_config(p, self.d)
            self.given = c
            W._jit.update(key=key, n=0)
            try:
                from synthpix.make import make

                self.s = make(W.yaml_file(c) if p["yaml"] else c)
            finally:
                W._jit["key"] = None
            self.sched = self.s.scheduler
            self.B = None
        else:
            self.d = env.dataset(p["data"])
            self.given = W.paths(self.d, {"dirlist": p["dirs"], "list": p["list"]}) if cfg is None else cfg
            self.s = self.sched = mk(p, self.d, self.given)
            self.B = p["B"]

    def do(self, op):
        from synthpix.scheduler.protocol import EpisodeEnd

        k = op[0]
        if k == "pause":
            if self.observe:
                self.cx.pause(op[1])
            return
        if k == "look":
            if self.observe:
                self.look(op[1])
            return
        if self.s is None:
            return
        if k == "drop":  # the user lets go of it
            if self.observe:
                self.s = self.sched = None
            return
        self.alive = None
        self.shut = k == "shutdown" or self.shut and k != "reset"
        try:
            if k == "get":
                b = self.s.get_batch(self.B) if self.B else next(self.s)
                r = ["b", env.digest(b)]
                self.t += 1
                if self.observe:
                    self.keep(b)
            elif k == "reset":
                self.s.reset()
                self.t = 0
                r = ["reset"]
            elif k == "episode":
                self.s.next_episode()
                self.t = 0
                r = ["episode"]
            elif k == "shutdown":
                if hasattr(self.s, "shutdown"):
                    self.s.shutdown()
                r = ["shutdown"]
        except StopIteration:
            r = ["stop"]
        except EpisodeEnd:
            r = ["ee"]
        except Exception as e:
            r = ["exc", type(e).__name__, str(e)[:160]]
        if not self.shut and (k == "reset" or r[0] == "b" and self.p["loop"] and not self.p["T"]):
            self.alive = k != "reset"  # as far as it is certain
        self.out.append(r)

    def keep(self, b):
        if self.p["scribble"]:
            for n in ("flow_fields", "images1", "images2", "mask"):
                a = getattr(b, n, None)
                if isinstance(a, env.np.ndarray) and a.flags.writeable:
                    a[...] = a.max() + 1 if a.dtype != bool and a.size else 0
                    self.cx.res.cover.add("scribbled")
        self.kept.append((b, env.digest(b)))

    def look(self, what, mine=True):
        """Observe; what is told has to be true as far as it is known."""
        s = self.sched
        if s is None:
            return
        self.cx.res.cover.add("look-" + what)
        try:
            if what == "shape":
                v = tuple(s.get_flow_fields_shape())
                want = tuple(self.d.shape) if getattr(self.d, "shape", None) else None
                if len(v) != 3 or (want and v[:2] != want[:2]):
                    self.wrong.append(f"get_flow_fields_shape() is {v}")
            elif what == "len":
                if hasattr(s, "__len__") and (len(s) <= 0 or not self.p["T"] and len(s) != len(s.file_list)):
                    self.wrong.append(f"len() is {len(s)} for {len(s.file_list)} files")
            elif what == "files":
                v = s.file_list
                if not v or not all(f in self.d.files for f in v):
                    self.wrong.append(f"file_list is {v}")
            elif what == "steps":
                T = self.p["T"]
                if T and not any(o[0] == "exc" for o in self.out):
                    if s.steps_remaining() != T - self.t or s.episode_length != T:
                        self.wrong.append(f"steps_remaining() is {s.steps_remaining()} after {self.t} of {T} steps")
            elif what == "running":
                if hasattr(s, "is_running"):
                    v = s.is_running()
                    if mine and self.alive is not None and v is not self.alive:
                        self.wrong.append(f"is_running() is {v}, but the background thread is "
                                          + ("running" if self.alive else "not started"))
        except K.SimAbort:
            raise
        except Exception as e:
            self.wrong.append(f"observing {what} raised {type(e).__name__}: {e}")


def mk(p, d, files):
    import jax
    from synthpix.scheduler import (EpisodicFlowFieldScheduler, HDF5FlowFieldScheduler, MATFlowFieldScheduler,
                                    NumpyFlowFieldScheduler, PrefetchingFlowFieldScheduler)

    kw = dict(randomize=p["randomize"], loop=p["loop"], key=jax.random.PRNGKey(p["key"]))
    if d.kind == "mat":
        kw["output_shape"] = (env.H, env.W)
    if p["images"]:
        kw["include_images"] = True
    cls = {"npy": NumpyFlowFieldScheduler, "h5": HDF5FlowFieldScheduler, "mat": MATFlowFieldScheduler}[d.kind]
    s = cls(files, **kw)
    if p["T"]:
        s = EpisodicFlowFieldScheduler(s, batch_size=p["B"], episode_length=p["T"], key=jax.random.PRNGKey(p["ekey"]))
    if p["buffer"]:
        s = PrefetchingFlowFieldScheduler(s, batch_size=p["B"], buffer_size=p["buffer"],
                                          startup_timeout=60.0, steady_state_timeout=60.0)
    return s


def alone(cx, sc, p):
    """What the pipeline serves when it is the only one, not observed and not hurried."""
    io = cx.io
    q, io.quiet = io.quiet, True
    cx.k.nopre += 1
    try:
        s = Pipe(cx, sc, p, observe=False)
        for op in p["ops"]:
            s.do(op)
        if p["buffer"]:
            s.s.shutdown()
        return s.out
    finally:
        io.quiet = q
        cx.k.nopre -= 1


def body(cx, sc):
    want = [alone(cx, sc, p) for p in sc["pipes"]]
    cfgs = [None] * len(sc["pipes"])
    if sc["make"]:
        cfgs = [W.mk_config(p, env.dataset(W.make_data(p))) for p in sc["pipes"]]
        if sc["samecfg"]:  # one configuration object for all of them
            cfgs = [cfgs[0]] * len(cfgs)
    else:
        first = sc["pipes"][0]
        if all((p["data"], p["list"], p["dirs"]) == (first["data"], first["list"], first["dirs"]) for p in sc["pipes"]):
            cfgs = [W.paths(env.dataset(first["data"]), {"dirlist": first["dirs"], "list": first["list"]})] * len(cfgs)
    before = [copy.deepcopy(c) for c in cfgs]
    pipes = [Pipe(cx, sc, p, c) for p, c in zip(sc["pipes"], cfgs)]
    stop = []

    def watcher():
        i = 0
        while not stop and i < 80:
            p = pipes[i % len(pipes)]
            p.look(["shape", "files", "running", "len"][(i // len(pipes)) % 4], False)
            i += 1
            cx.k.sleep(0.05 if i % 5 else 0.7, "watcher")

    ths = []
    if sc["watch"]:
        ths.append(cx.spawn(watcher, "watcher"))
        ths[0].start()
    if sc["mode"] == "threads":
        def consumer(p):
            for op in p.p["ops"]:
                p.do(op)
        cs = [cx.spawn(lambda p=p: consumer(p), f"consumer{i}") for i, p in enumerate(pipes)]
        for t in cs:
            t.start()
        for t in cs:
            t.join()
    else:
        todo = [list(p.p["ops"]) for p in pipes]
        for i in sc["turns"]:
            if todo[i % len(todo)]:
                pipes[i % len(todo)].do(todo[i % len(todo)].pop(0))
        for p, t in zip(pipes, todo):
            for op in t:
                p.do(op)
    stop.append(1)
    for t in ths:
        t.join()
    for i, (p, w) in enumerate(zip(pipes, want)):
        cx.log("pipeline", i, p.out)
        if p.wrong:
            cx.bad("observer", f"pipeline {i}: {p.wrong[0]}")
            return
        if p.out != w:
            j = next((j for j, (a, b) in enumerate(zip(p.out, w)) if a != b), min(len(p.out), len(w)))
            cx.bad("disturbed", f"pipeline {i}, call {j}: {p.out[j:j + 1]}, but alone it gave {w[j:j + 1]}")
            return
        for j, (b, dg) in enumerate(p.kept):
            if env.digest(b) != dg:
                cx.bad("batch-changed", f"pipeline {i}: batch {j} was changed after it had been delivered")
                return
    for c, b in zip(cfgs, before):
        if c != b:
            cx.bad("configuration-changed", f"building or using a pipeline changed the configuration it was given: {b} -> {c}"[:600])
            return
    for p in pipes:
        if p.given is not None and not sc["make"] and p.given != W.paths(p.d, {"dirlist": p.p["dirs"], "list": p.p["list"]}):
            cx.bad("configuration-changed", "using a pipeline changed the list of files it was given")
            return
        if p.s is not None and p.p["buffer"]:
            p.s.shutdown()
