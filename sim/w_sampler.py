"""Worlds around the samplers and make(): C06, C11, C12, C13, C17, C19."""

import hashlib
import json
import math
import os
import random
import types

from . import env, kernel as K
from .core import gen_sched, simulate
from .stack import exc_of

HW = 16
SHAPE = (HW, HW)
_jit = {"key": None, "n": 0, "cache": {}}


def prepare(prop):
    """Seam in front of jax.jit: samplers of one configuration share their compiled
    functions, so that building a sampler costs milliseconds instead of seconds."""
    import jax
    import synthpix.sampler.synthetic as S

    class Proxy(types.ModuleType):
        def __getattr__(self, n):
            return getattr(jax, n)

    def jit(fn=None, *a, **kw):
        if fn is None or _jit["key"] is None:
            return jax.jit(fn, *a, **kw) if fn is not None else jax.jit(*a, **kw)
        k = (_jit["key"], _jit["n"])
        _jit["n"] += 1
        f = _jit["cache"].get(k)
        if f is None:
            f = _jit["cache"][k] = jax.jit(fn, *a, **kw)
        spec = _jit.get("faults")
        if not spec:
            return f

        def failing(*a, **kw):
            n, spec["n"] = spec["n"], spec["n"] + 1
            for at, exc in spec["at"]:
                if at == n:
                    K.CUR.io.count("device_error_" + exc)
                    spec["hit"] += 1
                    raise exc_of(exc)
            return f(*a, **kw)

        return failing

    px = Proxy("jax")
    px.jit = jit
    if getattr(S, "jax", None) is jax:
        S.jax = px
    if getattr(S, "jit", None) is jax.jit:
        S.jit = jit


# (batch_size, flow_fields_per_batch, device ids)
COMBOS = [
    (1, 1, [0]), (2, 1, [0]), (2, 2, [0]), (3, 2, [0]), (4, 2, [0]), (4, 4, [0]), (5, 3, [0]), (3, 3, [0]),
    (4, 2, [0, 1]), (4, 1, [0]), (3, 2, [0, 1]), (6, 3, [0, 1, 2]), (4, 4, [0, 1]), (6, 2, [0, 1]), (2, 2, [1, 0]),
    (5, 5, [0]),
]


def nrows(c):
    B, _, dev = c
    n = len(dev)
    return B if B % n == 0 else (B // n + 1) * n


# ---------------------------------------------------------------------------
# scenarios
# ---------------------------------------------------------------------------

def gen(prop, r, tier):
    sc = gen_sched(r, stalls=False, lats=("zero", "fast", "mixed"))
    g = globals()["gen_" + prop](r, sc)
    if "data" in g:
        env.odd_names(r, g["data"])
    g["prop"] = prop
    return g


def pick_combo(r):
    """Each worker compiles few configurations: the choice depends on the run index."""
    i = getattr(r, "index", 0)
    mine = [COMBOS[i % 8], COMBOS[8 + i % 8]]
    return list(r.choice(mine))


def gen_data(r, mat=False, resized=0.0, real=False):
    kind = "mat" if mat else r.choice(["npy", "h5", "mat"])
    if real and r.random() < 0.35:
        kind = "npy"  # its images are separate files beside the flow fields
    nd = r.choice([1, 1, 2])
    dirs = []
    for i in range(nd):
        ent = ["" if nd == 1 and r.random() < 0.5 else "ab"[i], r.randint(1, 5)]
        if kind == "h5":
            ent.append([r.choice([1, 1, 2, 3]) for _ in range(2)])
        dirs.append(ent)
    d = {"kind": kind, "dirs": dirs, "shape": SHAPE, "const": True}
    if kind == "npy":
        if real:
            d["images"] = True
        if r.random() < 0.3:
            d["base"] = r.choice([7, 8, 9, 97, 98])
    if kind == "mat":
        if r.random() < 0.3:
            d["mat_fmt"] = "v73"
        if r.random() < resized:
            d["raw"] = [[32, 32], [16, 16], [8, 32]][: r.randint(1, 3)]
        if r.random() < 0.3:
            d["chfirst"] = True
    return d


def gen_edata(r, T):
    return {"kind": "mat", "dirs": [["ab"[i], T + r.randint(0, 3)] for i in range(r.randint(1, 2))],
            "shape": SHAPE, "const": True}


def nfiles(data):
    return sum(e[1] for e in data["dirs"])


def gen_common(r, sc, real, epi, prefetch=0.5, direct=False):
    sc["real"] = real
    if real:
        sc["combo"] = [r.randint(1, 5), None, None]
    else:
        sc["combo"] = pick_combo(r)
    sc["bpf"] = r.randint(1, 4) if r.random() < 0.95 else r.choice([7, 12, 20])
    sc["seed"] = r.randrange(4) if r.random() < 0.8 else r.choice([255, 12345, 2**20, 2**30])
    sc["T"] = (r.randint(1, 4) if r.random() < 0.95 else r.choice([7, 12])) if epi else 0
    sc["data"] = gen_edata(r, sc["T"]) if epi else gen_data(r, mat=real, real=direct and real)
    sc["prefetch"] = r.random() < prefetch
    sc["buffer"] = r.choice([1, 2, 4])
    sc["key"] = r.randrange(100)
    sc["ekey"] = r.randrange(100)
    sc["loop"] = r.random() < 0.4
    sc["randomize"] = False
    n = nfiles(sc["data"])
    sc["list"] = [r.randrange(n) for _ in range(r.randint(1, n + 2))] if not epi and r.random() < 0.3 else None
    sc["timeout"] = 60.0


def gen_C06(r, sc):
    gen_common(r, sc, r.random() < 0.5, True)
    sc["randomize"] = r.random() < 0.2
    if sc["prefetch"] and r.random() < 0.4:
        sc["lat"] = "slow"
        sc["timeout"] = r.choice([0.5, 2.0])
    T = sc["T"]
    ops = []
    for _ in range(r.randint(1, 5)):
        for _ in range(r.choice([0, 1, T, T, T + 1, r.randint(0, T)])):
            ops.append(["next"])
            if r.random() < 0.1:
                ops.append(["pause", r.choice([0.1, 3.0])])
        ops.append(["episode"] if r.random() < 0.75 else ["reset"])
    ops += [["next"]] * (T + 1)
    sc["ops"] = ops
    return sc


def gen_C12(r, sc):
    epi = r.random() < 0.25
    gen_common(r, sc, False, epi)
    if not epi and r.random() < 0.55:
        sc["stub"] = {"n": r.randint(0, 6), "errors": {}}
        sc["loop"] = False
        for _ in range(r.choice([0, 1, 1, 2])):
            sc["stub"]["errors"][str(r.randint(0, max(0, sc["stub"]["n"])))] = [
                r.choice(["ValueError", "OSError", "MemoryError", "RuntimeError", "KeyError"]), r.choice([1, 1, 2, 1000000])]
    ops = []
    for _ in range(r.randint(2, 14)):
        ops.append(r.choice([["next"]] * 8 + [["pause", 0.5], ["reset"], ["softreset"]] + ([["episode"]] * 2 if epi else [])))
    ops += [["next"]] * r.randint(0, 12 if sc["bpf"] < 5 else 3 * sc["bpf"])
    if r.random() < 0.02:
        ops += [["next"]] * r.randint(20, 60)
    sc["ops"] = ops
    if not epi and not (sc.get("stub") or {}).get("errors") and r.random() < 0.35:
        sc["jitfault"] = sorted([r.randint(0, 14), r.choice(["MemoryError", "RuntimeError", "ValueError"])]
                                for _ in range(r.choice([1, 1, 1, 2, 3])))
    return sc


def gen_C13(r, sc):
    gen_common(r, sc, r.random() < 0.35, False, direct=True)
    ops = []
    for _ in range(r.randint(1, 5)):
        ops.append(["next", r.randint(0, 6) if r.random() < 0.97 else r.choice([15, 30])])
        ops.append(r.choice([["reset"], ["reset"], ["softreset"], ["pause", 2.0]]))
    ops += [["reset"], ["next", r.randint(1, 6)]]
    sc["ops"] = ops
    return sc


def gen_C17(r, sc):
    real = r.random() < 0.4
    epi = r.random() < 0.15
    gen_common(r, sc, real, epi, 0.4)
    if not epi:
        sc["data"] = gen_data(r, mat=real, resized=0.5, real=real)
        n = nfiles(sc["data"])
        sc["list"] = [r.randrange(n) for _ in range(r.randint(1, n + 2))] if r.random() < 0.3 else None
        sc["randomize"] = r.random() < 0.3
    sc["bad"] = r.randrange(nfiles(sc["data"])) if not epi and r.random() < 0.2 else None
    sc["ops"] = [["next"]] * r.randint(1, 8)
    return sc


def gen_make(r, sc):
    real = r.random() < 0.4
    epi = r.random() < 0.35
    gen_common(r, sc, real, epi)
    if epi and r.random() < 0.5:
        sc["data"]["dirs"] = [["abc"[i], sc["T"] + r.randint(0, 3)] for i in range(3)]
    sc["randomize"] = r.random() < 0.5
    sc["dirlist"] = r.random() < 0.5 and sc["list"] is None
    sc["yaml"] = r.random() < 0.3
    sc["terse"] = r.random() < 0.3
    sc["lat"] = r.choice(["zero", "fast"])
    sc["buffer"] = r.choice([0, 1, 2, 5]) if sc["prefetch"] else 0
    return sc


def gen_C11(r, sc):
    gen_make(r, sc)
    sc["stalls"] = [0.001, 0.05, 0.3]
    sc["p_stall"] = r.choice([0.0, 0.01, 0.03])
    sc["shuffle"] = True
    T = sc["T"]
    ops = []
    for _ in range(r.randint(2, 10)):
        ops.append(r.choice([["next"]] * 5 + [["reset"], ["softreset"]] + ([["episode"]] * 2 if T else [])))
    sc["ops"] = ops + [["next"]] * r.randint(1, 4)
    sc["variants"] = [[0, "zero"], [r.choice([1, 2, 3, 8]), r.choice(["zero", "fast"])],
                      [r.choice([0, 1, 4]), r.choice(["zero", "fast"])]]
    # next_episode() on a stack that has served nothing yet draws other starts without
    # prefetching and merely starts the worker with it: compared among prefetchers only
    fresh = False
    prev = "reset"
    for o in sc["ops"]:
        fresh |= o[0] == "episode" and prev == "reset"
        prev = o[0] if o[0] in ("reset", "next") else prev
    if fresh:
        sc["variants"] = [[b or 2, lat] for b, lat in sc["variants"]]
    return sc


def gen_C19(r, sc):
    gen_make(r, sc)
    sc["npass"] = r.choice([1, 2, 8]) if sc["real"] else r.randint(1, 2)
    return sc


def gen_C22(r, sc):
    gen_make(r, sc)
    if r.random() < 0.6 and not sc["real"]:  # mostly real images: those cost no compilation
        sc["real"], sc["combo"] = True, [r.randint(1, 4), None, None]
        if sc["data"]["kind"] != "mat":
            sc["data"] = gen_data(r, mat=True)
            sc["list"] = None
    if not sc["real"]:
        sc["combo"] = list(COMBOS[(7 * getattr(r, "index", 0) + 3) % 8])
        if sc["data"]["kind"] == "mat":
            sc["data"], sc["list"] = {"kind": "npy", "dirs": [["a", r.randint(1, 4)]], "shape": SHAPE, "const": True}, None
    sc["T"], sc["yaml"], sc["dirlist"] = 0, True, False
    sc["buffer"] = r.choice([0, 1, 1, 2, 5])
    sc["show"] = r.choice([0, 1, 1, 2, 3, 9])
    sc["loop"] = sc["loop"] and sc["show"] > 0
    n = r.randint(0, 8)
    sc["answers"] = [r.choice(["y", "y", "y", "Y"]) for _ in range(n)]
    sc["answers"].append(r.choice(["n", "N", "", "no", "quit", "yes", "^D", "^C", "^C"]))
    sc["think"] = [r.choice([0.0, 0.0, 0.1, 5.0]) for _ in range(n + 1)]
    sc["savefault"] = [r.randint(0, 12), r.choice(["ENOSPC", "EIO", "ENOENT"])] if r.random() < 0.25 else None
    sc["kill"] = r.randint(0, 20) if r.random() < 0.1 else None  # Ctrl-C while saving
    sc["notxt"] = r.random() < 0.1  # output directory cannot be made
    sc["unreadable"] = r.random() < 0.08
    return sc


# ---------------------------------------------------------------------------
# building
# ---------------------------------------------------------------------------

def run(sc, seed=None, replay=None):
    return simulate(sc, lambda cx: globals()["body_" + sc["prop"]](cx, sc), seed, replay, 400_000)


class Scripted:
    """A scripted scheduler: batch i is constant flow fields with code i."""

    def __init__(self, spec):
        self.n = spec["n"]
        self.errors = {k: list(v) for k, v in spec["errors"].items()}
        self.pos = 0
        self._fl = ["stub"]

    @property
    def file_list(self):
        return self._fl

    @file_list.setter
    def file_list(self, v):
        self._fl = v

    def shutdown(self):
        pass

    def get_flow_fields_shape(self):
        return SHAPE + (2,)

    def reset(self):
        self.pos = 0

    def get_batch(self, batch_size):
        K.CUR.io.op("stub", "stub")
        i = self.pos
        e = self.errors.get(str(i))
        if e and e[1] > 0:
            e[1] -= 1
            K.CUR.io.count("scheduler_error_" + e[0])
            raise exc_of(e[0])
        if i >= self.n:
            raise StopIteration
        self.pos = i + 1
        np = env.np
        a = np.empty((batch_size,) + SHAPE + (2,), np.float32)
        for j in range(batch_size):
            a[j, ..., 0], a[j, ..., 1] = env.CODES[i * batch_size + j]
        return env.SchedulerData(flow_fields=a, mask=np.ones((batch_size,), bool),
                                 files=tuple(f"s{i}.{j}" for j in range(batch_size)))


def paths(d, sc):
    if sc.get("dirlist"):
        return sorted({os.path.dirname(f) for f in d.files})
    if sc.get("list"):
        return [d.files[i % len(d.files)] for i in sc["list"]]
    return list(d.files)


def entries(d, sc):
    """The configured files in list order."""
    if sc.get("dirlist"):
        out = []
        for p in paths(d, sc):
            out += sorted(f for f in d.files if os.path.dirname(f) == p)
        return out
    return paths(d, sc)


def sched_batch(sc):
    B, fpb, _ = sc["combo"]
    return B if sc["real"] else fpb


def mk_sched(sc, d, prefetch=None):
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler

    n = sched_batch(sc)
    if sc.get("stub"):
        s = Scripted(sc["stub"])
    else:
        kw = dict(randomize=sc["randomize"], loop=sc["loop"], key=jax.random.PRNGKey(sc["key"]))
        if d.kind == "mat":
            kw["output_shape"] = SHAPE
        if sc["real"]:
            kw["include_images"] = True
        s = env.make_base(d, d.kind, paths(d, sc), **kw)
    if sc["T"]:
        s = EpisodicFlowFieldScheduler(s, batch_size=n, episode_length=sc["T"], key=jax.random.PRNGKey(sc["ekey"]))
    if sc["prefetch"] if prefetch is None else prefetch:
        s = PrefetchingFlowFieldScheduler(s, batch_size=n, buffer_size=sc["buffer"],
                                          startup_timeout=sc["timeout"], steady_state_timeout=sc["timeout"])
    return s


SPEC = dict(seeding_density_range=(0.1, 0.1), p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[(0.8, 1.2)],
            diameter_var=0.0, intensity_ranges=[(80, 200)], intensity_var=0.0, rho_ranges=[(-0.2, 0.2)],
            rho_var=0.0, dt=1.0, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0)


def mk_sampler(sc, sched, faults=None):
    from synthpix.sampler import RealImageSampler, SyntheticImageSampler
    from synthpix.types import ImageGenerationSpecification

    B, fpb, dev = sc["combo"]
    if sc["real"]:
        return RealImageSampler(sched, batch_size=B)
    _jit.update(key=json.dumps([B, fpb, dev, HW]), n=0, faults=faults)
    try:
        gs = ImageGenerationSpecification(batch_size=B, image_shape=SHAPE, img_offset=(0, 0), **SPEC)
        return SyntheticImageSampler(
            sched, batches_per_flow_batch=sc["bpf"], flow_fields_per_batch=fpb, flow_field_size=(float(HW), float(HW)),
            resolution=1.0, velocities_per_pixel=1.0, seed=sc["seed"], max_speed_x=0.0, max_speed_y=0.0,
            min_speed_x=0.0, min_speed_y=0.0, output_units="pixels", device_ids=dev, generation_specification=gs)
    finally:
        _jit["key"] = _jit["faults"] = None


def mk_config(sc, d, **over):
    B, fpb, dev = sc["combo"]
    size = BIG if d.kind == "mat" and not sc["real"] else HW
    c = {"scheduler_class": "." + d.kind, "batch_size": B, "include_images": sc["real"],
         "flow_fields_per_batch": fpb or 1, "batches_per_flow_batch": sc["bpf"],
         "buffer_size": sc["buffer"], "episode_length": sc["T"], "seed": sc["seed"],
         "file_list": paths(d, sc), "randomize": sc["randomize"], "loop": sc["loop"],
         "image_shape": list(SHAPE), "img_offset": [0, 0], "flow_field_size": [float(size), float(size)],
         "resolution": 1.0, "velocities_per_pixel": 1.0, "max_speed_x": 0.0, "max_speed_y": 0.0,
         "min_speed_x": 0.0, "min_speed_y": 0.0, "output_units": "pixels"}
    c.update({k: (list(v) if isinstance(v, tuple) else v) for k, v in SPEC.items()})
    c["diameter_ranges"] = [list(x) for x in c["diameter_ranges"]]
    c["intensity_ranges"] = [list(x) for x in c["intensity_ranges"]]
    c["rho_ranges"] = [list(x) for x in c["rho_ranges"]]
    if dev:
        c["device_ids"] = list(dev)
    c.update(over)
    if sc.get("terse"):  # leave out what make() documents a default for, or does not use
        for k, v in DEFAULTS.items():
            if c[k] == v and type(c[k]) is type(v):
                del c[k]
        if sc["real"]:
            for k in ("batches_per_flow_batch", "img_offset", "flow_field_size", "resolution", "velocities_per_pixel",
                      "max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y", "output_units", *SPEC):
                c.pop(k, None)
    return c, json.dumps([B, fpb, dev, size])


DEFAULTS = {"include_images": False, "buffer_size": 0, "episode_length": 0, "seed": 0, "randomize": False, "loop": True}


def yaml_file(c):
    import yaml

    with open("config_sim.yaml", "w") as f:
        yaml.safe_dump(c, f)
    return "config_sim.yaml"


def mk_make(cx, sc, d, **over):
    """Build through make() from a configuration dictionary or file."""
    from synthpix.make import make

    c, key = mk_config(sc, d, **over)
    _jit.update(key=key, n=0)
    try:
        return make(yaml_file(c) if sc["yaml"] else c)
    finally:
        _jit["key"] = None


# ---------------------------------------------------------------------------
# calls and decoding
# ---------------------------------------------------------------------------

def call(cx, what, fn):
    from synthpix.scheduler.protocol import EpisodeEnd

    t0 = cx.now()
    try:
        out = fn()
    except StopIteration:
        out = ["stop"]
    except EpisodeEnd:
        out = ["ee"]
    except Exception as e:
        out = ["exc", type(e).__name__, str(e)[:200]]
    cx.log(what, round(t0, 4), round(cx.now(), 4), out if out[0] != "b" else ["b", out[2]])
    return out


def nxt(cx, s, d):
    def f():
        b = next(s)
        np = env.np
        ids = [d.cident(x) for x in np.asarray(b.flow_fields)] if d is not None else \
            [env.code_of(x) for x in np.asarray(b.flow_fields)]
        return ["b", b, ids]

    return call(cx, "next", f)


def bdig(b):
    """Digest of a batch. (A plain scheduler behind the prefetcher adds an all-False
    done flag by design, so that such a flag counts like none; C06 looks at the flags.)"""
    if b.done is not None and not env.np.asarray(b.done).any():
        b = b.update(done=None)
    return env.digest(b)


def part(*arrays):
    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        h.update(env.np.ascontiguousarray(env.np.asarray(a)).tobytes())
    return h.hexdigest()


def reference(cx, sc, d, n):
    """The batches of the bare scheduler stack, in order: one list of row ids each."""
    from synthpix.scheduler.protocol import EpisodeEnd

    io = cx.io
    q, io.quiet = io.quiet, True
    cx.k.nopre += 1
    try:
        s = mk_sched(sc, d, prefetch=False)
        out = []
        while len(out) < n:
            try:
                b = s.get_batch(sched_batch(sc))
                out.append([d.cident(x) for x in b.flow_fields])
            except EpisodeEnd:
                s.next_episode()
            except StopIteration:
                break
        return out
    finally:
        io.quiet = q
        cx.k.nopre -= 1


# ---------------------------------------------------------------------------
# C06
# ---------------------------------------------------------------------------

def body_C06(cx, sc):
    d = env.dataset(sc["data"])
    sched = mk_sched(sc, d)
    s = mk_sampler(sc, sched)
    T, t, np = sc["T"], 0, env.np
    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif op[0] in ("episode", "reset"):
            out = call(cx, op[0], lambda: ["ok", s.next_episode() if op[0] == "episode" else s.reset()])
            if out[0] != "ok":
                cx.bad("exception", f"{op[0]} raised {out}")
                return
            t = 0
        else:
            t0 = cx.now()
            out = nxt(cx, s, d)
            if t == T:
                if out[0] != "ee":
                    cx.bad("episode-overrun", f"next() after the last step gave {out[0]} {out[1:]} instead of EpisodeEnd")
                    return
                continue
            if out[0] == "stop" and sc["prefetch"] and cx.now() - t0 >= sc["timeout"] - 1e-6:
                cx.res.cover.add("timed-out-next")
                continue
            if out[0] != "b":
                cx.bad("no-batch", f"step {t} of {T}: next() gave {out}")
                return
            t += 1
            done = out[1].done
            if done is None:
                cx.bad("done-missing", "no done flag over an episodic scheduler")
                return
            done = np.asarray(done)
            if done.shape != (s.batch_size,) or len(out[2]) != s.batch_size:
                cx.bad("done-shape", f"done has shape {done.shape}, the batch has {len(out[2])} rows, batch_size is {s.batch_size}")
                return
            if done.dtype != bool or not (done == (t == T)).all():
                cx.bad("done-value", f"done is {done.tolist()} at step {t} of {T}")
                return
    if sc["prefetch"]:
        s.shutdown()


# ---------------------------------------------------------------------------
# C12
# ---------------------------------------------------------------------------

def body_C12(cx, sc):
    B, fpb, dev = sc["combo"]
    stub = sc.get("stub")
    d = None
    if stub:
        L = [[env.CODES[i * fpb + j] for j in range(fpb)] for i in range(min(stub["n"], len(env.CODES) // fpb))]
        stub["n"] = len(L)
        errors = {int(k): list(v) for k, v in stub["errors"].items()}
    else:
        d = env.dataset(sc["data"])
        errors = {}
    finite = bool(stub) or (not sc["loop"] and not sc["T"])
    nn = sum(1 for o in sc["ops"] if o[0] == "next")
    if not stub:
        # over an episodic scheduler only the unbroken part is compared
        L = reference(cx, sc, d, 300 if finite else nn + 5)
    bpf = 1 if sc["T"] else sc["bpf"]
    sched = mk_sched(sc, d)
    base = sched.scheduler if sc["prefetch"] else sched
    faults = {"n": 0, "hit": 0, "at": sc.get("jitfault") or []}
    s = mk_sampler(sc, sched, faults)
    rows = nrows(sc["combo"])
    skipped = False  # the newest flow batch may have been given up with an error
    pos, used, t = 0, None, 0  # next scheduler batch; image batches made from the current one
    dead = None  # prefetched stream that ended or failed
    imgs = set()
    follow = True  # the reference plays whole episodes only
    last = None
    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
            continue
        if op[0] in ("reset", "softreset", "episode"):
            fn = {"reset": s.reset, "softreset": lambda: s.reset(scheduler_reset=False), "episode": s.next_episode}[op[0]]
            out = call(cx, op[0], lambda: ["ok", fn()])
            if out[0] != "ok":
                if op[0] == "episode" or errors:
                    return
                cx.bad("exception", f"{op[0]} raised {out}")
                return
            if op[0] == "episode":
                if t != sc["T"]:
                    follow = False
                t, last, used = 0, None, None
                continue
            imgs = set()
            if skipped and op[0] == "softreset":
                return  # where the scheduler stands is the sampler's choice
            used, skipped = None, False
            if op[0] == "reset":
                pos, dead, t, last = 0, None, 0, None
                if stub:  # the worker may have met (and spent) an error not seen here
                    errors = {int(k): list(v) for k, v in base.errors.items()}
                if sc["T"]:
                    follow = False
            continue
        hit = faults["hit"]
        out = nxt(cx, s, d)
        if faults["hit"] > hit:
            # making the images failed: next() says so, and a flow batch taken for it is
            # given up or tried again, as a whole
            if out[0] == "b":
                cx.bad("stale", "next() made images although the computation failed")
                return
            if out[0] != "exc":
                cx.bad("wrong-exception", f"next() gave {out} although the computation failed")
                return
            if used is None or used >= bpf:
                if skipped:
                    return  # failed twice in a row: not followed further
                used, skipped = None, True
            continue
        if skipped:
            if out[0] == "b":
                have = set(map(tuple, out[2]))
                a, b = (set(map(tuple, L[p])) if p < len(L) else None for p in (pos, pos + 1))
                if have not in (a, b):
                    cx.bad("wrong-flows", f"after a failed computation next() shows {sorted(have, key=str)}, the flow batches are {a} and {b}")
                    return
                if a == b:
                    return  # which of the two cannot be told
                pos += have == b
                skipped = False
            elif out[0] == "stop" and finite and pos + 1 >= len(L):
                return
            else:
                cx.bad("no-batch", f"next() gave {out} after a failed computation")
                return
        if sc["T"] and t == sc["T"]:
            if out[0] != "ee":
                cx.bad("episode-overrun", f"next() after the last step gave {out[0]}")
                return
            continue
        fetch = used is None or used >= bpf
        if fetch:
            # what must the scheduler say now?
            if dead is not None:
                want = dead
            elif errors.get(pos) and errors[pos][1] > 0:
                want = ["exc", errors[pos][0]]
                errors[pos][1] -= 1
                if sc["prefetch"]:
                    dead = want
            elif pos >= len(L) and finite:
                want = ["stop"]
            else:
                want = ["b"]
            if want[0] != "b":
                used = None
                if out[0] == "b":
                    cx.bad("stale", f"next() made images of {out[2]} although the scheduler says {want}")
                    return
                if want[0] == "stop" and out[0] != "stop":
                    cx.bad("wrong-exception", f"next() gave {out} although the scheduler is exhausted")
                    return
                if want[0] == "exc" and out[:2] != want and not (dead is not None and out[0] == "stop" and sc["prefetch"]):
                    cx.bad("wrong-exception", f"next() gave {out} although the scheduler raised {want[1]}")
                    return
                continue
        if out[0] != "b":
            cx.bad("no-batch", f"next() gave {out} with flow batch {pos if fetch else pos - 1} available")
            return
        if fetch:
            pos += 1
            used = 0
        used += 1
        t += 1
        if len(out[2]) != rows:
            cx.bad("rows", f"{len(out[2])} rows instead of {rows}")
            return
        have = set(map(tuple, out[2]))
        if follow:
            w = set(map(tuple, L[pos - 1]))
            if have != w:
                cx.bad("wrong-flows", f"image batch {used} of flow batch {pos - 1} shows {sorted(have, key=str)}, the flow batch is {sorted(w, key=str)}")
                return
        elif sc["T"] and last is not None:
            if have == last:
                cx.bad("wrong-flows", f"step {t} shows the same flow fields as the step before: {sorted(have, key=str)}")
                return
        last = have
        g = part(out[1].images1, out[1].images2)
        if g in imgs and any(isinstance(x, tuple) for x in have):
            cx.bad("same-randomness", "an image batch repeats an earlier one")
            return
        imgs.add(g)
        one = [part(x) for x in env.np.asarray(out[1].images1) if x.any()]
        if len(set(one)) < len(one):
            cx.bad("same-randomness", f"{len(one) - len(set(one)) + 1} rows of one image batch have the same first image")
            return
    if sc["prefetch"]:
        s.shutdown()


# ---------------------------------------------------------------------------
# C13
# ---------------------------------------------------------------------------

def body_C13(cx, sc):
    d = env.dataset(sc["data"])
    sched = mk_sched(sc, d)
    s = mk_sampler(sc, sched)
    total = max(o[1] for o in sc["ops"] if o[0] == "next") + 1
    # the stream of a fresh sampler, never reset
    ref_sc = dict(sc, prefetch=False)
    s0 = mk_sampler(ref_sc, mk_sched(ref_sc, d, prefetch=False))
    q, cx.io.quiet = cx.io.quiet, True
    ref = []
    for _ in range(total * 2):
        out = nxt(cx, s0, d)
        ref.append([bdig(out[1]), out[2]] if out[0] == "b" else [out[0], None])
    cx.io.quiet = q
    L = reference(cx, sc, d, 300 if not sc["loop"] else 60)
    bpf = 1 if sc["real"] else sc["bpf"]
    fresh, pos, fpos, used = True, 0, 0, None
    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif op[0] == "reset":
            out = call(cx, "reset", lambda: ["ok", s.reset()])
            fresh, pos, fpos, used = True, 0, 0, None
        elif op[0] == "softreset":
            out = call(cx, "softreset", lambda: ["ok", s.reset(scheduler_reset=False)])
            fresh, pos, used = False, 0, None
        else:
            for _ in range(op[1]):
                out = nxt(cx, s, d)
                if out[0] not in ("b", "stop"):
                    cx.bad("exception", f"next() raised {out}")
                    return
                if used is None or used >= bpf:
                    if out[0] == "b":
                        fpos, used = fpos + 1, 0
                if out[0] == "b":
                    used += 1
                if fresh:
                    if pos < len(ref):
                        got = [bdig(out[1]), out[2]] if out[0] == "b" else [out[0], None]
                        if got != ref[pos]:
                            cx.bad("not-replayed", f"batch {pos} after the start or reset is {got}, a fresh sampler gives {ref[pos]}")
                            return
                else:
                    cx.res.cover.add("soft-reset")
                    if out[0] == "stop":
                        if fpos < len(L) and (used is None or used >= bpf):
                            cx.bad("lost", f"StopIteration after flow batch {fpos} of {len(L)}")
                            return
                        continue
                    want = L[(fpos - 1) % 10**9] if fpos - 1 < len(L) else None
                    if want is not None and set(map(tuple, out[2])) != set(map(tuple, want)):
                        cx.bad("not-continued", f"after reset(scheduler_reset=False) flow batch {fpos - 1} shows {out[2]}, the scheduler hands out {want}")
                        return
                    if not sc["real"]:
                        g = part(out[1].params.seeding_densities, out[1].params.diameter_ranges)
                        key = ("soft", sc["combo"][0], pos)
                        w = _soft_params(cx, sc, d, pos)
                        if w is not None and g != w:
                            cx.bad("randomness-not-restarted", f"image randomness of batch {pos} after reset(scheduler_reset=False) is not that of a new sampler")
                            return
                pos += 1
    if sc["prefetch"]:
        s.shutdown()


def _soft_params(cx, sc, d, pos):
    """Random generation parameters of image batch `pos` of a fresh sampler."""
    k = ("soft", repr(sc["combo"]), sc["seed"])
    tab = _jit["cache"].setdefault(k, {})
    if not tab:
        sc2 = dict(sc, stub={"n": 8, "errors": {}}, prefetch=False, bpf=4)
        q, cx.io.quiet = cx.io.quiet, True
        cx.k.nopre += 1
        try:
            sc2["stub"]["n"] = len(env.CODES) // sc["combo"][1]
            s = mk_sampler(sc2, mk_sched(sc2, None))
            for i in range(16):
                b = next(s)
                tab[i] = part(b.params.seeding_densities, b.params.diameter_ranges)
        finally:
            cx.io.quiet = q
            cx.k.nopre -= 1
    return tab.get(pos)


# ---------------------------------------------------------------------------
# C17
# ---------------------------------------------------------------------------

def check_rows(cx, sc, d, b, ids, rows):
    np = env.np
    if len(ids) != rows or len(b.images1) != rows or len(b.images2) != rows:
        cx.bad("rows", f"{len(ids)} flow fields, {len(b.images1)} images for {rows} rows")
        return False
    if b.mask is None or len(np.asarray(b.mask)) != rows or b.files is None or len(b.files) != rows:
        cx.bad("metadata-length", f"{rows} rows but mask {None if b.mask is None else np.asarray(b.mask).shape} and "
               f"{None if b.files is None else len(b.files)} file names")
        return False
    mask = np.asarray(b.mask)
    i1, i2 = np.asarray(b.images1), np.asarray(b.images2)
    for i in range(rows):
        if ids[i] == "?":
            cx.bad("foreign-flow", f"row {i} holds the flow field of no file")
            return False
        if ids[i] == "PAD":
            cx.res.cover.add("padded-row")
            if mask[i] or b.files[i] != "":
                cx.bad("padding", f"row {i} is padding but has mask {mask[i]} and file {b.files[i]!r}")
                return False
            if sc["real"] and (i1[i].any() or i2[i].any()):
                cx.bad("padding", f"row {i} is padding but has an image")
                return False
        else:
            if not mask[i]:
                cx.bad("mask", f"row {i} holds {ids[i]} but is masked")
                return False
            if os.path.normpath(b.files[i]) != os.path.normpath(ids[i][0]):
                cx.bad("file-name", f"row {i} holds {ids[i]} but is named {b.files[i]}")
                return False
            if sc["real"]:
                w = d.images[ids[i][0]]
                if not env.np.array_equal(i1[i], w[0]) or not env.np.array_equal(i2[i], w[1]):
                    cx.bad("image-of-other-sample", f"row {i} holds {ids[i]} but other images")
                    return False
        if not sc["real"]:
            c = env.code_of(np.asarray(b.flow_fields)[i])
            if not moved_by(i1[i], i2[i], (0, 0) if c == "PAD" else c):
                cx.bad("image-moved-otherwise", f"row {i}: the images do not move by its flow field {c} ({ids[i]})")
                return False
    return True


def moved_by(a, b, c):
    """Is image b image a displaced by (u, v), as far as both show it?"""
    np = env.np
    u, v = c
    m = 3
    lo_y, hi_y = max(m, m + v), min(HW - m, HW - m + v)
    lo_x, hi_x = max(m, m + u), min(HW - m, HW - m + u)
    pb = b[lo_y:hi_y, lo_x:hi_x]
    pa = a[lo_y - v:hi_y - v, lo_x - u:hi_x - u]
    return bool(np.abs(pa.astype(float) - pb.astype(float)).max() <= 2.0)


def body_C17(cx, sc):
    d = env.dataset(sc["data"], private=sc["bad"] is not None)
    sched = mk_sched(sc, d)
    s = mk_sampler(sc, sched)
    if sc["bad"] is not None:
        f = d.files[sc["bad"]]
        if sc["data"]["kind"] != "mat" or True:
            env.corrupt(f, "garbage")
            cx.io.count("file_garbage")
    rows = nrows(sc["combo"]) if not sc["real"] else sc["combo"][0]
    for op in sc["ops"]:
        out = nxt(cx, s, d)
        if out[0] in ("stop", "ee"):
            break
        if out[0] != "b":
            cx.bad("exception", f"next() raised {out}")
            return
        cx.res.cover.add(f"{d.kind}-{'real' if sc['real'] else 'synthetic'}")
        if not check_rows(cx, sc, d, out[1], out[2], rows):
            return
    if sc["prefetch"]:
        s.shutdown()


# ---------------------------------------------------------------------------
# C11
# ---------------------------------------------------------------------------

def body_C11(cx, sc):
    d = env.dataset(make_data(sc))
    streams = []
    for n, (buf, lat) in enumerate(sc["variants"]):
        cx.io.profile = lat
        cx.io.dirrng = random.Random(sc["io_seed"] + n)
        random.seed(n * 77 + 1)
        env.np.random.seed(n * 77 + 1)
        s = mk_make(cx, dict(sc, buffer=buf), d)
        st = []
        for op in sc["ops"]:
            if op[0] == "next":
                out = nxt(cx, s, d)
                st.append(["b", bdig(out[1]), out[2]] if out[0] == "b" else list(out[:2]))
            else:
                fn = {"reset": s.reset, "softreset": lambda: s.reset(scheduler_reset=False), "episode": s.next_episode}[op[0]]
                out = call(cx, op[0], lambda: ["ok", fn()])
                st.append([op[0]] + list(out[:2]))
        if buf:
            s.shutdown()
        streams.append(st)
        if st != streams[0]:
            j = [a == b for a, b in zip(st, streams[0])].index(False)
            cx.bad("stream-differs", f"call {j} ({sc['ops'][j][0]}) gives {st[j]} with buffer_size {buf} and other timing, "
                   f"but {streams[0][j]} with buffer_size {sc['variants'][0][0]}")
            return
    cx.res.stats["xdigest"] = hashlib.blake2b(repr(streams).encode(), digest_size=10).hexdigest()


BIG = 256


def make_data(sc):
    """make() serves MAT flow fields without images at 256x256 whatever their size."""
    if sc["data"]["kind"] == "mat" and not sc["real"]:
        return dict({k: v for k, v in sc["data"].items() if k != "raw"}, shape=(BIG, BIG), raw=[list(SHAPE)])
    return sc["data"]


# ---------------------------------------------------------------------------
# C19
# ---------------------------------------------------------------------------

def body_C19(cx, sc):
    d = env.dataset(make_data(sc))
    ents = entries(d, sc)
    B, fpb, dev = sc["combo"]
    nb = sched_batch(sc)
    bpf = 1 if sc["real"] or sc["T"] else sc["bpf"]
    want = [(e, j) for e in ents for j in range(len(d.slices[e]))]

    def flows(seed, nfb, check=False):
        """Row ids of the flow batches of a pipeline with this seed."""
        out = call(cx, "make", lambda: ["ok", mk_make(cx, sc, d, seed=seed)])
        if out[0] != "ok":
            cx.bad("make-failed", f"make() raised {out[1:]} for a valid configuration")
            return None
        s = out[1]
        cx.res.hist.pop()
        res, digs = [], []
        t = 0
        while len(res) < nfb:
            if sc["T"] and t == sc["T"]:
                o = call(cx, "episode", lambda: ["ok", s.next_episode()])
                if o[0] != "ok":
                    cx.bad("exception", f"next_episode raised {o}")
                    return None
                t = 0
            ended = False
            for k in range(bpf):
                o = nxt(cx, s, d)
                if o[0] == "stop" and k == 0 and not sc["loop"] and not sc["T"]:
                    ended = True
                    break
                if o[0] != "b":
                    cx.bad("no-data", f"next() gave {o} after {len(res)} flow batches")
                    return None
                if k and set(map(tuple, o[2])) != set(map(tuple, first)):
                    cx.bad("batches-per-flow-batch", f"image batch {k} of one flow batch shows {o[2]}, image batch 0 {first}")
                    return None
                first = o[2]
                digs.append(bdig(o[1]))
                if check and not sc["real"] and not check_len(cx, sc, o[1]):
                    return None
            if ended:
                break
            t += 1
            res.append(o)
        if sc["buffer"]:
            s.shutdown()
        return [x[2] for x in res], digs, s

    npasses = sc["npass"] if sc["loop"] else 1
    nfb = math.ceil(len(want) * npasses / nb) if not sc["T"] else sc["T"] * 4
    a = flows(sc["seed"], nfb + (0 if sc["loop"] else 1), True)
    if a is None:
        return
    seq = a[0]
    if sc["T"]:
        if len(seq) < nfb:
            cx.bad("no-data", "episodes end")
            return
    else:
        # coverage of the configured files: rows of one flow batch, in row order
        k = nb
        rows = []
        for x in seq:
            if sc["real"]:
                rows += x
            else:
                rows += unroll(x, fpb, len(dev))
        real = [tuple(x) for x in rows if x != "PAD"]
        n = len(want)
        if not sc["loop"] and len(real) != n:
            cx.bad("coverage", f"one pass serves {len(real)} samples, the configured files hold {n}")
            return
        for i in range(0, len(real) - n + 1, n):
            one = real[i:i + n]
            if sc["randomize"]:
                if sorted(one) != sorted(want):
                    cx.bad("coverage", f"a pass serves {one}, the configured files hold {want}")
                    return
            elif one != want:
                cx.bad("coverage", f"a pass serves {one}, the configured order is {want}")
                return
    b = flows(sc["seed"], len(seq))
    if b is None:
        return
    if b[:2] != (a[0][:len(b[0])], a[1][:len(b[1])]):
        cx.bad("seed", "the same configuration and seed give another stream")
        return
    # how many streams are there?
    if sc["T"]:
        starts = sum(max(0, e[1] - sc["T"] + 1) for e in sc["data"]["dirs"])
        ways = starts ** (nb * (len(seq) // sc["T"]))
    elif sc["randomize"] and len(set(ents)) == len(ents):
        ways = math.factorial(len(ents)) ** max(1, len(seq) * nb // max(1, len(want)))
    else:
        ways = 1
    others = 3
    if ways > 1 and math.log(ways) * others > 30:
        same = 0
        for j in range(1, others + 1):
            c = flows(sc["seed"] + j, len(seq))
            if c is None:
                return
            same += c[0] == seq
            if c[0] == seq and math.log(ways) > 30:
                cx.bad("seed-ignored", f"seeds {sc['seed']} and {sc['seed'] + j} give the same order of files")
                return
        cx.res.cover.add("different-seeds-compared")
        if same == others:
            cx.bad("seed-ignored", f"seeds {sc['seed']}..{sc['seed'] + others} all give the same order of files")
            return
    if not sc["real"]:
        c = flows(sc["seed"] + 1, 1)
        if c is not None and c[1] and c[1][0] == a[1][0]:
            cx.bad("seed-ignored", "two seeds give identical synthetic images")


def check_len(cx, sc, b):
    r = nrows(sc["combo"])
    if len(b.images1) != r or len(b.flow_fields) != r:
        cx.bad("rows", f"{len(b.images1)} images, {len(b.flow_fields)} flow fields instead of {r}")
        return False
    return True


def unroll(x, fpb, ndev):
    """The flow fields behind a tiled batch, in order (every device has its share)."""
    per = len(x) // ndev
    f = fpb // ndev
    out = []
    for dv in range(ndev):
        out += x[dv * per:dv * per + f]
    return out


# ---------------------------------------------------------------------------
# C22
# ---------------------------------------------------------------------------

_main = []


def main_module():
    """src/main.py, with plotting replaced by a recorder of what is saved."""
    if _main:
        return _main[0]
    import importlib.util
    import sys

    import goggles
    import matplotlib

    class Px(types.ModuleType):
        def __init__(self, name, of, own):
            super().__init__(name)
            self.__dict__.update(own)
            self.__dict__["_of"] = of

        def __getattr__(self, n):
            return getattr(self.__dict__["_of"], n)

    class Anything:
        def __getattr__(self, n):
            return lambda *a, **k: None

    class Fig(Anything):
        def savefig(self, path, *a, **k):
            save(path, None)

    def save(path, arr, *a, **k):
        _rec["save"](os.fspath(path), arr)

    def finish():
        _rec["finished"] += 1

    gg = Px("goggles", goggles, {"attach": lambda *a, **k: None, "ConsoleHandler": lambda *a, **k: None,
                                 "FileHandler": lambda *a, **k: None, "finish": finish,
                                 "get_logger": goggles.get_logger})
    plt = Px("matplotlib.pyplot", Anything(), {
        "imsave": save, "subplots": lambda *a, **k: (Fig(), Anything()), "figure": lambda *a, **k: Fig(),
        "savefig": lambda path, *a, **k: save(path, None), "close": lambda *a, **k: None})
    old = {k: sys.modules.get(k) for k in ("goggles", "matplotlib.pyplot")}
    sys.modules.update({"goggles": gg, "matplotlib.pyplot": plt})
    old_plt = getattr(matplotlib, "pyplot", None)
    matplotlib.pyplot = plt
    try:
        spec = importlib.util.spec_from_file_location("synthpix_main", os.path.join(env.REPO, "src", "main.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if old_plt is None:
            del matplotlib.pyplot
        else:
            matplotlib.pyplot = old_plt
    _main.append(m)
    return m


_rec = {}


def body_C22(cx, sc):
    from .stack import alive_threads

    d = env.dataset(make_data(sc), private=sc["unreadable"])
    main = main_module()
    np = env.np
    c, key = mk_config(sc, d)
    cfg = yaml_file(c)
    B = sc["combo"][0] if sc["real"] else nrows(sc["combo"])
    show, ans = sc["show"], list(sc["answers"])

    # what the pipeline yields, from a pipeline of its own without prefetching
    quiet, cx.io.quiet = cx.io.quiet, True
    want, ends = [], None
    limit = len(ans) + 1 if show else 10**6
    if not sc["unreadable"]:
        ref = mk_make(cx, dict(sc, buffer=0, yaml=False), d)
        while len(want) < limit:
            try:
                b = next(ref)
            except StopIteration:
                break
            want.append([np.array(b.images1), np.array(b.images2)])
    else:
        for f in d.files:
            env.corrupt(f, "garbage")
        cx.io.count("file_garbage")
    cx.io.quiet = quiet

    saved, asked, nsave = {}, [], [0]

    def save(path, arr):
        i = nsave[0]
        nsave[0] += 1
        cx.io.op("save", "save")
        if sc["kill"] == i:
            cx.io.count("interrupt_while_saving")
            raise KeyboardInterrupt
        if sc["savefault"] and sc["savefault"][0] == i:
            import errno

            cx.io.count("save_" + sc["savefault"][1])
            code = getattr(errno, sc["savefault"][1])
            raise OSError(code, os.strerror(code), path)
        saved[os.path.basename(path)] = None if arr is None else np.array(arr)
        if os.path.dirname(path) != "shots":
            cx.bad("elsewhere", f"{path} is not in the output directory")

    def ask(prompt=""):
        n = len(asked)
        asked.append(len(saved))
        if n >= len(ans):
            cx.bad("asked-on", f"question {n} although the answer before was {ans[-1]!r}")
            raise EOFError
        if sc["think"][n]:
            cx.pause(sc["think"][n])
        if ans[n] == "^D":
            raise EOFError
        if ans[n] == "^C":
            cx.io.count("interrupt_at_question")
            raise KeyboardInterrupt
        return ans[n]

    _rec.update(save=save, finished=0)
    main.input = ask
    main.print = lambda *a, **k: None
    _jit.update(key=key, n=0)
    t0 = cx.now()
    if sc["notxt"]:
        with open("shots", "w") as f:
            f.write("in the way")
    try:
        main.main(cfg, "shots", show)
        got = "done"
    except KeyboardInterrupt:
        got = "KeyboardInterrupt"
    except Exception as e:
        got = type(e).__name__
        if got not in ("OSError", "FileExistsError", "EOFError", "FileNotFoundError", "NotADirectoryError"):
            got += f": {str(e)[:150]}"
    finally:
        _jit["key"] = None
        import shutil

        if os.path.isdir("shots"):
            shutil.rmtree("shots")
        elif os.path.exists("shots"):
            os.unlink("shots")
    cx.log("main", round(t0, 4), round(cx.now(), 4), got, len(saved), len(asked))

    # the model: batch by batch, image by image
    exp, files, q, n, stop = "done", {}, 0, 0, False
    if sc["unreadable"]:
        # building the pipeline reads a file for its shape: failing there is an answer, too
        if saved or asked:
            cx.bad("made-up", f"{sorted(saved)} saved although no file can be read")
        exp = None
    for i, (a, b) in enumerate(want):
        for j in range(min(show, B)):
            if sc["notxt"]:
                exp, stop = "FileExistsError", True
                break
            for name, arr in (("image1", a[j]), ("image2", b[j]), ("quiver", None)):
                if sc["kill"] == n:
                    exp, stop = "KeyboardInterrupt", True
                elif sc["savefault"] and sc["savefault"][0] == n:
                    exp, stop = {"ENOENT": "FileNotFoundError"}.get(sc["savefault"][1], "OSError"), True
                if stop:
                    break
                files[f"batch_{i}_sample_{j}_{name}.png"] = arr
                n += 1
            if stop:
                break
        if stop or not show:
            if stop:
                break
            continue
        x = ans[q] if q < len(ans) else "^D"
        q += 1
        if x in ("^D", "^C"):
            exp = {"^D": "EOFError", "^C": "KeyboardInterrupt"}[x]
            break
        if x.lower() != "y":
            break
    cx.res.cover.add("ends-" + str(exp))
    if exp is not None:
        if got != exp:
            cx.bad("ended-otherwise", f"main() ended with {got}, expected {exp}")
            return
        if len(asked) != q:
            cx.bad("questions", f"{len(asked)} questions, expected {q}")
            return
        if sorted(saved) != sorted(files):
            miss, more = sorted(set(files) - set(saved))[:3], sorted(set(saved) - set(files))[:3]
            cx.bad("saved-files", f"not saved: {miss}; saved but not due: {more}")
            return
        for k, v in files.items():
            if v is not None and not (v.shape == saved[k].shape and np.array_equal(v, saved[k])):
                cx.bad("saved-image", f"{k} is not that image of the batch")
                return
        if exp == "done" and asked and asked != [3 * min(show, B) * (i + 1) for i in range(len(asked))]:
            cx.bad("asked-early", f"asked after {asked} saved files")
            return
    if not _rec["finished"] and exp is not None:
        cx.bad("logging-not-finished", "main() ended without finishing the logger")
        return
    cx.quiet()
    cx.pause(120.0)
    left = alive_threads(cx)
    if left and got != "done" and exp is None:
        left = []  # building the pipeline failed before there was a sampler to shut down
    if left:
        cx.bad("thread-leak", f"{len(left)} background threads outlive main(), which ended with {got}")
