"""Worlds around the file schedulers: C04, C07, C08, C09."""

import math
import os

from . import env, kernel as K
from .core import gen_sched, simulate

BIG = 10**6


# ---------------------------------------------------------------------------
# scenarios
# ---------------------------------------------------------------------------

def gen(prop, r, tier):
    sc = gen_sched(r, stalls=False, lats=("zero", "fast", "mixed"))
    g = globals()["gen_" + prop](r, sc)
    env.odd_names(r, g["data"])
    g["prop"] = prop
    return g


def gen_data(r, images=None, zero=False):
    kind = r.choice(["npy", "npy", "h5", "h5", "mat"])
    nd = r.choice([1, 1, 1, 2, 3])
    dirs = []
    for i in range(nd):
        ent = ["" if nd == 1 and r.random() < 0.6 else "abc"[i], r.randint(1, 5)]
        if kind == "h5":
            ent.append([r.choice([0, 1, 2, 3, 4] if zero else [1, 1, 2, 3, 4]) for _ in range(r.randint(1, 3))])
        dirs.append(ent)
    if r.random() < 0.03:  # far more of everything
        for ent in dirs:
            ent[1] = r.choice([3, 12, 35])
            if kind == "h5" and r.random() < 0.5:
                ent[2] = [r.choice([1, 2, 17]) for _ in range(r.randint(1, 3))]
    d = {"kind": kind, "dirs": dirs}
    if kind == "npy" and images:
        d["images"] = True
    if kind == "npy" and r.random() < 0.3:
        d["base"] = r.choice([7, 8, 9, 97, 98])
    if kind == "mat" and r.random() < 0.5:
        d["mat_fmt"] = "v73"
    return d


def nfiles(data):
    return sum(e[1] for e in data["dirs"])


def gen_list(r, data):
    """How the caller names the files: indices, or directories ("d<i>")."""
    n = nfiles(data)
    p = r.random()
    if p < 0.3:
        return None
    if p < 0.5:
        return ["d"] if any(e[0] == "" for e in data["dirs"]) else ["d%d" % i for i in range(len(data["dirs"]))]
    out = []
    for _ in range(r.randint(1, n + 3)):
        if out and r.random() < 0.25:
            out.append(out[-1])
        else:
            out.append(r.randrange(n))
    return out


def gen_layer(r, sc, p):
    sc["prefetch"] = r.random() < p
    sc["buffer"] = r.choice([1, 2, 4])
    sc["B"] = r.randint(1, 5)
    if sum(e[1] * max(e[2] if len(e) > 2 else [1]) for e in sc["data"]["dirs"]) > 20:
        sc["B"] = r.choice([1, 3, 8, 13, 32])
        sc["buffer"] = r.choice([1, 2, 4, 16])
        sc["step_limit"] = 1_000_000
    sc["key"] = r.randrange(1000)


ERRS = ["EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE", "MEM"]
DAMAGE = ["delete", "garbage", "truncate", "empty", "wrong"]


def gen_C07(r, sc):
    sc["images"] = r.random() < 0.45
    sc["data"] = gen_data(r, sc["images"], zero=True)
    if sc["data"]["kind"] == "h5":
        sc["images"] = False
    sc["list"] = gen_list(r, sc["data"])
    gen_layer(r, sc, 0.35)
    sc["randomize"] = r.random() < 0.25
    n = nfiles(sc["data"])

    def dmg():
        f = r.randrange(n)
        what = "img" if sc["images"] and sc["data"]["kind"] == "npy" and r.random() < 0.5 else "flow"
        if r.random() < 0.55:
            return ["damage", f, what, r.choice(DAMAGE)]
        return ["fault", f, what, r.choice(ERRS), r.choice([1, 1, 2, BIG])]

    ops = []
    for _ in range(r.randint(1, 3)):
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            ops.append(dmg())
        if r.random() < 0.3:
            for _ in range(r.randint(1, 3)):
                ops.append(["get"])
            ops.append(r.choice([dmg(), ["heal"]]))
        if r.random() < 0.7:
            ops.append(["drain"])
        ops.append(["reset"])
        if r.random() < 0.2:  # with another file list
            ops[-1].append([r.randrange(n) for _ in range(r.randint(1, n + 2))])
        if r.random() < 0.5:
            ops.append(["heal"])
    ops.append(["drain"])
    sc["ops"] = ops
    return sc


def gen_C08(r, sc):
    sc["images"] = False
    sc["data"] = gen_data(r, False, zero=r.random() < 0.3)
    if sc["data"]["kind"] == "h5" and not any(s for e in sc["data"]["dirs"] for s in e[2][:e[1]]):
        sc["data"]["dirs"][0][2] = [1]
    sc["list"] = gen_list(r, sc["data"])
    gen_layer(r, sc, 0.4)
    sc["randomize"] = r.random() < 0.6
    sc["npasses"] = r.randint(1, 6)
    if r.random() < 0.02 and nfiles(sc["data"]) <= 6:
        sc["npasses"] = r.choice([15, 40])
        sc["step_limit"] = 1_000_000
    ops = []
    for _ in range(r.randint(0, 2)):
        ops.append(["gets", r.randint(0, 8)])
        ops.append(["reset"])
    sc["ops"] = ops
    sc["latefault"] = ([r.randrange(nfiles(sc["data"])), r.choice(ERRS), r.randint(1, 2)]
                       if r.random() < 0.25 and not sc["randomize"] else None)
    return sc


def gen_C09(r, sc):
    epi = r.random() < 0.3
    sc["images"] = False
    if epi:
        sc["data"] = {"kind": "mat", "dirs": [["a", r.randint(2, 4)]] + ([["b", r.randint(2, 4)]] if r.random() < 0.5 else []),
                      "mat_fmt": r.choice(["v5", "v73"])}
        sc["T"] = r.randint(1, 2)
        sc["list"] = None
    else:
        sc["images"] = r.random() < 0.3
        sc["data"] = gen_data(r, sc["images"])
        if sc["data"]["kind"] == "h5":
            sc["images"] = False
        sc["T"] = 0
        sc["list"] = gen_list(r, sc["data"])
    gen_layer(r, sc, 0.5)
    sc["timeout"] = 30.0
    sc["loop"] = r.random() < 0.75
    sc["randomize"] = r.random() < 0.3
    how = r.choice(["fault"] * 2 + ["delete", "garbage", "truncate", "empty", "wrong"])
    if sc["data"]["kind"] == "h5" and r.random() < 0.3:
        how = "noslice"
    if sc["images"] and sc["data"]["kind"] == "npy" and r.random() < 0.5:
        how = "imgs"
    sc["how"] = how
    sc["err"] = r.choice(ERRS)
    ops = []
    for _ in range(r.choice([0, 0, 1, 3])):
        ops.append(["get"])
    ops.append(["break"])
    for _ in range(r.randint(1, 6)):
        ops.append(r.choice([["get"], ["get"], ["get"], ["reset"], ["pause", 3.0]]
                            + ([["next"]] if epi else []) + ([["shutdown"]] if sc["prefetch"] else [])))
    ops += [["get"]] * 2
    sc["ops"] = ops
    return sc


def gen_C04(r, sc):
    nd = r.randint(1, 4)
    T = r.randint(1, 4)
    base = r.choice(["", "", "x/"])
    dirs = [[base + "abcd"[i] if r.random() < 0.7 else base + "n/" + "abcd"[i], T + r.choice([0, 0, 1, 2, 3])] for i in range(nd)]
    sc["data"] = {"kind": "mat", "dirs": dirs, "mat_fmt": r.choice(["v5", "v5", "v73"])}
    sc["images"] = r.random() < 0.4
    sc["T"] = T
    gen_layer(r, sc, 0.3)
    sc["B"] = r.randint(1, 6)
    if r.random() < 0.03:  # long episodes of many rows
        T = sc["T"] = r.choice([5, 9, 17])
        sc["data"]["dirs"] = [[x, T + r.choice([0, 1, 3, 8])] for x, _ in dirs]
        sc["B"] = r.choice([1, 3, 9, 16])
        sc["step_limit"] = 1_000_000
    sc["ekey"] = r.randrange(1000)
    sc["randomize"] = r.random() < 0.3
    sc["loop"] = r.random() < 0.4
    sc["list"] = None
    sc["dirlist"] = r.random() < 0.4
    ops = []
    if r.random() < 0.04:
        # few admissible starts, very many episodes: each start must come up
        T = sc["T"] = r.randint(1, 3)
        n = r.randint(1, 3)
        sc["data"]["dirs"] = [[x, T + r.choice([0, 0, 1])] for x, _ in dirs[:n]]
        S = sum(k - T + 1 for _, k in sc["data"]["dirs"])
        sc["B"] = r.randint(4, 7)
        sc["cover"] = True
        sc["step_limit"] = 600_000
        for i in range(-(-45 * S // sc["B"])):
            if i:
                ops.append([r.choice(["next", "next", "next", "reset"])])
            ops += [["get"]] * r.choice([1, 1, 1, T])
        sc["ops"] = ops
        return sc
    for _ in range(r.randint(1, 6)):
        for _ in range(r.choice([0, T, T, T + 1, r.randint(0, T)])):
            ops.append(["get"])
        ops.append(r.choice([["next"], ["next"], ["next"], ["reset"], ["pause", r.choice([0.1, 3.0])]]))
    for _ in range(T + 1):
        ops.append(["get"])
    sc["ops"] = ops
    if not sc["loop"] and not sc["randomize"] and r.random() < 0.04:
        sc["unreadable"] = True
        sc["file"] = r.randrange(nfiles(sc["data"]))
    return sc


# ---------------------------------------------------------------------------
# helpers
# ---------------------------------------------------------------------------

def run(sc, seed=None, replay=None):
    return simulate(sc, lambda cx: globals()["body_" + sc["prop"]](cx, sc), seed, replay)


def names(d, sc):
    """-> (file_list argument, the entries it stands for, in order)"""
    lst = sc.get("list")
    if lst is None:
        return list(d.files), list(d.files)
    args, ents = [], []
    for x in lst:
        if isinstance(x, int):
            args.append(d.files[x % len(d.files)])
            ents.append(args[-1])
            continue
        i = int(x[1:] or -1)
        if i < 0:
            args.append(d.root)
            sub = d.files if d.kind != "npy" else [f for f in d.files if os.path.dirname(f) == d.root]
        else:
            name = sc["data"]["dirs"][i][0]
            dd = os.path.join(d.root, name)
            args.append(dd)
            sub = [f for f in d.files if os.path.dirname(f) == dd]
        ents += sorted(sub)
    return args, ents


class NoFiles(Exception):
    pass


def build(cx, sc, d, args, **kw):
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler

    k = dict(randomize=sc.get("randomize", False), loop=sc.get("loop", False), key=jax.random.PRNGKey(sc["key"]))
    if sc.get("images"):
        k["include_images"] = True
    k.update(kw)
    s = env.make_base(d, sc["data"]["kind"], args, **k)
    if sc.get("T"):
        s = EpisodicFlowFieldScheduler(s, batch_size=sc["B"], episode_length=sc["T"],
                                       key=jax.random.PRNGKey(sc.get("ekey", 0)))
    if sc.get("prefetch"):
        # deadlines far beyond any simulated delay: a StopIteration is the end of the stream
        s = PrefetchingFlowFieldScheduler(s, batch_size=sc["B"], buffer_size=sc["buffer"],
                                          startup_timeout=sc.get("timeout", 500.0),
                                          steady_state_timeout=sc.get("timeout", 500.0))
    return s


def call(cx, what, fn):
    from synthpix.scheduler.protocol import EpisodeEnd

    t0 = cx.now()
    try:
        out = fn()
    except StopIteration:
        out = ["stop"]
    except EpisodeEnd:
        out = ["ee"]
    except Exception as e:
        out = ["exc", type(e).__name__, str(e)[:160]]
    cx.log(what, round(t0, 4), round(cx.now(), 4), out if out[0] != "b" else ["b", out[2]])
    return out


def getter(s, d, B):
    def f():
        b = s.get_batch(B)
        return ["b", b, env.rows(d, b)]

    return f


def check_batch(cx, d, b, ids, B, images, full=False):
    """Everything one batch must satisfy by itself. -> real rows, or None if bad."""
    np = env.np
    if len(ids) != B:
        cx.bad("batch-size", f"batch of {len(ids)} rows instead of {B}")
        return None
    if b.mask is None or len(b.mask) != B or b.files is None or len(b.files) != B:
        cx.bad("metadata", f"mask or files missing or of wrong length: {b.mask} {b.files}")
        return None
    mask = [bool(x) for x in np.asarray(b.mask)]
    n = sum(mask)
    if mask != [True] * n + [False] * (B - n):
        cx.bad("mask", f"mask {mask} is not a prefix")
        return None
    if n == 0:
        cx.bad("empty-batch", "a batch without a single sample was served")
        return None
    if full and n < B:
        cx.bad("short-batch", f"only {n} of {B} rows are real although the data loops")
        return None
    if images != (b.images1 is not None) or images != (b.images2 is not None):
        cx.bad("images", f"images requested: {images}, present: {b.images1 is not None}, {b.images2 is not None}")
        return None
    for i in range(B):
        if i < n:
            if ids[i] == "?" or ids[i] == "PAD":
                cx.bad("foreign-data", f"row {i} holds data of no file ({ids[i]})")
                return None
            if os.path.normpath(b.files[i]) != os.path.normpath(ids[i][0]):
                cx.bad("file-name", f"row {i} is named {b.files[i]} but holds {ids[i]}")
                return None
            if images:
                w = d.images[ids[i][0]]
                for im, want in ((b.images1[i], w[0]), (b.images2[i], w[1])):
                    if not np.array_equal(np.asarray(im), want):
                        cx.bad("image-of-other-sample", f"row {i} holds {ids[i]} but another file's image")
                        return None
        else:
            if ids[i] != "PAD" or b.files[i] != "":
                cx.bad("padding", f"padded row {i} holds {ids[i]} named {b.files[i]!r}")
                return None
            if images and (np.asarray(b.images1[i]).any() or np.asarray(b.images2[i]).any()):
                cx.bad("padding", f"padded row {i} holds an image")
                return None
    return ids[:n]


def groups(d, seq):
    """Cut a row sequence into files: -> [(path, nslices)] or an error text."""
    out = []
    i = 0
    while i < len(seq):
        p = seq[i][0]
        n = len(d.slices[p])
        want = [(p, j) for j in range(n)]
        if [tuple(x) for x in seq[i:i + n]] != want:
            return None, f"rows {seq[i:i + n]} are not the {n} slices of {p} in order"
        out.append(p)
        i += n
    return out, None


# ---------------------------------------------------------------------------
# damage
# ---------------------------------------------------------------------------

class Disk:
    """The simulated health of each file of a private data set."""

    def __init__(self, cx, d, images):
        self.cx = cx
        self.d = d
        self.orig = {f: env.save_bytes(f) for f in d.files}
        self.needs = {}  # flow file -> image files it needs
        if images and d.kind == "npy":
            for f in d.files:
                dd, t = os.path.dirname(f), int(os.path.basename(f)[5:-4])
                self.needs[f] = [os.path.join(dd, f"img_{t - 1}.jpg"), os.path.join(dd, f"img_{t}.jpg")]
                for im in self.needs[f]:
                    self.orig.setdefault(im, env.save_bytes(im))
        self.broken = set()
        self.was_broken = set()  # at some time in this window
        self.was_whole = set(self.orig)
        self.window()

    def window(self):
        self.was_broken = set(self.broken) | {p for p, f in self.cx.io.faults.items() if f.get("n", 0) >= 1}
        perm = {p for p, f in self.cx.io.faults.items() if f.get("n", 0) >= BIG}
        self.was_whole = {p for p in self.orig if p not in self.broken and p not in perm}

    def break_(self, path, how):
        if path in self.broken:
            return
        if how == "wrong":
            wrong_content(self.d, path)
        else:
            env.corrupt(path, how)
        self.cx.io.count("file_" + how)
        self.broken.add(path)
        self.was_broken.add(path)

    def fault(self, path, err, n):
        self.cx.io.faults[env.norm(path)] = {"err": err, "n": n}
        self.was_broken.add(path)
        if n < BIG and path not in self.broken:
            self.was_whole.add(path)

    def heal(self):
        for p in sorted(self.broken):
            env.heal(p, self.orig[p])
        if self.broken or self.cx.io.faults:
            self.cx.io.count("disk_healed")
        self.broken.clear()
        self.cx.io.faults.clear()
        self.was_whole = set(self.orig)

    def parts(self, f):
        return [f] + self.needs.get(f, [])

    def must(self, f):
        return not any(p in self.was_broken for p in self.parts(f))

    def may(self, f):
        return all(p in self.was_whole for p in self.parts(f))


def wrong_content(d, path):
    """A well-formed file of the right type that does not hold a sample."""
    import h5py
    import scipy.io
    from PIL import Image  # noqa: F401

    tmp = path + ".tmp_wrong"
    env._bypass += 1
    try:
        if path.endswith(".npy"):
            with open(tmp, "wb") as f:
                env.np.save(f, env.np.array([{"a": 1}], dtype=object), allow_pickle=True)
        elif path.endswith(".h5"):
            with h5py.File(tmp, "w") as f:
                f.create_group("data")
        elif path.endswith(".mat"):
            with open(tmp, "wb") as f:
                scipy.io.savemat(f, {"W": env.np.zeros((2, 2))})
        else:
            with open(tmp, "wb") as f:
                f.write(b"\xff\xd8\xff\xe0 not an image")
    finally:
        env._bypass -= 1
    os.replace(tmp, path)


# ---------------------------------------------------------------------------
# C07
# ---------------------------------------------------------------------------

def match_pass(d, ents, seq, disk, ordered, complete):
    """Is the row sequence a legal (prefix of a) pass? -> error text or None"""
    g, err = groups(d, seq) if complete else groups_prefix(d, seq)
    if err:
        return err
    if not ordered:
        left = {}
        for e in ents:
            if d.slices[e]:
                left[e] = left.get(e, 0) + 1
        for p in g:
            if left.get(p, 0) == 0:
                return f"{p} is served more often than it is listed"
            if not disk.may(p):
                return f"{p} is served although it was unreadable all the time"
            left[p] -= 1
        if complete:
            for p, n in left.items():
                if n and disk.must(p):
                    return f"{p} is readable but {n} listed entries of it were not served"
        return None
    i = 0
    for e in ents:
        if not d.slices[e]:
            continue
        if i < len(g) and g[i] == e and disk.may(e):
            i += 1
        elif i >= len(g) and not complete:
            break
        elif disk.must(e):
            return f"entry {e} is readable but was not served in its turn (served {g}, listed {ents})"
    if i < len(g):
        return f"{g[i]} is served out of turn, twice, or although unreadable (served {g}, listed {ents})"
    return None


def groups_prefix(d, seq):
    g, err = groups(d, seq)
    if err is None:
        return g, None
    # the last file may be incomplete: drop its rows
    for n in range(1, min(len(seq), max(len(x) for x in d.slices.values())) + 1):
        tail = seq[len(seq) - n:]
        if tail[0][1] == 0 and all(x[0] == tail[0][0] for x in tail) and [x[1] for x in tail] == list(range(n)):
            if n < len(d.slices[tail[0][0]]):
                g, e2 = groups(d, seq[:len(seq) - n])
                if e2 is None:
                    return g, None
    return None, err


def body_C07(cx, sc):
    d = env.dataset(sc["data"], private=True)
    args, ents = names(d, sc)
    if not ents:
        return
    disk = Disk(cx, d, sc["images"])
    s = build(cx, sc, d, args)
    seq, over = [], False
    bad = False
    if len(set(ents)) < len(ents):
        cx.res.cover.add("repeated-entries")

    def get():
        nonlocal over, bad
        out = call(cx, "get", getter(s, d, sc["B"]))
        if out[0] == "b":
            if over:
                cx.bad("batch-after-end", f"batch {out[2]} after the end of the pass")
                bad = True
                return
            real = check_batch(cx, d, out[1], out[2], sc["B"], sc["images"])
            if real is None:
                bad = True
                return
            seq.extend(real)
            if len(real) < sc["B"]:
                over = True
                cx.res.cover.add("padded-batch")
        elif out[0] == "stop":
            over = True
        else:
            cx.bad("exception", f"get_batch raised {out[1:]} instead of skipping the file")
            bad = True

    for op in sc["ops"]:
        if op[0] == "get":
            get()
        elif op[0] == "drain":
            for _ in range(len(ents) * max(4, max(len(x) for x in d.slices.values())) + 4):
                get()
                if bad or over:
                    break
            if bad:
                break
            if not over:
                cx.bad("endless", "the pass does not end")
                break
            for _ in range(2):
                out = call(cx, "get", getter(s, d, sc["B"]))
                if out[0] != "stop":
                    cx.bad("batch-after-end", f"get_batch after the end of the pass gave {out[0]}")
                    bad = True
                    break
        elif op[0] == "damage":
            f = d.files[op[1] % len(d.files)]
            disk.break_(disk.parts(f)[1 if op[2] == "img" and len(disk.parts(f)) > 1 else 0], op[3])
        elif op[0] == "fault":
            f = d.files[op[1] % len(d.files)]
            disk.fault(disk.parts(f)[1 if op[2] == "img" and len(disk.parts(f)) > 1 else 0], op[3], op[4])
        elif op[0] == "heal":
            disk.heal()
        elif op[0] == "reset":
            if not bad:
                err = match_pass(d, ents, seq, disk, not sc["randomize"], over)
                if err:
                    cx.bad("pass", err)
                    bad = True
            if len(op) > 1:
                ents = [d.files[i % len(d.files)] for i in op[1]]
                s.file_list = list(ents)
                if [env.norm(f) for f in s.file_list] != [env.norm(f) for f in ents]:
                    cx.bad("file-list", f"file_list is {s.file_list} after {ents} was assigned to it")
                cx.res.cover.add("new-file-list")
            out = call(cx, "reset", lambda: ["ok", s.reset()])
            if out[0] != "ok":
                cx.bad("exception", f"reset raised {out[1:]}")
                bad = True
            seq, over = [], False
            disk.window()
        if bad:
            break
    if not bad:
        err = match_pass(d, ents, seq, disk, not sc["randomize"], over)
        if err:
            cx.bad("pass", err)
    if sc["prefetch"]:
        s.shutdown()


# ---------------------------------------------------------------------------
# C08
# ---------------------------------------------------------------------------

def body_C08(cx, sc):
    d = env.dataset(sc["data"], private=bool(sc["latefault"]))
    args, ents = names(d, sc)
    cyc = [e for e in ents if d.slices[e]]
    if not cyc:
        return
    B = sc["B"]
    N = sum(len(d.slices[e]) for e in cyc)

    late = sc["latefault"]
    if late and not set(cyc) - {d.files[late[0] % len(d.files)]}:
        late = None  # a pass without any loadable file ends the stream (C09)

    def stream(key, ops, faults):
        """Rows served from the last reset on, for a scheduler with this key."""
        sc2 = dict(sc, key=key)
        s = build(cx, sc2, d, args, loop=True)
        if faults:
            f = d.files[faults[0] % len(d.files)]
            cx.io.faults[env.norm(f)] = {"err": faults[1], "n": faults[2]}
        seq = []
        segs = [seq]
        todo = list(ops) + [["gets", math.ceil(N * sc["npasses"] / B) + 1]]
        for op in todo:
            if op[0] == "reset":
                out = call(cx, "reset", lambda: ["ok", s.reset()])
                if out[0] != "ok":
                    cx.bad("exception", f"reset raised {out[1:]}")
                    return None
                seq = []
                segs.append(seq)
                continue
            for _ in range(op[1]):
                out = call(cx, "get", getter(s, d, B))
                if out[0] != "b":
                    cx.bad("stream-ended", f"a looping scheduler gave {out} after {len(seq)} rows")
                    return None
                real = check_batch(cx, d, out[1], out[2], B, False, full=True)
                if real is None:
                    return None
                seq.extend(real)
        if sc["prefetch"]:
            s.shutdown()
        return segs

    segs = stream(sc["key"], sc["ops"], late)
    if segs is None:
        return
    may = set()
    if late:
        may.add(d.files[late[0] % len(d.files)])
    orders = []
    for seq in segs:
        g, err = groups_prefix(d, seq)
        if err:
            cx.bad("slices", err)
            return
        if not sc["randomize"]:
            j = 0
            for p in g:
                n = 0
                while cyc[j % len(cyc)] != p and cyc[j % len(cyc)] in may and n < 3 * len(cyc):
                    j += 1
                    n += 1
                if cyc[j % len(cyc)] != p:
                    cx.bad("order", f"{p} served where {cyc[j % len(cyc)]} is due (served {g}, list {cyc})")
                    return
                j += 1
            continue
        for i in range(0, len(g) - len(cyc) + 1, len(cyc)):
            one = g[i:i + len(cyc)]
            if sorted(one) != sorted(cyc):
                cx.bad("not-a-permutation", f"pass {i // len(cyc)} serves {one}, the list is {cyc}")
                return
            orders.append(tuple(one))
        rest = g[len(g) // len(cyc) * len(cyc):]
        left = list(cyc)
        for p in rest:
            if p not in left:
                cx.bad("not-a-permutation", f"{p} is repeated within one pass: {rest}, the list is {cyc}")
                return
            left.remove(p)
    if sc["randomize"] and not late:
        # number of distinguishable orders of the list
        ways = math.factorial(len(cyc))
        for e in set(cyc):
            ways //= math.factorial(cyc.count(e))
        if len(orders) > 1 and (len(orders) - 1) * math.log(ways) > 30 and len(set(orders)) == 1:
            cx.bad("not-redrawn", f"{len(orders)} passes all have the order {orders[0]}")
            return
        cx.res.cover.add("randomized")
        segs2 = stream(sc["key"], sc["ops"], None)
        if segs2 is None:
            return
        if segs2 != segs:
            cx.bad("key", "the same key and calls give another order")
            return
        n = len(orders)
        if n * math.log(ways) > 30:
            segs3 = stream(sc["key"] + 1, sc["ops"], None)
            if segs3 is not None and segs3 == segs:
                cx.bad("key", f"keys {sc['key']} and {sc['key'] + 1} give the same {n} orders")


# ---------------------------------------------------------------------------
# C09
# ---------------------------------------------------------------------------

def body_C09(cx, sc):
    data = dict(sc["data"])
    if sc["how"] == "noslice":
        data["dirs"] = [[e[0], e[1], [0]] for e in data["dirs"]]
    d = env.dataset(data, private=True)
    args, ents = names(d, sc)
    if not ents:
        return
    disk = Disk(cx, d, sc["images"])
    s = build(cx, sc, d, args)
    B = sc["B"]
    broken = sc["how"] == "noslice"
    since = 0
    # a cached file may be listed several times in a row
    most = sum(len(d.slices[e]) for e in ents) * (1 if len(set(ents)) > 1 else 1000)
    # rows that may still be around after the break: cached file, prefetched batches
    slack = (most + B) // B + 1 + (sc["buffer"] + 2 if sc["prefetch"] else 0) + (2 if sc["T"] else 0)
    limit = 40.0 + 30 * len(ents)

    def get():
        nonlocal since
        l0 = cx.io.ops
        t0 = cx.now()
        out = call(cx, "get", getter(s, d, B))
        if out[0] == "ee":
            o2 = call(cx, "next", lambda: ["ok", s.next_episode()])
            return o2[0] in ("ok", "stop", "exc")
        if cx.now() - t0 > limit:
            cx.bad("slow", f"get_batch took {cx.now() - t0:.0f}s of simulated time")
            return False
        if broken:
            since += 1
            if out[0] == "b" and since > slack:
                cx.bad("batch-from-nothing", f"a batch {out[2]} although nothing can be loaded")
                return False
            n = cx.io.ops - l0
            # (a MAT file is tried with two decoders, an image pair takes two reads)
            if n > 8 * (len(ents) + 2) * (B + 1) * (sc["buffer"] + 2 if sc["prefetch"] else 1):
                cx.bad("attempts", f"{n} load attempts in one call for a list of {len(ents)} entries")
                return False
        return True

    for op in sc["ops"]:
        if op[0] == "get":
            if not get():
                return
        elif op[0] == "pause":
            cx.pause(op[1])
        elif op[0] == "break":
            broken = True
            since = 0
            cx.io.count("all_files_unreadable")
            if sc["how"] == "noslice":
                continue
            for f in d.files:
                if sc["how"] == "fault":
                    disk.fault(f, sc["err"], BIG)
                elif sc["how"] == "imgs":
                    for im in disk.parts(f)[1:]:
                        if im not in disk.broken:
                            disk.break_(im, "delete")
                else:
                    disk.break_(f, sc["how"])
        else:
            fn = {"reset": s.reset, "next": getattr(s, "next_episode", None), "shutdown": getattr(s, "shutdown", None)}[op[0]]
            t0 = cx.now()
            call(cx, op[0], lambda: ["ok", fn()])
            if cx.now() - t0 > limit:
                cx.bad("slow", f"{op[0]} took {cx.now() - t0:.0f}s of simulated time")
                return
    if sc["how"] == "noslice":
        return
    disk.heal()
    out = call(cx, "reset", lambda: ["ok", s.reset()])
    if out[0] != "ok":
        cx.bad("no-recovery", f"reset on the repaired disk raised {out[1:]}")
        return
    out = call(cx, "get", getter(s, d, B))
    if out[0] != "b":
        cx.bad("no-recovery", f"after the disk was repaired and reset, get_batch gave {out}")
    if sc["prefetch"]:
        s.shutdown()


# ---------------------------------------------------------------------------
# C04
# ---------------------------------------------------------------------------

def body_C04(cx, sc):
    d = env.dataset(sc["data"])
    B, T = sc["B"], sc["T"]
    bydir = {}
    for f in d.files:
        bydir.setdefault(os.path.dirname(f), []).append(f)
    for v in bydir.values():
        v.sort()
    args = sorted(bydir) if sc["dirlist"] else list(d.files)
    s = build(cx, sc, d, args)
    t = 0
    first = None
    drawn, rows = set(), 0
    if sc.get("unreadable"):
        disk = Disk(cx, d, sc["images"])
        disk.fault(d.files[sc["file"] % len(d.files)], "EIO", BIG)
    if s.episode_length != T:
        cx.bad("episode-length", f"episode_length is {s.episode_length}, not {T}")

    def remaining(when):
        r = s.steps_remaining()
        if r != T - t:
            cx.bad("steps-remaining", f"steps_remaining() is {r} {when}, but {T - t} batches of the episode are to come")
            return False
        return True

    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif op[0] in ("next", "reset"):
            out = call(cx, op[0], lambda: ["ok", s.next_episode() if op[0] == "next" else s.reset()])
            if out[0] != "ok":
                cx.bad("exception", f"{op[0]} raised {out}")
                break
            t = 0
            if not remaining(f"after {op[0]}"):
                break
        else:
            out = call(cx, "get", getter(s, d, B))
            if t == T:
                if out[0] != "ee":
                    cx.bad("overrun", f"get_batch after {T} steps gave {out[0]} instead of EpisodeEnd")
                    break
                if not remaining("after EpisodeEnd"):
                    break
                continue
            if out[0] != "b":
                if not sc.get("unreadable"):
                    cx.bad("short-episode", f"step {t} of {T} gave {out}")
                break
            real = check_batch(cx, d, out[1], out[2], B, sc["images"], full=not sc.get("unreadable"))
            if real is None:
                break
            if sc.get("unreadable") and (len(real) < B or out[0] != "b"):
                break
            pos = []
            for p, _ in real:
                dd = os.path.dirname(p)
                pos.append((dd, bydir[dd].index(p)))
            if t == 0:
                first = pos
                drawn.update(pos)
                rows += B
                if len(set(pos)) < B:
                    cx.res.cover.add("rows-share-start")
                for dd, i in pos:
                    if i + T > len(bydir[dd]) and not sc.get("unreadable"):
                        cx.bad("start", f"episode of {T} steps starts at file {i} of {len(bydir[dd])} in {dd}")
            else:
                want = [(dd, i + t) for dd, i in first]
                if pos != want:
                    cx.bad("unreadable-file-shifts-rows" if sc.get("unreadable") else "misaligned", f"step {t}: rows are {pos}, expected {want}")
                    break
            t += 1
            if not remaining(f"after step {t}"):
                break
    missing = sorted((dd, i) for dd, v in bydir.items() for i in range(len(v) - T + 1) if (dd, i) not in drawn)
    starts = len(missing) + len(drawn)
    if sc.get("cover") and not cx.res.viol and rows >= 40 * starts:
        cx.res.cover.add("starts-covered")
        if missing:
            cx.bad("start-never-drawn", f"{len(drawn)} of {starts} admissible starts came up in {rows} rows of episodes; "
                                        f"never {missing[:4]}")
    if sc["prefetch"]:
        s.shutdown()
