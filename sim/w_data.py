"""Worlds around data files that scripts read and write: C20 (speed panel), C21 (data set preparation)."""

import io
import json
import os
import shutil
import struct
import sys
import types
import zipfile

from . import disk as D, env, w_disk
from .core import MALFORMED, malformed
from .w_disk import Run, blob, gen_fault, plain, quiet, read

RealFile = None


def prepare(prop):
    global RealFile
    w_disk.prepare(prop)
    import h5py

    RealFile = h5py.File
    h5py.File = sim_file(h5py)
    w_disk.install_stubs()
    install_tf()


def gen(prop, r, tier):
    sc = globals()["gen_" + prop](r)
    sc["prop"] = prop
    return sc


def run(sc, seed=None, replay=None):
    w = Run(sc)
    try:
        real = globals()["run_" + sc["prop"]](w, sc)
    except MALFORMED as e:  # what the code left cannot even be looked at
        real = []
        if not w.res.viol:
            w.res.viol.append(malformed(e, w.vtime))
    finally:
        D.CUR = None
    return w.done(real)


def sim_file(h5py):
    """h5py.File over the simulated disk: HDF5 itself works in memory, the bytes pass the seam."""

    class File(h5py.File):
        _raw = None

        def __init__(self, name, mode="r", *a, **k):
            d = CUR()
            if d is None or not isinstance(name, (str, bytes, os.PathLike)):
                super().__init__(name, mode, *a, **k)
                return
            if d.dead:
                raise D.Dead()
            p = os.fspath(name)
            if mode == "r" or d.mine(p) is None:
                if os.path.exists(p):
                    d.op("read", p)
                super().__init__(name, mode, *a, **k)
                return
            if mode in ("w-", "x") and os.path.exists(p):
                raise FileExistsError(17, "Unable to create file", p)
            old = mode in ("a", "r+") and os.path.exists(p)
            self._buf = io.BytesIO(read(p) if old else b"")
            self._raw = D.sim_open(p, "rb+" if old else "wb", buffering=0)
            try:
                super().__init__(self._buf, "r+" if old else "w", *a, **k)
            except BaseException:
                io.FileIO.close(self._raw)
                raise

        def close(self):
            raw = self._raw
            super().close()
            if raw is None or raw.closed:
                return
            self._raw = None
            b = self._buf.getvalue()
            try:
                raw.seek(0)
                step = max(700, len(b) // 4)
                i = 0
                while i < len(b):
                    i += raw.write(b[i:i + step])
                raw.close()
            finally:
                if not raw.closed:
                    io.FileIO.close(raw)

    return File


def CUR():
    return D.CUR


class Tree:
    """What the data files below a directory hold, looked at again only when they change."""

    def __init__(self, top, skip=()):
        self.top = top
        self.skip = skip
        self.known = {}

    def look(self):
        out = {}
        self.scan(self.top, out)
        return out

    def scan(self, top, out):
        if not os.path.isdir(top):
            return
        with os.scandir(top) as it:
            for e in it:
                p = e.path
                if e.is_dir():
                    if p not in self.skip:
                        self.scan(p, out)
                elif p.endswith(".mat"):
                    st = e.stat()
                    tag = (st.st_ino, st.st_size, st.st_mtime_ns)
                    if self.known.get(p, (None,))[0] != tag:
                        self.known[p] = (tag, self.decode(p))
                    out[p[len(self.top) + 1:]] = self.known[p][1]

    def watch(self, ok, ill):
        """-> a function to call between disk operations, noting the first file that is not ok"""
        last = [""]

        def snap(i, kind):
            was, last[0] = last[0], kind
            if ill or was in ("read", "chmod"):
                return
            for p, v in self.look().items():
                if not ok(p, v):
                    ill.append((i, kind, p, v))
                    break

        return snap

    def decode(self, p):
        np = env.np
        try:
            with RealFile(p, "r") as f:
                return tuple((k, str(f[k].shape), np.asarray(f[k][...], dtype="float64").tobytes()) for k in ("V", "I0", "I1"))
        except Exception as e:  # noqa: BLE001
            return ("broken", type(e).__name__, os.path.getsize(p))


def value(V, I0, I1):
    np = env.np
    return tuple((k, str(a.shape), np.asarray(a, dtype="float64").tobytes()) for k, a in (("V", V), ("I0", I0), ("I1", I1)))


# ---------------------------------------------------------------------------
# C20: the speed panel
# ---------------------------------------------------------------------------

SPEEDS = ["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"]
BAD = ["trunc", "garbage", "empty", "missing", "group", "nokeys", "shape", "nan", "notname", "dir", "zero", "inf"]


def gen_C20(r):
    files = []
    for _ in range(r.randint(1, 4) if r.random() < 0.97 else r.randint(11, 40)):
        files.append({"fmt": r.choice(["4d", "4d", "3d"]), "dims": [r.randint(1, 3) for _ in range(3)],
                      "dt": r.choice(["float32", "float64", "float32", "int16"]), "v": r.randrange(1 << 20),
                      "sign": r.choice([0, 0, 1, -1]), "scale": r.choice([1.0, 1.0, 1e-3, 1e6]),
                      "bad": None})
    if r.random() < 0.35:
        for f in r.sample(files, r.randint(1, min(2, len(files)))):
            f["bad"] = r.choice(BAD)
    order = [r.randrange(len(files)) for _ in range(r.choice([len(files), len(files), 1, 6]))]
    if r.random() < 0.7:
        order = list(range(len(files))) + order[:r.choice([0, 0, 2])]
        r.shuffle(order)
    have = {k: r.choice([1.5, 2, -3.25, 0, None, "fast", True]) for k in SPEEDS if r.random() < r.choice([0.0, 0.5, 0.95])}
    if r.random() < 0.15:
        have = {k: r.choice([1.5, 2, -3.25, 0, 0.0]) for k in SPEEDS}
    ops = []
    for _ in range(r.randint(1, 4)):
        fault = None
        if r.random() < 0.6:
            fault = gen_fault(r, ["kill", "kill_torn", "power", "power", "ENOSPC", "EIO", "EIO", "EIO", "short", "INT"])
        heal = r.random() < 0.25
        ops.append([r.choice([["1", "y"]] * 6 + [["1", "Y"], ["1", "n"], ["1", ""], ["1"], ["2"], ["x"], [""], []]), fault, heal])
    check = r.random() < 0.08
    if check and r.random() < 0.7:
        ops = []
        for f in files:
            f["fmt"] = "4d"
    return {"samples": files, "order": order, "have": have, "extra": [["seed", 3], ["output_units", "pixels"]],
            "first": r.random() < 0.3, "ops": ops, "empty": r.random() < 0.03, "check": check}


IMAGING = {"batch_size": 1, "flow_fields_per_batch": 1, "batches_per_flow_batch": 1, "image_shape": [8, 8], "dt": 1e-9,
           "img_offset": [2.0, 2.0], "seeding_density_range": [0.1, 0.1], "p_hide_img1": 0.0, "p_hide_img2": 0.0,
           "diameter_ranges": [[0.8, 1.2]], "diameter_var": 0.0, "intensity_ranges": [[80, 200]], "intensity_var": 0.0,
           "rho_ranges": [[-0.2, 0.2]], "rho_var": 0.0, "noise_uniform": 0.0, "noise_gaussian_mean": 0.0,
           "noise_gaussian_std": 0.0, "flow_field_size": [64.0, 64.0], "resolution": 1.0, "velocities_per_pixel": 1.0,
           "device_ids": [0]}


def command_line(w, sc, cfg, answers):
    """python -m synthpix.sanity --config CFG, without faults. -> how it ended"""
    from synthpix import sanity

    it = iter(answers)
    keep, argv = D.builtins.input, sys.argv
    D.builtins.input = lambda *a: next(it)
    sys.argv = ["sanity", "--config", cfg]
    try:
        with quiet():
            sanity.main()
        return "accepted"
    except SystemExit as e:
        return f"exit {e.code}"
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {str(e)[:100]}"
    finally:
        D.builtins.input, sys.argv = keep, argv


def flow_array(f):
    np = env.np
    h, w, b = f["dims"]
    rng = np.random.RandomState(f["v"])
    shape = (b, h, w, 2) if f["fmt"] == "4d" else (h, w, 2)
    a = rng.uniform(-9, 9, shape)
    if f["sign"]:
        a = abs(a) * f["sign"]
    a *= f["scale"] if f["dt"] != "int16" else 10
    return a.astype(f["dt"])


def write_flow(p, f, bad):
    np = env.np
    if os.path.isdir(p):
        os.rmdir(p)
    elif os.path.exists(p):
        os.remove(p)
    if bad == "missing":
        return
    if bad == "dir":
        os.mkdir(p)
        return
    a = flow_array(f)
    if bad == "shape":
        a = np.zeros((3, 4)) if f["fmt"] == "4d" else np.zeros((3, 4, 3))
    if bad in ("nan", "inf"):
        a = a.astype("float64")
        a.reshape(-1)[f["v"] % a.size] = float(bad)
    if bad == "zero":
        a = a[:0]
    with RealFile(p, "w") as h:
        if bad == "group":
            h.create_group("g")
        elif bad != "nokeys":
            h["flow"] = a
    if bad in ("trunc", "garbage", "empty"):
        b = read(p)
        b = b[: len(b) // 2] if bad == "trunc" else b"\1not hdf5" * 40 if bad == "garbage" else b""
        with io.open(p, "wb") as h:
            h.write(b)


def run_C20(w, sc):
    from synthpix import sanity
    from synthpix.utils import load_configuration

    np = env.np
    cfg = w.path("cfg", "config.yaml")
    os.makedirs(os.path.dirname(cfg))
    os.makedirs(w.path("h5"))
    files = [dict(f) for f in sc["samples"]]
    paths = []
    for i, f in enumerate(files):
        paths.append(w.path("h5", f"flow_{i}." + ("dat" if f["bad"] == "notname" else "h5")))
        write_flow(paths[i], f, f["bad"])
    order = [i % len(files) for i in sc["order"]] if files else []
    listed = [] if sc.get("empty") else [paths[i] for i in order]
    data = dict(sc["extra"])
    if sc.get("check"):
        data.update(IMAGING)
    if sc["first"]:
        data["file_list"] = listed
    data.update(sc["have"])
    if not sc["first"]:
        data["file_list"] = listed
    with io.open(cfg, "w", encoding="utf-8") as h:
        for k, v in data.items():
            h.write(f"{k}: {json.dumps(v)}\n")
    for n, (answers, fault, heal) in enumerate(sc["ops"]):
        if heal:
            for p, f in zip(paths, files):
                if f["bad"] and f["bad"] != "notname":
                    f["bad"] = None
                    write_flow(p, f, None)
        cur = load_configuration(cfg)
        old_bytes = read(cfg)
        old = plain(cur)
        missing = [k for k in SPEEDS if k not in cur or not isinstance(cur[k], (int, float))]
        used = [] if not listed else [files[i] for i in order]
        bad = sorted({f["bad"] for f in used if f["bad"]}) or (["empty list"] if not listed else [])
        speeds = None
        if not bad:
            arr = [flow_array(f) for f in used]
            speeds = {}
            for c, ax in ((0, "x"), (1, "y")):
                speeds["max_speed_" + ax] = max(float(a[..., c].max()) for a in arr)
                speeds["min_speed_" + ax] = min(float(a[..., c].min()) for a in arr)
        new = plain(dict(cur, **speeds)) if speeds else None
        asked = []

        def act():
            it = iter(answers)

            def answer(*a):
                asked.append(1)
                try:
                    return next(it)
                except StopIteration:
                    raise EOFError("EOF when reading a line") from None

            keep = D.builtins.input
            D.builtins.input = answer
            try:
                return list(sanity.missing_speeds_panel(cfg))
            finally:
                D.builtins.input = keep

        cache = {}

        def state():
            b = read(cfg)
            if b not in cache:
                try:
                    cache[b] = plain(load_configuration(cfg))
                except Exception as e:  # noqa: BLE001
                    cache[b] = ["unreadable", type(e).__name__]
            return cache[b]

        seen = []

        def snap(i, kind):
            if state() not in (old, new):
                seen.append((i, kind))

        asked.clear()
        out, d = w.go(act, fault, snap)
        got = state()
        name = "old" if got == old else "new" if got == new else "other"
        if old == new and name == "old":
            name = "new"
        fired = sorted(d.fired)
        w.log("panel", n, answers, out, name, d.n, fired)
        w.res.cover.add(f"{out[0]}/{name}/{'+'.join(fired) or 'healthy'}/{'bad' if bad else 'ok'}/{len(missing)}/{'+'.join(answers)}")
        what = f"call {n}, answers {answers}, fault {fault and fault['what']} -> {out[:1] + out[1:2]}: "
        want = [speeds[k] for k in SPEEDS] if speeds else None
        if seen or name == "other":
            w.bad("wrong-config", what + f"the configuration {'seen before operation %d (%s)' % seen[0] if seen else 'left behind'} is neither "
                                         f"the old one nor the old one with the true speeds ({str(got)[:120]})")
        elif out[0] == "ok" and bad and missing:
            w.bad("accepted-bad-data", what + f"returned {out[1]} although the listed files include {bad}")
        elif out[0] == "ok" and not missing:
            if out[1] != [cur[k] for k in SPEEDS]:
                w.bad("wrong-speeds", what + f"returned {out[1]}, the configuration holds {[cur[k] for k in SPEEDS]}")
        elif out[0] == "ok":
            if [x.lower() for x in answers[:2]] != ["1", "y"]:
                w.bad("went-on", what + "returned although the user did not agree")
            elif out[1] != want:
                w.bad("wrong-speeds", what + f"returned {out[1]}, the files hold {want}")
            elif name != "new" and not d.dead:
                w.bad("not-saved", what + "returned, but the configuration on disk lacks the speeds")
        elif out[0] == "exc" and not d.fired and not bad and (not missing or [x.lower() for x in answers[:2]] == ["1", "y"]):
            w.bad("spurious-failure", what + str(out))
        if not w.res.viol:
            agreed = answers[:1] == ["1"]
            if missing and not agreed and read(cfg) != old_bytes:
                w.bad("changed-unasked", what + "the configuration changed although the user did not ask for it")
            elif (not missing or bad) and read(cfg) != old_bytes:
                w.bad("changed-unasked", what + "the configuration was rewritten although " +
                      (f"the listed files include {bad}" if bad else "nothing was missing"))
        if w.res.viol:
            break
    if sc.get("check") and not w.res.viol:
        try:
            before = dict(load_configuration(cfg))
        except Exception:  # noqa: BLE001
            before = {}
        cur = dict(before)
        missing = [k for k in SPEEDS if k not in cur or not isinstance(cur[k], (int, float))]
        good = bool(listed) and all(f["bad"] is None and f["fmt"] == "4d" for f in files)
        nums = [cur.get(k) for k in SPEEDS]
        sane = missing or (nums[0] >= nums[2] and nums[1] >= nums[3])
        end = command_line(w, sc, cfg, ["1", "y"])
        w.log("sanity", end)
        w.res.cover.add(f"sanity/{end.split(':')[0]}/{len(missing)}/{good}")
        if good and sane and len(before) > 10 and end != "accepted":
            w.bad("not-accepted", f"python -m synthpix.sanity ended with '{end}' for a valid configuration lacking {missing}")
        if not good and missing and any(f["bad"] for f in [files[i] for i in order]) and end == "accepted":
            w.bad("accepted-bad-data", "python -m synthpix.sanity accepted a configuration whose files are damaged")
    return ["sanity.missing_speeds_panel, calculate_min_and_max_speeds and update_config_file"]


# ---------------------------------------------------------------------------
# C21: data set preparation
# ---------------------------------------------------------------------------

SPLITS = ["train", "val", "test", "tune"]


def gen_C21(r):
    sc = gen_piv1(r) if r.random() < 0.75 else gen_piv2(r)
    sc["top"] = r.choice(["ds", "ds", "ds", "ds", "ds [1]"])
    return sc


FAULTS21 = ["kill", "kill", "kill_torn", "ENOSPC", "ENOSPC", "EIO", "EIO", "EDQUOT", "short", "INT"]


def gen_ops(r):
    ops = []
    for _ in range(r.randint(1, 3)):
        ops.append([r.random() < 0.3, gen_fault(r, FAULTS21) if r.random() < 0.85 else None])
    ops.append([r.random() < 0.6, None])
    return ops


def gen_piv1(r):
    H, W = r.choice([4, 6]), r.choice([4, 8])
    samples = []
    for i in range(r.randint(1, 6) if r.random() < 0.98 else r.randint(11, 30)):
        core = r.choice(["backstep_Re1000_%05d", "backstep_Re800_%05d", "cylinder_Re40_%05d", "uniform_%05d", "DNS_turbulence_%05d"]) % i
        samples.append({"dir": r.choice(["", "", "backstep", "cyl", "a/b", "cyl[1]"]), "core": core, "flow": r.choice(["flo", "flo", "mat"]),
                        "size": [H, W] if r.random() < 0.8 else [2 * H, W], "v": r.randrange(1000),
                        "in": [s for s in SPLITS if r.random() < 0.4], "style": r.randrange(5),
                        "bad": r.choice(["magic", "short", "noflow", "img", "imgcut", "noimg", "matgarbage"]) if r.random() < 0.2 else None})
    return {"kind": "piv1", "target": [H, W], "samples": samples, "ops": gen_ops(r)}


def gen_piv2(r):
    shards = []
    for _ in range(r.randint(1, 4) if r.random() < 0.97 else r.randint(11, 14)):
        shards.append([r.choice(["Training", "Training", "Validation", "Test"]),
                       [r.choice(["ok", "ok", "ok", "ok", "target", "flow", "none", "parse"]) for _ in range(r.choice([0, 1, 1, 2, 3] if r.random() < 0.97 else [11, 25]))]])
    return {"kind": "piv2", "samples": shards, "other": r.random() < 0.3, "ops": gen_ops(r), "v": r.randrange(1000)}


def run_C21(w, sc):
    return globals()["c21_" + sc["kind"]](w, sc)


def piv1_value(s, target):
    np = env.np
    h, wd = s["size"]
    I0, I1 = ((np.arange(h * wd).reshape(h, wd) * k + s["v"]) % 251 for k in (1, 3))
    if s["size"] == target:
        V = (np.arange(h * wd * 2).reshape(h, wd, 2) * 0.25 - s["v"]).astype("float32")
        out = V
    else:  # a constant flow: how it is resampled does not matter
        V = np.empty((h, wd, 2), dtype="float32")
        V[..., 0], V[..., 1] = 2.0 + s["v"], -1.0
        out = np.empty((*target, 2), dtype="float32")
        out[..., 0], out[..., 1] = V[0, 0, 0] * (target[1] / wd), V[0, 0, 1] * (target[0] / h)
    return V, out, I0.astype("uint8"), I1.astype("uint8")


def piv1_write(w, top, s, target, bad):
    """The raw files of one sample, healthy or damaged."""
    import scipy.io
    from PIL import Image

    V, _, I0, I1 = piv1_value(s, target)
    base = w.path(top, "raw_class1", s["dir"], s["core"])
    os.makedirs(os.path.dirname(base), exist_ok=True)
    flow = base + "_flow." + s["flow"]
    if s["flow"] == "mat":
        scipy.io.savemat(flow, {"V": V})
        if bad in ("matgarbage", "magic", "short"):
            with io.open(flow, "wb") as f:
                f.write(b"garbage" * 30 if bad != "short" else b"")
    else:
        b = (b"PIEH" if bad != "magic" else b"XXXX") + struct.pack("ii", V.shape[1], V.shape[0]) + V.tobytes()
        with io.open(flow, "wb") as f:
            f.write(b[:-5] if bad in ("short", "matgarbage") else b)
    if bad == "noflow":
        os.remove(flow)
    for k, im in ((1, I0), (2, I1)):
        p = f"{base}_img{k}.tif"
        Image.fromarray(im).save(p)
        if k == 2 and bad in ("img", "imgcut"):
            b = read(p)
            with io.open(p, "wb") as f:
                f.write(b"no image at all" if bad == "img" else b[: 8 + im.size // 2])
        if k == 1 and bad == "noimg":
            os.remove(p)


def c21_piv1(w, sc):
    import download_piv_1 as M

    top = w.path(sc["top"])
    raw = w.path(sc["top"], "raw_class1")
    os.makedirs(raw)
    os.makedirs(w.path(sc["top"], "splits"))
    with io.open(os.path.join(raw, "readme.txt"), "w") as f:
        f.write("raw data\n")  # main() downloads into an empty directory
    target = list(sc["target"])
    samples = [dict(s) for s in sc["samples"]]
    lists = {s: [] for s in SPLITS}
    for s in samples:
        piv1_write(w, top, s, target, s["bad"])
        c = s["core"]
        line = [f"{c}_img1.tif {c}_img2.tif {c}_flow.flo", f"x/{c}_img2.tif", f"{c}_flow.flo", f"{c}.mat", f"y/z/{c}_img1.tif"][s["style"]]
        for k in s["in"]:
            lists[k].append(line)
    for k, v in lists.items():
        with io.open(w.path(sc["top"], "splits", k + ".txt"), "w") as f:
            f.write("\n".join(v) + "\n\n")
    good = {s["core"]: value(*(lambda q: (q[1], q[2], q[3]))(piv1_value(s, target))) for s in samples}
    tree = Tree(top, (raw,))

    def expected():
        out = {}
        for s in samples:
            if s["bad"]:
                continue
            out[os.path.join("packed_class1", s["dir"], s["core"] + ".mat")] = good[s["core"]]
            sub = [x for x in s["core"].split("_") if x.startswith("Re") and x[2:].isdigit()]
            for k in s["in"]:
                out[os.path.join(k, s["dir"], *sub[:1], s["core"] + ".mat")] = good[s["core"]]
        return out

    for n, (heal, fault) in enumerate(sc["ops"]):
        if heal:
            for s in samples:
                if s["bad"]:
                    s["bad"] = None
                    piv1_write(w, top, s, target, None)
        ill = []

        snap = tree.watch(lambda p, v: v == good.get(os.path.basename(p)[:-4]), ill)
        out, d = w.go(lambda: M.main(top, "x".join(map(str, target))), fault, snap)
        judge21(w, n, fault, out, d, ill, snap, tree, expected())
        if w.res.viol:
            break
    return ["scripts/download_piv_1.main, convert, pack_triplet and perform_split", "scipy, h5py and PIL"]


def judge21(w, n, fault, out, d, ill, snap, tree, want):
    snap(d.n, "")
    have = tree.look()
    fired = sorted(d.fired)
    packed = sum(1 for p in want if p.startswith("packed"))
    done = sum(1 for p in want if p.startswith("packed") and p in have)
    w.log("prepare", n, out, len(have), len(want), d.n, fired)
    w.res.cover.add(f"{w.sc['kind']}/{out[0]}/{done == packed}/{len(have) == len(want)}/{'+'.join(fired) or 'healthy'}")
    what = f"run {n}, fault {fault and fault['what']} -> {out[:2]}: "
    if ill:
        i, kind, p, v = ill[0]
        w.bad("partial-sample", what + f"before disk operation {i} ({kind}) {p} is not a complete sample: {str(v)[:60]}")
    elif not d.fired:
        miss = sorted(set(want) - set(have))
        extra = sorted(set(have) - set(want))
        if out[0] != "ok" or miss or extra:
            w.bad("incomplete-data-set", what + f"no fault was injected, yet the data set lacks {miss[:3]}, has extra {extra[:3]} "
                                                f"({len(have)} of {len(want)} files)")
        else:
            wrong = [p for p in want if have[p] != want[p]]
            if wrong:
                w.bad("wrong-sample", what + f"{wrong[0]} does not hold its sample")
    elif not d.dead and "INT" != (fault or {}).get("what") and not (fault or {}).get("sticky") and done < packed - 1:
        w.bad("others-not-converted", what + f"one disk error ({fired}) and {packed - done} of {packed} samples were not converted")


# --- class 2: TFRecord shards ---------------------------------------------

class Tensor:
    def __init__(self, b):
        self.b = b

    def numpy(self):
        return self.b

    def __eq__(self, o):
        return self.b == o

    __hash__ = None


FIRST = []


def install_tf():
    tf = sys.modules["tensorflow"]

    class TFRecordDataset:
        def __init__(self, path, *a, **k):
            self.path = os.fspath(path)

        def __iter__(self):
            if D.CUR is not None:
                FIRST.append(D.CUR.n)
            with io.open(self.path, "rb") as f:
                while True:
                    h = f.read(12)
                    if not h:
                        return
                    n = struct.unpack("<Q", h[:8])[0] if len(h) == 12 else -1
                    b = f.read(n + 4) if n >= 0 else b""
                    if len(b) != n + 4:
                        raise RuntimeError(f"DataLossError: truncated record in {self.path}")
                    yield Tensor(b[:-4])

    def parse(raw, features, *a, **k):
        b = raw.numpy()
        if b[:1] != b"E":
            raise ValueError("InvalidArgumentError: could not parse example")
        out = {x: Tensor(f.default) for x, f in features.items()}
        i = 1
        while i < len(b):
            kl, vl = struct.unpack("<II", b[i:i + 8])
            out[b[i + 8:i + 8 + kl].decode()] = Tensor(b[i + 8 + kl:i + 8 + kl + vl])
            i += 8 + kl + vl
        return out

    class FixedLenFeature:
        def __init__(self, shape, dtype, default_value=None):
            self.default = default_value.encode() if isinstance(default_value, str) else default_value

    tf.data = types.SimpleNamespace(TFRecordDataset=TFRecordDataset)
    tf.io = types.SimpleNamespace(FixedLenFeature=FixedLenFeature, parse_single_example=parse)


_recs = {}


def piv2_record(v, kind):
    """-> (serialized example, value of its sample)"""
    if (v, kind) not in _recs:
        np = env.np
        if len(_recs) > 60:
            _recs.clear()
        n = 256 * 256 * 2
        t = ((np.arange(n) * 7 + v) % 255).astype("float32")
        f = ((np.arange(n) * 3 + 11 * v) % 19 - 9).astype("float32")
        tb, fb = t.tobytes(), f.tobytes()
        if kind == "target":
            tb = tb[:-8]
        if kind == "flow":
            fb = fb[:4000]
        if kind == "none":
            fb = b""
        b = b"E"
        for k, x in ((b"target", tb), (b"flow", fb), (b"label", b"l")):
            if x:
                b += struct.pack("<II", len(k), len(x)) + k + x
        if kind == "parse":
            b = b"broken protocol buffer"
        t = t.reshape(256, 256, 2)
        _recs[v, kind] = (b, value(f.reshape(256, 256, 2), t[..., 0], t[..., 1]))
    return _recs[v, kind]


def c21_piv2(w, sc):
    import download_piv_2 as M

    top = w.path(sc["top"])
    os.makedirs(w.path(sc["top"], "raw_class2"))
    good = {"train": [], "val": [], "other": []}
    v = sc["v"] % 7
    with zipfile.ZipFile(w.path(sc["top"], "raw_class2", "Data_ProblemClass2_RAFT-PIV.zip"), "w", zipfile.ZIP_STORED) as z:
        count = {}
        for name, recs in sc["samples"]:
            i = count[name] = count.get(name, -1) + 1
            b = b""
            for kind in recs:
                rec, val = piv2_record(v, kind)
                v = v + 1
                b += struct.pack("<QI", len(rec), 0) + rec + b"\0\0\0\0"
                if kind == "ok":
                    good[{"Training": "train", "Validation": "val"}.get(name, "other")].append(val)
            z.writestr(zipfile.ZipInfo(f"{name}_Dataset_RAFT256-PIV.tfrecord-{i:05d}-of-00009", (2020, 1, 1, 0, 0, 0)), b)
        if sc["other"]:
            z.writestr(zipfile.ZipInfo("Training_Dataset_RAFT32.tfrecord-00000-of-00001", (2020, 1, 1, 0, 0, 0)), b"other")
    tree = Tree(os.path.join(top, "packed_class2"))
    total = sum(len(x) for x in good.values())
    for n, (_, fault) in enumerate(sc["ops"]):
        ill = []
        snap = tree.watch(lambda p, val: val in good.get(os.path.dirname(p), []), ill)
        FIRST.clear()
        out, d = w.go(lambda: (FIRST.clear(), M.main(top))[1], fault, snap)
        snap(d.n, "")
        have = tree.look()
        fired = sorted(d.fired)
        w.log("prepare", n, out, len(have), total, d.n, fired)
        w.res.cover.add(f"piv2/{out[0]}/{len(have) == total}/{'+'.join(fired) or 'healthy'}")
        what = f"run {n}, fault {fault and fault['what']} -> {out[:2]}: "
        if ill:
            i, kind, p, val = ill[0]
            w.bad("partial-sample", what + f"before disk operation {i} ({kind}) {p} is not a complete sample: {str(val)[:60]}")
        elif not d.fired:
            for sub, vals in good.items():
                got = sorted(repr(hash(x)) for p, x in have.items() if os.path.dirname(p) == sub)
                if out[0] != "ok" or got != sorted(repr(hash(x)) for x in vals):
                    w.bad("incomplete-data-set", what + f"no fault was injected, yet {sub} holds {len(got)} samples "
                                                        f"({len(set(got))} different) of {len(vals)} records")
                    break
        elif (fault["what"] not in ("kill", "kill_torn", "INT") and not fault.get("sticky") and FIRST and d.fault["at"] > FIRST[0]
              and d.ops[d.fault["at"]] != "read" and len(have) < total - 1):
            w.bad("others-not-converted", what + f"one disk error ({fired}) and {total - len(have)} of {total} samples were not converted")
        if w.res.viol:
            break
    return ["scripts/download_piv_2.main and process_tfrecord", "zipfile, h5py"]
