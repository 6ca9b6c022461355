"""Process set-up: seams, datasets and the simulated disk of one worker."""

import builtins
import contextlib
import errno
import functools
import hashlib
import io as io_mod
import os
import random
import shutil
import sys
import threading

REPO = os.environ.get("SYNTHPIX_REPO", "/repo")

from . import kernel as K
from . import simmods

open = io_mod.open  # the harness itself is not subject to the simulated disk
READY = False
np = None
SchedulerData = None
mods = None


def setup(scratch):
    """Install the seams and import synthpix from the repository's working tree."""
    global READY, np, SchedulerData, mods
    if READY:
        return
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    sys.path.insert(1, os.path.join(REPO, "scripts"))
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    mods = simmods.install()
    import numpy
    import jax  # noqa: F401
    import rich.console

    class _Quiet(rich.console.Console):
        def __init__(self, *a, **k):
            k["file"] = open(os.devnull, "w")
            super().__init__(*a, **k)

    rich.console.Console = _Quiet
    _install_io_seam()
    import synthpix  # noqa: F401
    import synthpix.make  # noqa: F401
    import synthpix.sanity  # noqa: F401
    import synthpix.scheduler as S
    from synthpix.types import SchedulerData as SD

    f = synthpix.scheduler.__file__
    if not os.path.realpath(f).startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"synthpix imported from {f}, not from {src}")
    np = numpy
    SchedulerData = SD
    simmods.enable_lines()
    _install_scheduler_seam(S)
    READY = True


# ---------------------------------------------------------------------------
# Disk seam
# ---------------------------------------------------------------------------

LAT = {
    "zero": lambda r: 0.0,
    "fast": lambda r: r.choice([0.0, 0.001, 0.004, 0.02]),
    "mixed": lambda r: r.choice([0.0, 0.001, 0.02, 0.2, 0.9]),
    "slow": lambda r: r.choice([0.01, 0.3, 1.5, 1.99, 2.01, 2.6, 5.0]),
    "awful": lambda r: r.choice([0.0, 1.0, 2.5, 6.0, 29.0, 31.0, 40.0]),
}


class IO:
    """Simulated disk behaviour of one run: latency, transient and hard errors."""

    def __init__(self, seed=0, profile="zero", faults=None, shuffle_dirs=False):
        self.rng = random.Random(seed)
        self.dirrng = random.Random(seed ^ 0x5EED)
        self.profile = profile
        self.faults = {p: dict(f) for p, f in (faults or {}).items()}
        self.shuffle_dirs = shuffle_dirs
        self.loads = []  # (path, outcome) at load_file level
        self.ops = 0
        self.fired = {}
        self.max_lat = 0.0
        self.quiet = False
        self.inflight = 0
        self.by_task = {}

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def latency(self):
        if self.quiet:
            return 0.0
        return LAT[self.profile](self.rng)

    def op(self, path, kind):
        k = K.CUR
        self.ops += 1
        lat = self.latency()
        if lat:
            self.count("io_latency")
            if lat >= 2.0:
                self.count("io_latency_beyond_timeout")
            self.max_lat = max(self.max_lat, lat)
            self.inflight += 1
            try:
                k.sleep(lat, "disk")
            finally:
                self.inflight -= 1
        else:
            k.point("disk")
        f = self.faults.get(norm(path))
        if f and f.get("n", 1) > 0:
            if f.get("n", 1) < 10**6:
                f["n"] -= 1
            e = f.get("err", "EIO")
            self.count("disk_" + e)
            if e == "MEM":
                raise MemoryError("simulated allocation failure")
            code = {"EIO": errno.EIO, "ENOENT": errno.ENOENT, "EACCES": errno.EACCES,
                    "EMFILE": errno.EMFILE, "ESTALE": errno.ESTALE}[e]
            raise OSError(code, os.strerror(code), path)


def norm(p):
    return os.path.normpath(os.fspath(p))


_bypass = 0


def _active(path):
    k = K.CUR
    if _bypass or k is None or k.killing or k.io is None or k.me() is None:
        return None
    if not isinstance(path, (str, os.PathLike)):
        return None
    if os.path.isabs(os.fspath(path)):
        return None
    return k.io


class HLock:
    """Stands in for h5py's global lock where its Python layer takes it.

    h5py holds that lock around loops over the contents of a file, in which the code
    under test runs.  Simulated threads must not be switched there: the next one would
    wait for the real lock and never give the baton back.
    """

    def __init__(self):
        self.kern = None
        self.count = 0

    def __enter__(self):
        k = K.CUR
        if k is not None:
            if k is not self.kern:
                self.kern, self.count = k, 0
            self.count += 1
            k.nopre += 1
        return self

    acquire = __enter__

    def __exit__(self, *a):
        k = K.CUR
        if k is not None and k is self.kern and self.count > 0:
            self.count -= 1
            k.nopre -= 1

    def release(self):
        self.__exit__()


def _install_h5py_lock():
    lock = HLock()
    for n, m in list(sys.modules.items()):
        if n.startswith("h5py._hl") and getattr(m, "phil", None) is not None:
            m.phil = lock


# Reading a data file is one operation of the simulated disk, whichever way the code under
# test goes: one of the libraries, or open() itself.  What a library opens is part of it.
_lib = threading.local()
DATA_EXT = (".npy", ".npz", ".h5", ".mat", ".jpg", ".hdf5")


@contextlib.contextmanager
def _reading(path, what):
    io = None if getattr(_lib, "depth", 0) else _active(path)
    if io is not None:
        io.op(path, what)
    _lib.depth = getattr(_lib, "depth", 0) + 1
    try:
        yield
    finally:
        _lib.depth -= 1


def _install_io_seam():
    """In front of the libraries and open(); before synthpix is imported."""
    import h5py
    import numpy
    import scipy.io
    from PIL import Image

    def wrap(f, what):
        @functools.wraps(f)
        def g(file, *a, **kw):
            with _reading(file, what):
                return f(file, *a, **kw)

        return g

    numpy.load = wrap(numpy.load, "np.load")
    numpy.fromfile = wrap(numpy.fromfile, "np.fromfile")
    scipy.io.loadmat = wrap(scipy.io.loadmat, "loadmat")
    Image.open = wrap(Image.open, "image")
    _install_h5py_lock()
    hf = h5py.File

    class File(hf):
        def __init__(self, name, *a, **kw):
            with _reading(name, "h5py"):
                super().__init__(name, *a, **kw)

    h5py.File = File
    real_open = io_mod.open
    real_os_open = os.open

    def is_data(p):
        return isinstance(p, (str, os.PathLike)) and str(p).endswith(DATA_EXT)

    def open_(file, mode="r", *a, **kw):
        if is_data(file) and "r" in mode and "+" not in mode:
            with _reading(file, "open"):
                return real_open(file, mode, *a, **kw)
        return real_open(file, mode, *a, **kw)

    def os_open(path, flags, *a, **kw):
        if is_data(path) and not flags & (os.O_WRONLY | os.O_RDWR):
            with _reading(path, "open"):
                return real_os_open(path, flags, *a, **kw)
        return real_os_open(path, flags, *a, **kw)

    io_mod.open = builtins.open = open_
    os.open = os_open

    scandir = os.scandir

    class _Shuf:
        def __init__(self, it, rng):
            ents = sorted(it, key=lambda e: e.name)
            it.close()
            rng.shuffle(ents)
            self._i = iter(ents)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    def sd(path="."):
        k = K.CUR
        it = scandir(path)
        if k is None or k.killing or k.io is None or not k.io.shuffle_dirs or k.me() is None:
            return it
        k.io.count("dir_order_shuffled")
        return _Shuf(it, k.io.dirrng)

    os.scandir = sd
    listdir = os.listdir

    def ld(path="."):
        r = listdir(path)
        k = K.CUR
        if k is None or k.killing or k.io is None or not k.io.shuffle_dirs or k.me() is None:
            return r
        r = sorted(r)
        k.io.dirrng.shuffle(r)
        return r

    os.listdir = ld


def _install_scheduler_seam(S):
    # finalizers run only inside a live simulation (never while it is torn down)
    for cls in (S.PrefetchingFlowFieldScheduler,):
        d = cls.__dict__.get("__del__")
        if d is not None:
            def mkdel(d):
                def __del__(self):
                    k = K.CUR
                    if k is None or k.killing or k.me() is None:
                        return
                    d(self)

                return __del__

            cls.__del__ = mkdel(d)

    # outcome of each file load, at the schedulers' documented load_file seam
    for cls in (S.NumpyFlowFieldScheduler, S.HDF5FlowFieldScheduler, S.MATFlowFieldScheduler):
        orig = cls.__dict__.get("load_file")
        if orig is None:
            continue

        def mk(orig):
            def load_file(self, file_path):
                k = K.CUR
                io = k.io if k is not None else None
                try:
                    r = orig(self, file_path)
                except Exception as e:
                    if io is not None:
                        io.loads.append((file_path, "fail", type(e).__name__))
                    raise
                if io is not None:
                    io.loads.append((file_path, "ok", None))
                return r

            load_file.__name__ = "load_file"
            load_file.__doc__ = orig.__doc__
            load_file.__wrapped__ = orig
            return load_file

        cls.load_file = mk(orig)


# ---------------------------------------------------------------------------
# Datasets
# ---------------------------------------------------------------------------

H, W = 4, 4


class Data:
    """A data set on disk, and what each of its slices must look like."""

    def __init__(self, root, kind):
        self.root = root
        self.kind = kind
        self.files = []  # relative paths in creation order
        self.slices = {}  # path -> list of expected flow arrays
        self.images = {}  # path -> (I0, I1)
        self.by_bytes = {}
        self.by_code = {}
        self.ncode = 0

    def code(self, path, i, shape, ratio=(1.0, 1.0)):
        """Make the next constant flow field; ratio: what resizing multiplies it by."""
        c = CODES[self.ncode]
        self.ncode += 1
        self.by_code[c] = (path, i)
        a = np.empty(tuple(shape) + (2,), np.float32)
        a[..., 0] = c[0] / ratio[0]
        a[..., 1] = c[1] / ratio[1]
        return a

    def cident(self, row):
        c = code_of(row)
        return c if c == "PAD" else self.by_code.get(c, "?")

    def add(self, path, slices, images=None):
        self.files.append(path)
        self.slices[path] = slices
        if images is not None:
            self.images[path] = images
        for i, a in enumerate(slices):
            self.by_bytes[np.ascontiguousarray(a, dtype=np.float32).tobytes()] = (path, i)

    def ident(self, row):
        """Which (path, slice) a served flow field is: by its complete content."""
        a = np.ascontiguousarray(np.asarray(row), dtype=np.float32)
        if not a.any():
            return "PAD"
        return self.by_bytes.get(a.tobytes(), "?")


# Constant flow fields, told apart by their integer displacement.
CODES = [(u, v) for s in range(1, 5) for u in range(-4, 5) for v in range(-4, 5) if max(abs(u), abs(v)) == s]


def code_of(row):
    """(u, v) of a constant flow field, "PAD" for zeros, None if it is neither."""
    a = np.asarray(row, dtype=np.float64)
    u, v = round(float(a[..., 0].mean())), round(float(a[..., 1].mean()))
    if abs(a[..., 0] - u).max() > 1e-3 or abs(a[..., 1] - v).max() > 1e-3:
        return None
    return "PAD" if u == 0 and v == 0 else (u, v)


def _flow(uid, y=0, shape=None):
    h, w = shape or (H, W)
    a = np.arange(h * w * 2, dtype=np.float32).reshape(h, w, 2)
    return (a / 64.0 + uid + y / 128.0 * 0.5).astype(np.float32)


_cache = {}
_serial = 0


def dataset(spec, private=False):
    """spec: {"kind", "dirs": [[name, n, slices?], ...], "images": bool, "jump": k}"""
    global _serial
    key = hashlib.blake2b(repr(sorted(spec.items())).encode(), digest_size=6).hexdigest()
    if not private and key in _cache:
        return _cache[key]
    global _bypass
    _bypass += 1
    try:
        return _build(spec, private, key)
    finally:
        _bypass -= 1


def odd_names(r, data):
    """Sometimes directory names that mean something else to glob."""
    if r.random() < 0.1:
        x = r.choice(["[1]", "[1]", " 1", "[a-c]", "?"])
        for e in data["dirs"]:
            if e[0]:
                e[0] += x


def _build(spec, private, key):
    root = f"ds_{key}" if not private else f"pv_{key}"
    if os.path.isdir(root):
        shutil.rmtree(root)
    d = Data(root, spec["kind"])
    uid = 0
    for ent in spec["dirs"]:
        name, n = ent[0], ent[1]
        sl = ent[2] if len(ent) > 2 else None
        dd = os.path.join(root, name) if name else root
        os.makedirs(dd, exist_ok=True)
        imgs_prev = None
        for i in range(n):
            uid += 1
            write_file(d, spec, dd, i, uid, (sl[i % len(sl)] if sl else 1))
    if not private:
        _cache[key] = d
    return d


def write_file(d, spec, dd, i, uid, nsl):
    import h5py
    import scipy.io
    from PIL import Image

    kind = spec["kind"]
    shape = tuple(spec.get("shape", (H, W)))
    const = spec.get("const")
    if kind == "npy":
        i += spec.get("base", 0)  # the names count up to more digits
        p = os.path.join(dd, f"flow_{i + 1}.npy")
        a = d.code(p, 0, shape) if const else _flow(uid, shape=shape)
        np.save(p, a)
        im = None
        if spec.get("images"):
            for j in (i, i + 1):
                ip = os.path.join(dd, f"img_{j}.jpg")
                if not os.path.exists(ip):
                    im = np.full(shape + (3,), (uid * 16 + 40 * (j - i)) % 256, np.uint8)
                    Image.fromarray(im).save(ip)
            im = tuple(
                np.array(Image.open(os.path.join(dd, f"img_{j}.jpg")).convert("RGB"))
                for j in (i, i + 1)
            )
        d.add(p, [a], im)
    elif kind == "h5":
        p = os.path.join(dd, f"f_{i:03d}.h5")
        sl = [d.code(p, y, shape) if const else _flow(uid, y, shape) for y in range(nsl)]
        a = np.stack(sl, axis=1) if sl else np.zeros((shape[0], 0, shape[1], 2), np.float32)
        with h5py.File(p, "w") as f:
            f.create_dataset("data", data=a)
        d.add(p, sl)
    elif kind == "mat":
        p = os.path.join(dd, f"{i:04d}.mat")
        raw = spec.get("raw")
        if raw:  # stored in another size than it is served in
            raw = tuple(raw[uid % len(raw)])
            a = d.code(p, 0, raw, (shape[1] / raw[1], shape[0] / raw[0]))
            i0 = np.full(raw, 1 + uid % 250, np.uint8)
            i1 = np.full(raw, 1 + (uid * 7 + 3) % 250, np.uint8)
            want = (np.full(shape, i0[0, 0], np.uint8), np.full(shape, i1[0, 0], np.uint8))
        else:
            a = d.code(p, 0, shape) if const else _flow(uid, shape=shape)
            i0 = np.full(shape, uid % 251, np.uint8)
            i1 = np.full(shape, (uid * 7 + 3) % 251, np.uint8)
            i0[0, 0] = (uid * 13) % 256
            i1[0, 0] = (uid * 29) % 256
            want = (i0, i1)
        if spec.get("chfirst") and uid % 2:
            a = np.ascontiguousarray(np.transpose(a, (2, 0, 1)))
        if spec.get("mat_fmt", "v5") == "v5":
            scipy.io.savemat(p, {"V": a, "I0": i0, "I1": i1})
        else:
            with h5py.File(p, "w") as f:
                f.create_dataset("V", data=a)
                f.create_dataset("I0", data=i0)
                f.create_dataset("I1", data=i1)
        d.add(p, [a], want)
    else:
        raise ValueError(kind)


def corrupt(path, how):
    """Physical damage to a file (done by atomic replacement or unlink)."""
    tmp = path + ".tmp_corrupt"
    if how == "delete":
        if os.path.exists(path):
            os.unlink(path)
        return
    if how == "perm":
        how = "garbage"
    if how == "empty":
        data = b""
    elif how == "garbage":
        data = b"\x93GARBAGE not a data file" * 3
    elif how == "truncate":
        with open(path, "rb") as f:
            data = f.read()
        data = data[: max(1, len(data) // 2)]
    else:
        raise ValueError(how)
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def save_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def heal(path, data):
    with open(path + ".tmp_heal", "wb") as f:
        f.write(data)
    os.replace(path + ".tmp_heal", path)


def make_base(d, kind, files, **kw):
    import synthpix.scheduler as S

    cls = {"npy": S.NumpyFlowFieldScheduler, "h5": S.HDF5FlowFieldScheduler,
           "mat": S.MATFlowFieldScheduler}[kind]
    if kind == "mat":
        kw.setdefault("output_shape", (H, W))
    if kind == "h5":
        kw.pop("include_images", None)
    if kw.get("key") is not None and int(np.asarray(kw["key"])[-1]) % 3 == 0:  # the other way in
        if not kw.get("randomize"):
            kw.pop("randomize", None)
        return cls.from_config({"file_list": list(files), "loop": False, **kw})
    return cls(list(files), **kw)


def rows(d, batch):
    """Decode a SchedulerData into row identities."""
    return [d.ident(r) for r in np.asarray(batch.flow_fields)]


def digest(batch):
    h = hashlib.blake2b(digest_size=8)
    for n in ("flow_fields", "images1", "images2", "mask", "done"):
        v = getattr(batch, n, None)
        if v is not None:
            a = np.asarray(v)
            h.update(f"{n}{a.shape}{a.dtype}".encode())
            h.update(np.ascontiguousarray(a).tobytes())
    h.update(repr(getattr(batch, "files", None)).encode())
    p = getattr(batch, "params", None)
    if p is not None:
        for n in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"):
            v = getattr(p, n, None)
            if v is not None:
                h.update(np.ascontiguousarray(np.asarray(v)).tobytes())
    return h.hexdigest()
