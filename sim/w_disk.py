"""Worlds around files that are rewritten or downloaded: C14, C15."""

import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import socket
import ssl
import sys
import types
import zipfile

from . import disk as D, env
from .core import MALFORMED, Result, malformed

ROOT = None
_n = 0


def prepare(prop):
    global ROOT
    ROOT = os.path.join(os.getcwd(), "disk")
    os.environ["TQDM_DISABLE"] = "1"
    for v in ("http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"):
        os.environ.pop(v, None)
    D.install()
    if prop == "C15":
        install_net()
        install_stubs()


def gen(prop, r, tier):
    sc = globals()["gen_" + prop](r)
    sc["prop"] = prop
    return sc


def gen_fault(r, whats):
    what = r.choice(whats)
    f = {"what": what, "frac": round(r.random(), 4)}
    if what in ("ENOSPC", "EDQUOT", "EROFS", "EIO"):
        f["sticky"] = r.random() < 0.5
    f["seed"] = r.randrange(1 << 20)
    return f


class Run:
    """One simulated history over a directory."""

    def __init__(self, sc):
        global _n
        _n += 1
        self.sc = sc
        self.res = Result()
        self.dir = ROOT
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.faults = {}
        self.steps = 0
        self.vtime = 0.0
        self.trace = []

    def log(self, *a):
        self.res.hist.append(list(a))

    def bad(self, kind, msg):
        self.res.viol.append({"kind": kind, "msg": msg, "t": round(self.vtime, 6)})

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def dry(self, fn):
        """How many disk operations does fn perform on a healthy disk?  (on a copy)"""
        keep = self.dir + "_keep"
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(self.dir, keep, symlinks=True)
        d = D.Disk(self.dir)
        try:
            with d, quiet():
                fn()
        except D.Dead:
            pass
        except Exception:  # noqa: BLE001  (judged in the real run)
            pass
        finally:
            shutil.rmtree(self.dir)
            os.rename(keep, self.dir)
        return d

    def go(self, fn, fault, snap):
        """Run fn on the simulated disk -> (outcome, disk)."""
        f = None
        if fault and fault.get("where", "disk") == "disk":
            n = self.dry(fn).n
            # (the last slot lies behind the final operation: death after completion)
            f = {"at": int(fault["frac"] * (n + 1)), "what": fault["what"], "sticky": fault.get("sticky", False)}
        d = D.Disk(self.dir, f, fault.get("seed", 0) if fault else 0, snap)
        try:
            with d, quiet():
                out = ["ok", fn()]
                if f and f["at"] >= d.n and f["what"] == "power":
                    d.count("power_failure_after_completion")
                    d.dead = True
        except D.Dead:
            out = ["dead"]
        except KeyboardInterrupt:
            out = ["interrupted"]
        except Exception as e:  # noqa: BLE001
            out = ["exc", type(e).__name__, str(e).replace(self.dir, "")[:120]]
        if d.dead and f and f["what"] == "power":
            d.reboot()
        self.steps += d.n
        self.trace.append(d.ops)
        for k, v in d.fired.items():
            self.faults[k] = self.faults.get(k, 0) + v
        return out, d

    def done(self, real):
        h = hashlib.blake2b(json.dumps([self.res.hist, self.trace, self.res.viol], default=repr).encode(),
                            digest_size=16)
        self.res.digest = h.hexdigest()
        self.res.trace = [[i, *o] for i, o in enumerate(self.trace)]
        self.res.stats = {"steps": self.steps, "switches": 0, "vtime": self.vtime, "faults": self.faults,
                          "timeouts": 0, "tasks": 1, "decisions": 0, "real": real}
        return self.res


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def run(sc, seed=None, replay=None):
    w = Run(sc)
    try:
        real = globals()["run_" + sc["prop"]](w, sc)
    except MALFORMED as e:  # what the code left cannot even be looked at
        real = []
        if not w.res.viol:
            w.res.viol.append(malformed(e, w.vtime))
    finally:
        D.CUR = None
        NET.clear()
    return w.done(real)


# ---------------------------------------------------------------------------
# C14: configuration files
# ---------------------------------------------------------------------------

# (ruamel itself does not read back a string starting with "? " or holding U+0085: left out)
STRINGS = ["plain", "", "yes", "No", "on", "null", "~", "1e3", "0x10", "010", "1_000", "3.0", ".5", "-", "- a", "a: b", "a #b",
           "# c", " lead", "tail ", "two\nlines", "trail\n", "ünïcode", "日本", "it's", 'say "hi"', "!t", "&a", "*a",
           "[x", "{y", "%d", "@z", "`q`", "tab\tx", "2020-01-01", "12:30:00", "\\n", "/data/flow 1.h5", "a,b", "x" * 200,
           "word " * 40, "?", ":", "|", ">", "true", "NaN", "a\rb", "\U0001f600", "\x07bell"]
NUMS = [0, 1, -1, 7, 2**40, 0.0, 0.1, -0.5, 1e-05, 1e16, 3.0, 123456.789, 1e300, 5e-324, 1e22, 2.5e-7]
KEYS = ["seed", "batch_size", "image_shape", "dt", "scheduler_class", "episode_length", "p_hide_img1", "max_speed_x",
        "max_speed_y", "min_speed_x", "min_speed_y", "randomize", "noise", "output_units", "a b", "yes", "1", "k:v", "é"]


def gen_value(r, depth=0):
    p = r.random()
    if p < 0.4:
        return r.choice(STRINGS)
    if p < 0.6:
        return r.choice(NUMS)
    if p < 0.7:
        return r.choice([None, True, False])
    if depth > 2 or p < 0.75:
        return r.choice([[], {}])
    if p < 0.9:
        return [gen_value(r, depth + 1) for _ in range(r.randint(1, 4))]
    return {r.choice(KEYS): gen_value(r, depth + 1) for _ in range(r.randint(1, 3))}


def gen_C14(r):
    keys = r.sample(KEYS, r.randint(0, 7))
    items = [[k, gen_value(r)] for k in keys]
    n = r.choice([0, 1, 3, 3, 20, (400 if r.random() < 0.9 else 6000) if r.random() < 0.15 else 5])
    if r.random() < 0.7:
        items.insert(r.randint(0, len(items)), ["file_list", n])
    ops = []
    for _ in range(r.randint(1, 3)):
        via = "panel" if r.random() < 0.2 else "update"
        upd = []
        if via == "update":
            for k in r.sample(KEYS, r.choice([0, 1, 1, 2, 4])):
                w = r.choice([None, None, "np", "arr", "jnp"])
                upd.append([k, gen_value(r) if w is None else r.choice(NUMS), w])
            if r.random() < 0.1:
                upd.append(["file_list", ["/x/%d.h5" % i for i in range(r.randint(0, 3))], None])
        fault = None
        if r.random() < 0.85:
            fault = gen_fault(r, ["kill", "kill", "kill_torn", "power", "power", "power", "ENOSPC", "EIO", "EDQUOT",
                                  "short", "INT"])
        ops.append([via, upd, fault])
    return {"items": items, "style": r.choice(["json", "json", "block", "comments"]), "link": r.random() < 0.15,
            "dup": r.random() < 0.3, "stale": r.random() < 0.3, "mode": r.choice([0o644, 0o600, 0o664]), "ops": ops}


def yaml_text(sc):
    out = []
    for k, v in sc["items"]:
        if k == "file_list" and isinstance(v, int):
            m = max(1, v // 2) if sc.get("dup") else v
            v = ["/data/set/flow_%05d.h5" % (i * 7 % m if sc.get("dup") else i) for i in range(v)]
            if sc["style"] != "json":
                out.append("file_list:" + ("".join("\n  - " + x for x in v) if v else " []"))
                continue
        j = json.dumps(v, ensure_ascii=False)
        j = j.replace("\x85", "\\u0085").replace("\x7f", "\\u007f")
        if sc["style"] == "block" and isinstance(v, list) and v:
            out.append(json.dumps(k, ensure_ascii=False) + ":")
            out += ["  - " + json.dumps(x, ensure_ascii=False).replace("\x85", "\\u0085") for x in v]
        else:
            out.append(json.dumps(k, ensure_ascii=False) + ": " + j)
            if sc["style"] == "comments":
                out.append("# about " + str(len(out)))
    return ("\n".join(out) or "{}") + "\n"


def plain(x):
    """Comparable form of a loaded configuration."""
    if isinstance(x, dict):
        return ["d", sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (list, tuple)):
        return ["l", [plain(v) for v in x]]
    if isinstance(x, bool) or x is None:
        return ["c", repr(x)]
    if isinstance(x, (int, float)):
        return ["n", repr(float(x)) if x == x and abs(x) < 2**52 else repr(x)]
    return [type(x).__name__ if not isinstance(x, str) else "s", str(x)]


def run_C14(w, sc):
    from synthpix import sanity
    from synthpix.utils import load_configuration

    np = env.np
    cfg = w.path("cfg", "config.yaml")
    os.makedirs(os.path.dirname(cfg))
    target = cfg
    if sc.get("link"):
        os.makedirs(w.path("real"))
        target = w.path("real", "c.yaml")
    with open(target, "w", encoding="utf-8") as f:
        f.write(yaml_text(sc))
    os.chmod(target, sc.get("mode", 0o644))
    if sc.get("link"):
        os.symlink(target, cfg)
    if sc.get("stale"):
        with open(target + ".tmp", "w") as f:
            f.write("half: [writ")
    cache = {}

    def load():
        try:
            with io.open(cfg, "rb") as f:
                b = f.read()
        except OSError as e:
            return None, f"cannot be read: {type(e).__name__}"
        if b not in cache:
            try:
                cache[b] = (load_configuration(cfg), "")
            except Exception as e:  # noqa: BLE001
                cache[b] = (None, f"does not parse ({type(e).__name__}), {len(b)} bytes: {b[:60]!r}")
        return cache[b]

    cur, err = load()
    if cur is None:
        if not isinstance(cur, dict):
            w.log("start", "not a mapping", err)
            return []
    real = {"sanity.update_config_file"}
    for n, (via, upd, fault) in enumerate(sc["ops"]):
        old = plain(cur)
        new_d = dict(cur)
        if via == "panel":
            real.add("sanity.missing_speeds_panel")
            files, speeds = panel_files(w)
            pre = dict(cur)
            pre["file_list"] = files
            for k in list(pre):
                if k.endswith("speed_x"):
                    del pre[k]
            set_config(cfg, target, pre)
            cur, err = load()
            if cur is None or plain(cur) != plain(pre):
                w.log("op", n, "skipped: values the harness cannot express", err)
                return sorted(real)
            old = plain(cur)
            new_d = dict(cur, **speeds)

            def act():
                answers = iter(["1", "y"])
                keep = D.builtins.input
                D.builtins.input = lambda *a: next(answers)
                try:
                    return sanity.missing_speeds_panel(cfg)
                finally:
                    D.builtins.input = keep
        else:
            vals = {}
            for k, v, wrap in upd:
                if wrap == "np":
                    vals[k] = np.float64(v) if isinstance(v, float) else np.int64(v)
                    new_d[k] = v
                elif wrap in ("arr", "jnp"):
                    v = float(np.float32(v if abs(v) < 1e30 else 1.5))
                    if wrap == "jnp":
                        import jax.numpy as jnp
                        vals[k] = jnp.asarray([v, 1.0], dtype=jnp.float32)
                        new_d[k] = [float(x) for x in np.asarray(vals[k])]
                    else:
                        vals[k] = np.array([[v], [2.0]])
                        new_d[k] = [[v], [2.0]]
                else:
                    vals[k] = v
                    new_d[k] = v

            def act():
                return sanity.update_config_file(cfg, vals)
        new = plain(new_d)
        seen = []

        def snap(i, kind):
            c, e = load()
            if c is None:
                seen.append((i, kind, e))
            elif plain(c) not in (old, new):
                seen.append((i, kind, "is neither the old nor the new configuration"))

        out, d = w.go(act, fault, snap)
        out = out[:1] if out[0] == "ok" else out
        c, e = load()
        got = "unreadable" if c is None else "old" if plain(c) == old else "new" if plain(c) == new else "other"
        if old == new and got == "old":
            got = "new"
        w.log("op", n, via, out, got, d.n, sorted(d.fired))
        cover = w.res.cover
        cover.add(f"{out[0]}/{got}/{'+'.join(sorted(d.fired)) or 'healthy'}")
        what = f"op {n} ({via}), fault {fault and fault['what']} -> {out[0]}: "
        if seen:
            w.bad("torn-for-reader", what + f"before disk operation {seen[0][0]} ({seen[0][1]}) the file {seen[0][2]}")
        elif got == "unreadable":
            w.bad("torn-config", what + f"the file {e}")
        elif got == "other":
            w.bad("wrong-config", what + diff(c, cur, new_d))
        elif out[0] == "ok" and not d.dead and got != "new":
            w.bad("lost-update", what + "the call returned but the file still holds the old configuration")
        elif out[0] == "exc" and not d.fired:
            w.bad("spurious-failure", what + str(out[1:]))
        if w.res.viol:
            break
        cur = c
    return sorted(real)


def diff(c, old, new):
    for k in sorted(set(c) | set(old) | set(new), key=str):
        a = plain(c[k]) if k in c else "absent"
        o = plain(old[k]) if k in old else "absent"
        n = plain(new[k]) if k in new else "absent"
        if a not in (o, n) or (o == n and a != o):
            return f"key {k!r} is {str(a)[:80]}, was {str(o)[:60]}, should be {str(n)[:60]}"
    return "a mixture of old and new values"


def set_config(cfg, target, data):
    from ruamel.yaml import YAML

    y = YAML(typ="safe", pure=True)
    with io.open(target, "w", encoding="utf-8") as f:
        y.dump(data, f)


def panel_files(w):
    import h5py

    os.makedirs(os.path.join(os.path.dirname(w.dir), "h5"), exist_ok=True)
    files = []
    xs = [0.5, -1.25, 3.75]
    for i, x in enumerate(xs):
        p = os.path.join(os.path.dirname(w.dir), "h5", f"f{i}.h5")
        if not os.path.exists(p):
            a = env.np.zeros((2, 2, 2, 2), dtype="float32")
            a[..., 0] = x
            a[..., 1] = -x - i
            with h5py.File(p, "w") as f:
                f["flow"] = a
        files.append(p)
    ys = [-x - i for i, x in enumerate(xs)]
    return files, {"min_speed_x": min(xs), "max_speed_x": max(xs), "min_speed_y": min(ys), "max_speed_y": max(ys)}


# ---------------------------------------------------------------------------
# C15: downloads
# ---------------------------------------------------------------------------

class Net:
    """The simulated network: one server, one fault."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.pages = {}
        self.fault = None
        self.rng = random.Random(0)
        self.conns = 0
        self.fired = {}
        self.on = False
        self.redirect = False
        self.chunked = False
        self.time = 0.0
        self.events = []

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def connect(self, addr):
        i = self.conns
        self.conns += 1
        self.time += self.rng.choice([0.001, 0.05, 1.0])
        f = self.fault
        mine = f and f["conn"] == i
        if mine and f["what"] == "refuse":
            self.count("net_refused")
            raise ConnectionRefusedError(111, "Connection refused")
        if mine and f["what"] == "dns":
            self.count("net_dns")
            raise socket.gaierror(-2, "Name or service not known")
        self.events.append("connect")
        return Sock(self, f if mine else None)


NET = Net()


class Sock:
    def __init__(self, net, fault):
        self.net = net
        self.fault = fault
        self.req = b""
        self.data = None
        self.pos = 0
        self.stop = None

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def sendall(self, b):
        self.req += bytes(b)

    send = sendall

    def makefile(self, mode="r", buffering=-1, **k):
        return io.BufferedReader(_Raw(self), 512 if buffering in (-1, None, 0) else buffering)

    def answer(self):
        net, f = self.net, self.fault
        line = self.req.split(b"\r\n")[0].split()
        path = line[1].decode().split("?")[0]
        if "://" in path:
            path = "/" + path.split("://", 1)[1].partition("/")[2]
        what = f["what"] if f else None
        if what in ("404", "500", "503"):
            net.count("http_" + what)
            body = b"<html>error</html>"
            return (f"HTTP/1.1 {what} Error\r\nContent-Length: {len(body)}\r\n\r\n").encode() + body
        if net.redirect and not path.startswith("/r/"):
            host = [x for x in self.req.split(b"\r\n") if x.lower().startswith(b"host:")][0].split(b":", 1)[1].strip()
            net.events.append("redirect")
            return (f"HTTP/1.1 302 Found\r\nLocation: https://{host.decode()}/r{path}\r\nContent-Length: 0\r\n\r\n").encode()
        key = path[2:] if path.startswith("/r/") else path
        body = net.pages.get(key)
        if body is None:
            return b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"
        if net.chunked:
            enc = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 900]), body[i:i + 900]) for i in range(0, len(body), 900))
            out = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + enc + b"0\r\n\r\n"
            low = len(out) - len(enc) - 5
        else:
            out = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body
            low = len(out) - len(body)
        if what in ("reset", "eof", "timeout", "kill", "INT"):
            n = len(out)
            self.stop = int(f["frac"] * n) if f.get("head") else low + int(f["frac"] * (n - low))
            self.stop = min(self.stop, n - 1)
            if what == "eof" and self.stop < low:
                # http.client takes an end inside the headers for the end of the headers: the
                # protocol does not reveal it.  (Before the first byte it does.)
                self.stop = 0
            self.what = what
        return out

    def recv_into(self, buf):
        net = self.net
        if self.data is None:
            self.data = self.answer()
        net.time += net.rng.choice([0.0, 0.0, 0.01, 0.4])
        d = D.CUR
        if d is not None and d.dead:
            raise D.Dead()
        n = min(len(buf), net.rng.choice([1, 7, 100, 512, 4096]))
        end = min(self.pos + n, len(self.data))
        if self.stop is not None:
            if self.pos >= self.stop:
                w = self.what
                net.count({"reset": "net_reset", "eof": "net_early_eof", "timeout": "net_timeout",
                           "kill": "process_killed_receiving", "INT": "interrupt_receiving"}[w])
                if w == "eof":
                    return 0
                self.stop = self.stop if w != "INT" else None
                if w == "reset":
                    raise ConnectionResetError(104, "Connection reset by peer")
                if w == "timeout":
                    net.time += 900.0
                    raise TimeoutError(110, "Connection timed out")
                if w == "INT":
                    raise KeyboardInterrupt
                d.dead = True
                raise D.Dead()
            end = min(end, self.stop)
        b = self.data[self.pos:end]
        self.pos = end
        buf[:len(b)] = b
        return len(b)

    def recv(self, n, *a):
        b = bytearray(n)
        return bytes(b[: self.recv_into(b)])


class _Raw(io.RawIOBase):
    def __init__(self, s):
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(memoryview(b).cast("B"))


def install_net():
    def create_connection(address, *a, **k):
        if not NET.on:
            raise OSError("no network outside a simulated run")
        return NET.connect(address)

    socket.create_connection = create_connection
    ssl.SSLContext.wrap_socket = lambda self, sock, *a, **k: sock


def install_stubs():
    tf = types.ModuleType("tensorflow")
    tf.Tensor = object
    tf.io = types.SimpleNamespace()
    tf.data = types.SimpleNamespace()
    tf.string = str
    sys.modules["tensorflow"] = tf
    g = types.ModuleType("gdown")
    g.download_folder = lambda **k: None
    sys.modules["gdown"] = g
    import download_piv_1
    import download_piv_2
    import utils

    for m in (download_piv_1, download_piv_2, utils):
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(env.REPO) + os.sep):
            raise RuntimeError(f"{m.__file__} is not the repository's")


def gen_C15(r):
    kind = r.choice(["get", "get", "get", "main2", "main2", "splits", "list"])
    ops = []
    n = r.randint(1, 4)
    for i in range(n):
        fault = None
        if r.random() < (0.85 if i < n - 1 else 0.5):
            if kind != "list" and r.random() < 0.6:
                fault = {"where": "net", "what": r.choice(["refuse", "dns", "404", "500", "503", "reset", "reset", "eof",
                                                           "eof", "timeout", "kill", "kill", "INT"]),
                         "frac": round(r.random(), 4), "conn": r.choice([0, 0, 0, 1]), "head": r.random() < 0.2}
            else:
                fault = gen_fault(r, ["kill", "kill", "kill_torn", "ENOSPC", "EIO", "EDQUOT", "short", "INT"])
        ops.append([r.randrange(3), fault])
    sc = {"kind": kind, "ops": ops, "redirect": r.random() < 0.2, "chunked": r.random() < 0.2,
          "net_seed": r.randrange(1 << 20), "http": r.random() < 0.5,
          "size": r.choice([0, 1, 5, 700, 8191, 8192, 8193, 20000, 70000])}
    if kind == "list":
        sc["items"] = gen_items(r)
    if kind == "splits":
        sc["n"] = r.choice([0, 1, 2, 10, 33, 400])
        sc["ratios"] = r.choice([[80, 10, 10], [100, 0, 0], [50, 25, 25], [0, 50, 50], [34, 33, 33]])
    if kind == "main2":
        sc["size"] = r.choice([1, 5, 700, 8193, 20000])
    if "size" in sc and r.random() < 0.03:  # more than any plausible chunk or buffer
        sc["size"] = r.choice([65536, 131073, 1 << 20, (1 << 20) + 1, 3000000])
    return sc


def gen_items(r):
    alpha = ["a", "b c", "x/y_flow.flo", "é", "#h", "'q'", "0", "-", "日本", "a\tb", "long" * 30]
    return [r.choice(alpha) + r.choice(["", "", "1", "_img1.tif"]) for _ in range(r.choice([0, 1, 3, 50, 900]))]


def blob(tag, n):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.blake2b(f"{tag}/{i}".encode()).digest()
        i += 1
    return out[:n]


def run_C15(w, sc):
    return globals()["c15_" + sc["kind"]](w, sc)


def serve(sc, n, pages, fault):
    """Reset the network for one attempt."""
    NET.clear()
    NET.on = True
    NET.pages = pages
    NET.rng = random.Random(sc["net_seed"] + n)
    NET.redirect, NET.chunked = sc["redirect"], sc["chunked"]
    NET.fault = fault if fault and fault.get("where") == "net" else None


def attempt(w, sc, n, pages, fault, fn, snap):
    def act():
        serve(sc, n, pages, fault)
        return fn()

    def dry_act():
        serve(sc, n, pages, None)
        return fn()

    f = fault
    if fault and fault.get("where") == "net":
        f = {"where": "net", "what": fault["what"]}
    keep, w.dry = w.dry, lambda _fn: Run.dry(w, dry_act)
    try:
        out, d = w.go(act, f, snap)
    finally:
        w.dry = keep
    w.vtime += NET.time
    w.steps += len(NET.events)
    fired = dict(d.fired)
    for k, v in NET.fired.items():
        w.faults[k] = w.faults.get(k, 0) + v
        fired[k] = fired.get(k, 0) + v
    return out, d, fired


def read(p):
    try:
        with io.open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def c15_get(w, sc):
    import utils
    from pathlib import Path

    final = w.path("out", "data.bin")
    os.makedirs(w.path("out"))
    url = ("http" if sc["http"] else "https") + "://server.test/data.bin?download=1"
    prev = None
    for n, (ver, fault) in enumerate(sc["ops"]):
        new = blob(ver, sc["size"] if ver != 1 else sc["size"] // 2)
        pages = {"/data.bin": new}
        ill = []

        def snap(i, kind):
            b = read(final)
            if b is not None and b != prev and b != new:
                ill.append((i, kind, len(b)))

        out, d, fired = attempt(w, sc, n, pages, fault, lambda: utils.download_file(url, Path(final)), snap)
        b = read(final)
        got = "absent" if b is None else "new" if b == new else "previous" if b == prev else "partial"
        w.log("download", n, out, got, d.n, sorted(fired))
        w.res.cover.add(f"{out[0]}{out[1] if out[0] == 'ok' else ''}/{got}/{'+'.join(sorted(fired)) or 'healthy'}")
        judge(w, n, out, got, b, prev, new, fired, fault, ill)
        if w.res.viol:
            break
        prev = b
    return ["scripts/utils.download_file", "urllib.request and http.client"]


def judge(w, n, out, got, b, prev, new, fired, fault, ill):
    what = f"attempt {n}, fault {fault and fault['what']} -> {out}: "
    if got == "partial":
        w.bad("partial-file", what + f"{len(b)} bytes under the final name, neither the new ({len(new)}) nor the previous file")
    elif ill:
        w.bad("partial-visible", what + f"before disk operation {ill[0][0]} ({ill[0][1]}) {ill[0][2]} bytes were visible "
                                        "under the final name")
    elif got == "absent" and prev is not None:
        w.bad("previous-lost", what + "the previously complete file is gone")
    elif out[0] == "ok" and out[1] and got != "new":
        w.bad("false-success", what + f"success reported, the file is {got}")
    elif not fired and (out[0] != "ok" or not out[1]):
        w.bad("cannot-succeed", what + "no fault was injected")


def c15_main2(w, sc):
    import download_piv_2 as M

    out_dir = w.path("ds")
    os.makedirs(out_dir)
    recs = {f"{n}_RAFT256_{i}.tfrecord-0000{i}": blob(n + str(i), sc["size"] + i)
            for i, n in enumerate(["Training", "Validation", "Test"])}
    recs["Training_other.tfrecord"] = blob("o", 50)
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED if sc["http"] else zipfile.ZIP_STORED) as z:
        for k in sorted(recs):
            zi = zipfile.ZipInfo(k, (2020, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED if sc["http"] else zipfile.ZIP_STORED
            z.writestr(zi, recs[k])
    body = buf.getvalue()
    path = "/" + M.ZENODO_URL.split("://", 1)[1].partition("/")[2].split("?")[0]
    pages = {path: body}
    ops = list(sc["ops"]) + [[0, None]]
    processed = []

    def process(tfr, sub, *a, **k):
        with D.outside():
            processed.append((os.path.basename(os.fspath(tfr)), os.path.basename(os.fspath(sub)), read(tfr)))

    keep, M.process_tfrecord = M.process_tfrecord, process
    try:
        for n, (_, fault) in enumerate(ops):
            zips = {}

            def fn():
                processed.clear()
                return M.main(out_dir)

            def snap(i, kind):
                for p in finals(w.path("ds")):
                    b = read(p)
                    if b is not None and b != body:
                        zips[p] = len(b)

            out, d, fired = attempt(w, sc, n, pages, fault, fn, snap)
            snap(d.n, "end")
            w.log("build", n, out, sorted(x[:2] for x in processed), d.n, sorted(fired))
            w.res.cover.add(f"main2/{out[0]}/{len(processed)}/{'+'.join(sorted(fired)) or 'healthy'}")
            what = f"run {n}, fault {fault and fault['what']} -> {out}: "
            if zips:
                w.bad("partial-file", what + f"an archive of {list(zips.values())[0]} bytes instead of {len(body)} has the final name")
            for name, sub, b in processed:
                if b != recs.get(name):
                    w.bad("partial-processed", what + f"{name} was converted from {len(b or b'')} of {len(recs.get(name, b''))} bytes")
                    break
            if not fired:
                want = {(k, "train" if "Training" in k else "val" if "Validation" in k else "other")
                        for k in recs if "RAFT256" in k}
                if out[0] != "ok" or {x[:2] for x in processed} != want:
                    w.bad("cannot-succeed", what + f"no fault was injected, yet only {sorted(x[0] for x in processed)} were converted")
            if w.res.viol:
                break
    finally:
        M.process_tfrecord = keep
    return ["scripts/download_piv_2.main", "scripts/utils.download_file", "urllib.request and http.client", "zipfile"]


def finals(top):
    for d, _, fs in os.walk(top):
        for f in fs:
            if f.endswith(".zip"):
                yield os.path.join(d, f)


def c15_splits(w, sc):
    import download_piv_1 as M
    from pathlib import Path

    names = [f"case_{i:05d}_img1.tif case_{i:05d}_flow.flo" for i in range(sc["n"])]
    test = [f"test_{i}_img1.tif" for i in range(7)]
    base = "/" + M.BASE_URL.split("://", 1)[1].partition("/")[2]
    pages = {base + "/FlowData_train.list": ("\n".join(names) + "\n").encode(),
             base + "/FlowData_test.list": ("\n".join(test) + "\n").encode()}
    ops = list(sc["ops"]) + [[0, None]]
    first = None
    for n, (ver, fault) in enumerate(ops):
        out, d, fired = attempt(w, sc, n, pages, fault, lambda: M.fetch_splits(Path(w.path("s")), 7, list(sc["ratios"])), None)
        w.log("splits", n, out, d.n, sorted(fired))
        w.res.cover.add(f"splits/{out[0]}/{'+'.join(sorted(fired)) or 'healthy'}")
        if fired:
            continue
        if out[0] != "ok":
            w.bad("cannot-succeed", f"attempt {n} without a fault: {out}")
            break
        parts = {k: (read(w.path("s", k + ".txt")) or b"").decode().split("\n")[:-1] for k in ("train", "val", "tune", "test")}
        have = parts["train"] + parts["val"] + parts["tune"]
        if sorted(have) != sorted(names):
            w.bad("splits-lose-items", f"attempt {n}: {len(have)} of {len(names)} items after earlier failures, "
                                       f"{len(set(have))} distinct")
        elif parts["test"] != test:
            w.bad("splits-lose-items", f"attempt {n}: the test list has {len(parts['test'])} of {len(test)} items")
        elif first is not None and parts != first:
            w.bad("splits-differ", f"attempt {n}: the same seed and lists gave another split")
        first = parts
        if w.res.viol:
            break
    return ["scripts/download_piv_1.fetch_splits", "scripts/utils", "urllib.request and http.client"]


def c15_list(w, sc):
    import utils
    from pathlib import Path

    p = Path(w.path("l.txt"))
    for n, (ver, fault) in enumerate(list(sc["ops"]) + [[0, None]]):
        items = sc["items"][ver:]
        out, d, fired = attempt(w, sc, n, {}, fault, lambda: utils.write_list(p, items), None)
        w.log("list", n, out[:1], d.n, sorted(fired))
        w.res.cover.add(f"list/{out[0]}/{'+'.join(sorted(fired)) or 'healthy'}")
        if out[0] == "ok" and not d.dead:
            back = utils.read_list(p)
            if back != items:
                w.bad("list-differs", f"attempt {n}: wrote {len(items)} items, read {len(back)} (fault {sorted(fired)})")
        elif not fired:
            w.bad("cannot-succeed", f"attempt {n} without a fault: {out}")
        if w.res.viol:
            break
    return ["scripts/utils.write_list and read_list"]
