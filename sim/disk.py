"""Simulated disk: real files below one scratch directory, with every mutating
operation on them a decision point at which the disk may fail or the machine die.

The seam is in front of the operating system: io.open (and builtins.open), os.open,
os.write, os.replace and the other calls of the os module that change files. Python's
own buffering, pathlib, tempfile and shutil run for real on top of it.

Two kinds of death are simulated. A killed process loses what Python still buffered and
keeps everything handed to the operating system. A power failure also loses, per file,
any suffix of what was not synced (the last write torn) and any suffix of the directory
operations since the last sync; the surviving state is computed from a journal.
"""

import builtins
import contextlib
import errno
import io
import os
import random
import stat
import sys

R = {n: getattr(os, n) for n in (
    "open", "write", "pwrite", "close", "fsync", "fdatasync", "replace", "rename", "remove", "unlink", "link",
    "truncate", "ftruncate", "chmod", "fchmod", "sendfile", "fdopen", "symlink", "copy_file_range", "writev")
    if hasattr(os, n)}
_open = io.open

CUR = None


class Dead(BaseException):
    """The simulated machine has stopped."""


class Disk:
    def __init__(self, root, fault=None, seed=0, snap=None):
        self.root = os.path.realpath(root)
        self.fault = dict(fault) if fault else None  # {"at": op number, "what": ...}
        self.rng = random.Random(seed)
        self.n = 0  # operations so far
        self.ops = []
        self.dead = False
        self.fired = {}
        self.node = {}  # real path -> node
        self.fds = {}  # descriptor -> node
        self.content = {}  # node -> bytes at start (None: created later)
        self.journal = []
        self.nn = 0
        self.snap = snap  # called between operations
        self.sticky = False
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.islink(p):
                    self.node[p] = self.new()
                    with _open(p, "rb") as fh:
                        self.content[self.node[p]] = fh.read()
        self.start = dict(self.node)

    def new(self):
        self.nn += 1
        return self.nn

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def mine(self, path):
        try:
            p = os.path.join(os.path.realpath(os.path.dirname(os.fspath(path)) or "."), os.path.basename(os.fspath(path)))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.root + os.sep) else None

    # one operation is about to happen
    def op(self, kind, what):
        if self.dead:
            raise Dead()
        if self.snap:
            with outside():
                self.snap(self.n, kind)
        i = self.n
        self.n += 1
        self.ops.append(kind)
        f = self.fault
        if f and (i == f["at"] or (self.sticky and kind in ("write", "create", "fsync", "rename"))):
            w = f["what"]
            if w in ("kill", "power"):
                self.count("process_killed" if w == "kill" else "power_failure")
                self.dead = True
                raise Dead()
            if w == "kill_torn" and kind == "write":
                self.count("process_killed_inside_write")
                return "torn"
            if w == "kill_torn":
                self.count("process_killed")
                self.dead = True
                raise Dead()
            if w == "short" and kind == "write":
                self.count("short_write")
                return "short"
            if w == "INT":
                self.count("interrupt_signal")
                raise KeyboardInterrupt
            if w in ("ENOSPC", "EIO", "EDQUOT", "EROFS") and kind != "close" and not (w != "EIO" and kind == "read"):
                self.sticky = f.get("sticky", False)
                self.count("disk_" + w)
                e = getattr(errno, w)
                raise OSError(e, os.strerror(e), what)
        return None

    def reboot(self):
        """Bring the directory into a state that may follow a power failure."""
        rng = self.rng
        J = self.journal
        meta = [i for i, e in enumerate(J) if e[0] in ("create", "rename", "unlink", "link", "symlink")]
        sync = max([i for i, e in enumerate(J) if e[0] == "fsync"], default=-1)
        low = sum(1 for i in meta if i <= sync)
        keep = rng.randint(low, len(meta))
        paths = dict(self.start)
        for i in meta[:keep]:
            e = J[i]
            if e[0] == "create":
                paths[e[1]] = e[2]
            elif e[0] == "rename":
                if e[1] in paths:
                    paths[e[2]] = paths.pop(e[1])
            elif e[0] == "link":
                if e[1] in paths:
                    paths[e[2]] = paths[e[1]]
            elif e[0] == "unlink":
                paths.pop(e[1], None)
        data = {}
        for node in set(paths.values()):
            b = bytearray(self.content.get(node) or b"")
            last = max([i for i, e in enumerate(J) if e[0] == "fsync" and e[1] == node], default=-1)
            ch = [(i, e) for i, e in enumerate(J) if e[0] in ("write", "truncate") and e[1] == node]
            nd = sum(1 for i, _ in ch if i < last)
            mode = rng.randrange(3)
            n = nd if mode == 0 else len(ch) if mode == 1 else rng.randint(nd, len(ch))
            for j, (i, e) in enumerate(ch[:n]):
                if e[0] == "truncate":
                    if len(b) > e[2]:
                        del b[e[2]:]
                    else:
                        b += b"\0" * (e[2] - len(b))
                else:
                    w = e[3]
                    if j == n - 1 and j >= nd and mode == 2:
                        w = w[: rng.randint(0, len(w))]
                    if len(b) < e[2]:
                        b += b"\0" * (e[2] - len(b))
                    b[e[2]:e[2] + len(w)] = w
            data[node] = bytes(b)
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.islink(p) and p not in paths:
                    R["unlink"](p)
        for p, node in paths.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p) and not os.path.islink(p):
                R["unlink"](p)
            with _open(p, "wb") as f:
                f.write(data[node])
        return {"directory_operations_lost": len(meta) - keep}

    def __enter__(self):
        global CUR
        CUR = self
        return self

    def __exit__(self, *a):
        global CUR
        CUR = None
        return False


@contextlib.contextmanager
def outside():
    """The harness looks at the files itself: no faults, no operations counted."""
    global CUR
    keep, CUR = CUR, None
    try:
        yield
    finally:
        CUR = keep


def _on(path):
    d = CUR
    if d is None or not isinstance(path, (str, bytes, os.PathLike)):
        return None, None
    p = d.mine(path)
    return (d, p) if p is not None else (None, None)


def _rel(d, p):
    return p[len(d.root) + 1:]


class SimFile(io.FileIO):
    """A raw file opened for writing below the simulated disk's root."""

    def __init__(self, file, mode="r", closefd=True, opener=None):
        d = CUR
        self._d = d
        if isinstance(file, int):
            super().__init__(file, mode, closefd, opener)
        elif opener is not None:
            super().__init__(file, mode, closefd, opener)
            if self.fileno() not in d.fds:
                d.fds[self.fileno()] = d.new()
        else:
            p = d.mine(file)
            _pre_create(d, p, "w" in mode or "x" in mode)
            super().__init__(p if p is not None else file, mode, closefd)
            _registered(d, p, self.fileno(), "w" in mode)
        self._node = d.fds.get(self.fileno())

    def write(self, b):
        d = self._d
        if d.dead:
            raise Dead()
        b = bytes(b)
        what = d.op("write", None)
        if what == "short" and len(b) > 1:
            b = b[: max(1, len(b) // 3)]
        if what == "torn":
            b = b[: d.rng.randint(0, len(b))]
        pos = self.tell() if "a" not in self.mode else os.fstat(self.fileno()).st_size
        n = super().write(b)
        d.journal.append(("write", self._node, pos, b[:n]))
        if what == "torn":
            d.dead = True
            raise Dead()
        return n

    def truncate(self, size=None):
        d = self._d
        d.op("truncate", None)
        r = super().truncate(size)
        d.journal.append(("truncate", self._node, os.fstat(self.fileno()).st_size))
        return r

    def close(self):
        d = getattr(self, "_d", None)
        if d is not None and not self.closed:
            fd = self.fileno()
            if not d.dead:
                try:
                    d.op("close", None)
                except Dead:
                    pass
            d.fds.pop(fd, None)
        super().close()
        if d is not None and d.dead and CUR is d:
            raise Dead()

    def __del__(self):
        try:
            if not self.closed:
                io.FileIO.close(self)
        except BaseException:  # noqa: BLE001
            pass


def _pre_create(d, p, trunc):
    ex = os.path.exists(p)
    if not ex:
        d.op("create", p)
    elif trunc:
        d.op("truncate", p)
    elif d.dead:
        raise Dead()


def _registered(d, p, fd, trunc):
    q = os.path.realpath(p)
    node = d.node.get(q)
    if node is None:
        node = d.node[q] = d.new()
        d.journal.append(("create", q, node))
    elif trunc:
        d.journal.append(("truncate", node, 0))
    d.fds[fd] = node


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = CUR
    if d is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if d.dead:
        raise Dead()
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        mine = file in d.fds
    else:
        mine = d.mine(file) is not None
    if mine and not writing and not isinstance(file, int) and os.path.exists(file):
        d.op("read", os.fspath(file))
    if not writing or not mine:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimFile(file, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = buffering == 1 and not binary
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t
    except BaseException:
        io.FileIO.close(raw)
        raise


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    d, p = _on(path) if dir_fd is None else (None, None)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if d is None or not w:
        return R["open"](path, flags, mode, dir_fd=dir_fd)
    if os.path.exists(p) and flags & os.O_EXCL and flags & os.O_CREAT:
        return R["open"](path, flags, mode)
    _pre_create(d, p, bool(flags & os.O_TRUNC))
    fd = R["open"](path, flags, mode)
    _registered(d, p, fd, bool(flags & os.O_TRUNC))
    return fd


def os_write(fd, data):
    d = CUR
    if d is None or fd not in d.fds:
        return R["write"](fd, data)
    b = bytes(data)
    what = d.op("write", None)
    if what == "short" and len(b) > 1:
        b = b[: max(1, len(b) // 3)]
    if what == "torn":
        b = b[: d.rng.randint(0, len(b))]
    pos = os.lseek(fd, 0, os.SEEK_CUR)
    n = R["write"](fd, b)
    d.journal.append(("write", d.fds[fd], pos, b[:n]))
    if what == "torn":
        d.dead = True
        raise Dead()
    return n


def os_sendfile(out, inp, offset, count, *a, **k):
    d = CUR
    if d is None or out not in d.fds:
        return R["sendfile"](out, inp, offset, count, *a, **k)
    raise OSError(errno.ENOTSOCK, "not available in the simulation")  # shutil then copies by read and write


def os_close(fd):
    d = CUR
    if d is not None and fd in d.fds:
        d.fds.pop(fd)
        R["close"](fd)
        d.op("close", None)
        return
    return R["close"](fd)


def _fsync(name):
    def f(fd):
        d = CUR
        n = fd if isinstance(fd, int) else fd.fileno()
        if d is None:
            return R[name](fd)
        if d.dead:
            raise Dead()
        if n in d.fds:
            d.op("fsync", None)
            d.journal.append(("fsync", d.fds[n]))
            return None
        try:
            isdir = stat.S_ISDIR(os.fstat(n).st_mode)
        except OSError:
            isdir = False
        if isdir:
            d.journal.append(("fsync", None))
            return None
        return R[name](fd)

    return f


def _far(src, dst):
    """What lies outside (e.g. /tmp) is another file system."""
    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)


def _rename(name):
    def f(src, dst, *a, **k):
        d, p = _on(dst)
        if d is None and _on(src)[0] is not None or d is not None and d.mine(src) is None:
            _far(src, dst)
        if d is None or a or any(v is not None for v in k.values()):
            return R[name](src, dst, *a, **k)
        s = d.mine(src)
        d.op("rename", p)
        R[name](src, dst)
        d.journal.append(("rename", s, p))
        if s in d.node:
            d.node[p] = d.node.pop(s)

    return f


def _unlink(name):
    def f(path, *, dir_fd=None):
        d, p = _on(path) if dir_fd is None else (None, None)
        if d is None:
            return R[name](path, dir_fd=dir_fd)
        if not os.path.lexists(p):
            return R[name](path)
        d.op("unlink", p)
        R[name](path)
        d.journal.append(("unlink", p))
        d.node.pop(p, None)

    return f


def os_link(src, dst, **k):
    d, p = _on(dst)
    if d is None:
        return R["link"](src, dst, **k)
    if d.mine(src) is None:
        _far(src, dst)
    d.op("link", p)
    R["link"](src, dst, **k)
    d.journal.append(("link", d.mine(src), p))
    d.node[p] = d.node.get(d.mine(src))


def os_truncate(path, length):
    d = CUR
    if d is not None and isinstance(path, int) and path in d.fds:
        d.op("truncate", None)
        R["ftruncate"](path, length)
        d.journal.append(("truncate", d.fds[path], length))
        return
    if d is not None and not isinstance(path, int) and d.mine(path) is not None:
        p = os.path.realpath(path)
        d.op("truncate", p)
        R["truncate"](path, length)
        d.journal.append(("truncate", d.node.get(p), length))
        return
    return R["truncate"](path, length)


def os_ftruncate(fd, length):
    return os_truncate(fd, length)


def os_chmod(path, *a, **k):
    d, p = _on(path)
    if d is not None:
        d.op("chmod", p)
    return R["chmod"](path, *a, **k)


def install():
    io.open = builtins.open = sim_open
    os.open = os_open
    os.write = os_write
    os.close = os_close
    os.sendfile = os_sendfile
    for n in ("fsync", "fdatasync"):
        setattr(os, n, _fsync(n))
    for n in ("replace", "rename"):
        setattr(os, n, _rename(n))
    for n in ("remove", "unlink"):
        setattr(os, n, _unlink(n))
    os.link = os_link
    os.truncate = os_truncate
    os.ftruncate = os_ftruncate
    os.chmod = os_chmod
    import shutil

    # shutil copies descriptors inside the kernel where it can: out of reach of the seam
    for n in ("_USE_CP_SENDFILE", "_USE_CP_COPY_FILE_RANGE"):
        if hasattr(shutil, n):
            setattr(shutil, n, False)
    hook = sys.unraisablehook

    def quiet(u):
        if u.exc_type is not None and issubclass(u.exc_type, Dead):
            return
        hook(u)

    sys.unraisablehook = quiet
