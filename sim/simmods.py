"""Simulated stdlib modules and the seams that put synthpix on top of them.

The *real* stdlib sources of threading.py, queue.py and concurrent.futures are
executed as private copies over the simulated ``_thread`` and ``time`` modules,
so a ``queue.Queue`` inside the simulation is the real algorithm, preemptible at
every lock operation.  A hook on ``builtins.__import__`` hands those copies to
modules whose name starts with ``synthpix`` and to nobody else.
"""

import builtins
import importlib.util
import sys
import time as _rtime
import types
import _thread as _rthread

from . import kernel as K

_real_import = builtins.__import__
MODS = {}


def _mk_time():
    m = types.ModuleType("time")
    for n in dir(_rtime):
        if not n.startswith("__"):
            setattr(m, n, getattr(_rtime, n))

    def wall():
        k = K.CUR
        return k.wall() / K.NS if k else _rtime.time()

    def mono():
        k = K.CUR
        return (k.now + 1000 * K.NS) / K.NS if k else _rtime.monotonic()

    def sleep(s):
        k = K.CUR
        if k is None or k.me() is None:
            if k is None:
                _rtime.sleep(min(s, 0.01))
            return
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        k.sleep(s, "time.sleep")

    m.time = wall
    m.time_ns = lambda: K.CUR.wall() if K.CUR else _rtime.time_ns()
    m.monotonic = mono
    m.perf_counter = mono
    m.monotonic_ns = lambda: K.CUR.now + 1000 * K.NS if K.CUR else _rtime.monotonic_ns()
    m.perf_counter_ns = m.monotonic_ns
    m.sleep = sleep
    return m


def _mk_thread():
    m = types.ModuleType("_thread")
    for n in dir(_rthread):
        if not n.startswith("__"):
            setattr(m, n, getattr(_rthread, n))
    m.allocate_lock = K.SimLock
    m.allocate = K.SimLock
    m.lock = K.SimLock
    m.LockType = K.SimLock
    m.RLock = K.SimRLock
    m.start_new_thread = K.start_new_thread
    m.start_new = K.start_new_thread
    m.get_ident = K.get_ident
    m.get_native_id = K.get_ident
    m._set_sentinel = K._set_sentinel
    return m


def _load_private(name, table):
    """Execute the stdlib source of `name` with imports redirected by `table`."""
    spec = importlib.util.find_spec(name)
    with open(spec.origin) as f:
        src = f.read()
    m = types.ModuleType(name)
    m.__file__ = spec.origin
    m.__package__ = name.rpartition(".")[0]

    def imp(n, g=None, lo=None, fromlist=(), level=0):
        if level == 0 and n in table:
            r = table[n]
            if r is None:
                raise ImportError(n)
            if "." in n and not fromlist:
                return table[n.partition(".")[0]]
            return r
        return _real_import(n, g, lo, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = imp
    m.__dict__["__builtins__"] = b
    exec(compile(src, spec.origin, "exec"), m.__dict__)
    return m


def _excepthook(args):
    k = K.CUR
    if args.exc_type is K.SimKill or k is None:
        return
    if args.exc_type is K.SimAbort:
        k._abort_driver(args.exc_value)
        return
    k.thread_errors.append((getattr(args.thread, "name", "?"), f"{args.exc_type.__name__}: {args.exc_value}"))
    k._note("thread_error", args.exc_type.__name__)


def install():
    """Build the private modules and hook imports made by synthpix."""
    if MODS:
        return MODS
    th = _mk_thread()
    tm = _mk_time()
    import os as _os

    fake_os = types.ModuleType("os")
    for n in dir(_os):
        if n not in ("register_at_fork",) and not n.startswith("__"):
            setattr(fake_os, n, getattr(_os, n))
    table = {"_thread": th, "time": tm, "os": fake_os}
    threading = _load_private("threading", table)
    threading.excepthook = _excepthook
    table = {"_thread": th, "time": tm, "threading": threading, "_queue": None}
    queue = _load_private("queue", table)
    table = {"_thread": th, "time": tm, "threading": threading, "queue": queue, "os": fake_os}
    cfb = _load_private("concurrent.futures._base", table)
    futures = types.ModuleType("concurrent.futures")
    futures._base = cfb
    table["concurrent.futures"] = futures
    table["concurrent"] = types.ModuleType("concurrent")
    table["concurrent"].futures = futures
    try:
        cft = _load_private("concurrent.futures.thread", table)
        futures.thread = cft
        futures.ThreadPoolExecutor = cft.ThreadPoolExecutor
    except Exception:  # pragma: no cover
        pass
    for n in ("Future", "Executor", "wait", "as_completed", "TimeoutError", "CancelledError",
              "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"):
        if hasattr(cfb, n):
            setattr(futures, n, getattr(cfb, n))
    sched_mod = _load_private("sched", {"time": tm, "threading": threading})
    MODS.update({
        "_thread": th, "time": tm, "threading": threading, "queue": queue,
        "concurrent.futures": futures, "concurrent": table["concurrent"], "sched": sched_mod,
    })

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        if globals is not None and level == 0 and name in MODS:
            gn = globals.get("__name__", "")
            if isinstance(gn, str) and (gn.startswith("synthpix")):
                if "." in name and not fromlist:
                    return MODS[name.partition(".")[0]]
                return MODS[name]
        return _real_import(name, globals, locals, fromlist, level)

    builtins.__import__ = hook
    _null_goggles()
    return MODS


class _Null:
    def __getattr__(self, n):
        return lambda *a, **k: None


def _null_goggles():
    """goggles.get_logger starts a real event-bus server: replace the logger only."""
    import goggles

    goggles.get_logger = lambda *a, **k: _Null()


def fresh_run():
    """Reset module-level state of the private threading copy before a run."""
    import itertools

    t = MODS["threading"]
    t._active.clear()
    t._limbo.clear()
    t._dangling.clear()
    t._shutdown_locks.clear() if hasattr(t, "_shutdown_locks") else None
    t._counter = itertools.count(1).__next__
    t._active_limbo_lock = t.RLock() if not isinstance(t._active_limbo_lock, K.SimLock) else K.SimLock()
    t._active[1] = t._main_thread


# ---------------------------------------------------------------------------
# Line-level preemption points in synthpix (sys.monitoring)
# ---------------------------------------------------------------------------
TOOL = 4
_mon_on = False
_names = {}


def _codes(obj, modname, out, seen):
    if isinstance(obj, types.FunctionType):
        if obj.__module__ == modname:
            _walk(obj.__code__, out, seen)
        w = getattr(obj, "__wrapped__", None)
        if w is not None:
            _codes(w, modname, out, seen)
    elif isinstance(obj, (staticmethod, classmethod)):
        _codes(obj.__func__, modname, out, seen)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                _codes(f, modname, out, seen)
    elif isinstance(obj, type):
        if obj.__module__ == modname:
            for v in vars(obj).values():
                _codes(v, modname, out, seen)


def _walk(code, out, seen):
    if code in seen:
        return
    seen.add(code)
    if code.co_name not in ("<lambda>", "<genexpr>"):
        out.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out, seen)


def enable_lines():
    """Arm LINE events on all scheduler/sampler code of synthpix."""
    global _mon_on
    if _mon_on:
        return
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "synthpix-dst")
    codes, seen = [], set()
    skip_fn = {"flow_field_adapter", "bilinear_interpolate", "trilinear_interpolate"}
    for mn, m in sorted(sys.modules.items()):
        if mn.startswith("synthpix.scheduler") or mn.startswith("synthpix.sampler") or mn in (
            "synthpix.sanity",
            "synthpix.make",
        ):
            for v in list(vars(m).values()):
                _codes(v, mn, codes, seen)
        elif mn == "synthpix.utils":
            for n, v in vars(m).items():
                if n in ("discover_leaf_dirs",):
                    _codes(v, mn, codes, seen)
    for c in codes:
        if c.co_name in skip_fn:
            continue
        _names[c] = c.co_qualname
        mon.set_local_events(TOOL, c, mon.events.LINE)

    def on_line(code, line):
        k = K.CUR
        if k is None:
            return None
        k.point(f"{_names.get(code, code.co_name)}:{line}")
        return None

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    _mon_on = True
    return len(codes)
