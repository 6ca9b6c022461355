"""Building scheduler stacks from a scenario, the scripted stub, reference streams."""

from . import env, kernel as K


class ScriptedError(Exception):
    pass


def exc_of(name):
    return {"ValueError": ValueError, "OSError": OSError, "MemoryError": MemoryError,
            "RuntimeError": RuntimeError, "KeyError": KeyError, "Scripted": ScriptedError,
            "AssertionError": AssertionError, "TypeError": TypeError}[name](f"scripted {name}")


class Stub:
    """A scripted scheduler: batch i holds the number gen*1000+i. Model component."""

    def __init__(self, n, errors=None, loop=False):
        self.n = n
        self.errors = dict(errors or {})
        self.pos = 0
        self.gen = 0
        self.loop = loop
        self._fl = ["stub"]
        self.shutdowns = 0

    @property
    def file_list(self):
        return self._fl

    @file_list.setter
    def file_list(self, v):
        self._fl = v

    def shutdown(self):
        self.shutdowns += 1

    def get_flow_fields_shape(self):
        return (2, 2, 2)

    def _fault(self, key):
        e = self.errors.get(str(key))
        if e:
            if e[1] > 0:
                e = self.errors[str(key)] = [e[0], e[1] - 1]
                K.CUR.io.count("wrapped_error_" + e[0])
                raise exc_of(e[0])

    def get_batch(self, batch_size):
        k = K.CUR
        k.io.op("stub", "stub")
        i = self.pos
        self._fault(i)
        if i >= self.n and not self.loop:
            raise StopIteration
        self.pos = i + 1
        v = self.gen * 1000 + i + 1
        a = env.np.full((batch_size, 2, 2, 2), v, env.np.float32)
        return env.SchedulerData(flow_fields=a, mask=env.np.ones((batch_size,), bool),
                                 files=tuple(f"s{v}" for _ in range(batch_size)))

    def reset(self):
        self.pos = 0
        self.gen += 1


class StubEpi(Stub):
    """Scripted episodic scheduler: batch value = episode*100 + step + 1."""

    def __init__(self, T, errors=None):
        super().__init__(10**6, errors)
        self.T = T
        self.ep = 0
        self.t = 0
        self.calls = 0

    @property
    def episode_length(self):
        return self.T

    def steps_remaining(self):
        return self.T - self.t

    def next_episode(self):
        self._fault("next")
        self.ep += 1
        self.t = 0

    def get_batch(self, batch_size):
        from synthpix.scheduler.protocol import EpisodeEnd

        if self.t >= self.T:
            raise EpisodeEnd
        K.CUR.io.op("stub", "stub")
        c = self.calls
        self.calls += 1
        self._fault(c)
        self.t += 1
        v = self.ep * 100 + self.t
        a = env.np.full((batch_size, 2, 2, 2), v, env.np.float32)
        return env.SchedulerData(flow_fields=a, mask=env.np.ones((batch_size,), bool),
                                 files=tuple(f"s{v}" for _ in range(batch_size)))

    def reset(self):
        self.gen += 1
        self.ep += 1
        self.t = 0


def build_under(u):
    """u: the scenario's description of the scheduler under the prefetcher."""
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler

    kind = u["kind"]
    if kind == "stub":
        return Stub(u["n"], u.get("errors")), None
    if kind == "stubloop":
        return Stub(u["n"], u.get("errors"), loop=True), None
    if kind == "stubepi":
        return StubEpi(u["T"], u.get("errors")), None
    d = env.dataset(u["data"], private=u.get("private", False))
    if u.get("list") is not None:
        files = [d.files[i] for i in u["list"]]
    elif u.get("paths"):
        files = list(u["paths"])
    else:
        files = list(d.files)
    kw = {"loop": u.get("loop", False), "randomize": u.get("randomize", False)}
    if u.get("images"):
        kw["include_images"] = True
    if u.get("key") is not None:
        kw["key"] = jax.random.PRNGKey(u["key"])
    s = env.make_base(d, u["data"]["kind"], files, **kw)
    if u.get("T"):
        s = EpisodicFlowFieldScheduler(s, batch_size=u["B"], episode_length=u["T"],
                                       key=jax.random.PRNGKey(u.get("ekey", 0)))
    return s, d


def bid(d, b):
    """Identity of a served batch (rows by content, plus mask and names)."""
    if d is None:
        v = env.np.asarray(b.flow_fields)
        vals = sorted(set(v.reshape(-1).tolist()))
        return int(vals[0]) if len(vals) == 1 else ["mixed"] + vals
    return [env.digest(b)] + [list(r) if isinstance(r, tuple) else r for r in env.rows(d, b)]


def reference(u, n):
    """First n batches handed out by the wrapped scheduler when driven directly."""
    from synthpix.scheduler.protocol import EpisodeEnd

    io = K.CUR.io
    q, io.quiet = io.quiet, True
    K.CUR.nopre += 1
    try:
        s, d = build_under(u)
        out = []
        while len(out) < n:
            try:
                out.append(bid(d, s.get_batch(u["B"])))
            except EpisodeEnd:
                s.next_episode()
            except StopIteration:
                break
        return out
    finally:
        io.quiet = q
        K.CUR.nopre -= 1


class Tracker:
    """Counts what the wrapped scheduler was asked for (its public get_batch)."""

    def __init__(self, s, cx):
        self.started = 0
        self.ok = 0
        self.ended = False
        self.calls = []
        self.on_ok = None
        orig = s.get_batch

        def get_batch(batch_size):
            self.started += 1
            rec = [cx.k.now, None]
            self.calls.append(rec)
            try:
                r = orig(batch_size)
                self.ok += 1
                if self.on_ok:
                    self.on_ok()
                return r
            except StopIteration:
                self.ended = True
                raise
            finally:
                rec[1] = cx.k.now

        s.get_batch = get_batch

    def inflight_end(self, t0_ns):
        """Latest end of a call that had started by t0 (None: still running)."""
        e = 0
        for a, b in self.calls:
            if a <= t0_ns:
                if b is None:
                    return None
                e = max(e, b)
        return e


def alive_threads(cx):
    return [t for t in cx.k.tasks if t.state != "done" and t.tid != 1]
