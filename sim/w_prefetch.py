"""Worlds around the prefetching scheduler: C01, C02, C03, C05, C10, C16, C18."""

import gc
import sys

from . import env, kernel as K
from .core import gen_sched, simulate
from .stack import Tracker, alive_threads, bid, build_under, reference

EPS = 1e-6


# ---------------------------------------------------------------------------
# scenario generation
# ---------------------------------------------------------------------------

DATA = [
    {"kind": "npy", "dirs": [["", 4]]},
    {"kind": "npy", "dirs": [["", 7]]},
    {"kind": "npy", "dirs": [["", 1]]},
    {"kind": "h5", "dirs": [["", 3, [2, 1, 3]]]},
    {"kind": "h5", "dirs": [["", 4, [1, 3]]]},
    {"kind": "mat", "dirs": [["", 5]]},
]
EDATA = [
    {"kind": "mat", "dirs": [["a", 4], ["b", 3]]},
    {"kind": "mat", "dirs": [["a", 6]]},
    {"kind": "mat", "dirs": [["a", 3], ["b", 5], ["c", 4]], "mat_fmt": "v73"},
]


def gen_under(r, kinds, B=None):
    kind = r.choice(kinds)
    B = B or r.randint(1, 3)
    if kind == "stub":
        return {"kind": "stub", "n": r.choice([0, 1, 2, 3, 5, 8, 12]), "B": B}
    if kind == "stubloop":
        return {"kind": "stubloop", "n": 5, "B": B}
    if kind == "stubepi":
        return {"kind": "stubepi", "T": r.randint(1, 5), "B": B}
    if kind == "epi":
        return {"kind": "real", "data": r.choice(EDATA), "B": B, "T": r.randint(1, 3),
                "ekey": r.randrange(50), "loop": r.random() < 0.4, "paths": None,
                "randomize": r.random() < 0.2}
    u = {"kind": "real", "data": r.choice(DATA), "B": B, "randomize": r.random() < 0.3,
         "loop": kind == "loop", "key": r.randrange(20)}
    if u["data"]["kind"] != "h5" and r.random() < 0.25:
        u["images"] = u["data"]["kind"] == "mat"
    n = sum(d[1] for d in u["data"]["dirs"])
    if r.random() < 0.4:
        u["list"] = [r.randrange(n) for _ in range(r.randint(1, n + 2))]
    return u


def fix_paths(u):
    return u


def is_epi(u):
    return u["kind"] == "stubepi" or bool(u.get("T"))


def gen(prop, r, tier):
    sc = gen_sched(r)
    g = globals()["gen_" + prop](r, sc)
    g["prop"] = prop
    if prop in ("C01", "C02", "C03", "C05", "C10") and r.random() < 0.06:
        g["lat"] = "awful"  # a disk that takes longer than any timeout
    return g


def base_sc(r, sc, kinds):
    sc["under"] = gen_under(r, kinds)
    sc["buffer"] = r.choice([1, 1, 2, 3, 4, 8])
    sc["startup"] = r.choice([30.0, 30.0, 5.0, 1.0])
    sc["steady"] = r.choice([2.0, 2.0, 0.25, 5.0])
    return sc


BIG_BUFFERS = [1, 2, 16, 40, 64, 150]


def big(r, sc, p=0.03):
    """Sometimes a history far longer than the others, and mostly without delays."""
    if r.random() >= p:
        return False
    sc["step_limit"] = 2_000_000
    sc["buffer"] = r.choice(BIG_BUFFERS)
    sc["p_switch"] = r.choice([0.02, 0.1])
    sc["p_stall"] = 0.0
    if r.random() < 0.7:
        sc["lat"] = r.choice(["zero", "fast"])
    return True


def pauses(r):
    return r.choice([0.0, 0.01, 0.3, 1.0, 2.5, 4.0, 60.0])


def gen_C01(r, sc):
    base_sc(r, sc, ["stub", "stub", "stubloop", "finite", "finite", "loop", "stubepi", "epi"])
    ops = []
    slow = r.random() < 0.5
    for _ in range(r.randint(1, 16)):
        if r.random() < (0.5 if slow else 0.15):
            ops.append(["pause", pauses(r)])
        else:
            ops.append(["get"])
    if big(r, sc):
        u = sc["under"]
        if u["kind"] == "stub":
            u["n"] = r.choice([60, 130, 300])
        if u["kind"] == "stubepi":
            u["T"] = r.randint(5, 70)
        ops = ops[:2]
        for _ in range(r.randint(1, 6)):
            ops += [["get"]] * r.randint(5, 60)
            if r.random() < 0.5:
                ops.append(["pause", pauses(r)])
    sc["ops"] = ops
    return sc


def gen_C18(r, sc):
    base_sc(r, sc, ["stub", "stubloop", "finite", "loop", "stubepi", "epi"])
    sc["p_stall"] = 0.0
    ops = []
    for _ in range(r.randint(1, 10)):
        ops.append(r.choice([["get"], ["get"], ["pause", pauses(r)], ["idle"], ["reset"], ["next"]]))
    if big(r, sc):
        u = sc["under"]
        if u["kind"] == "stub":
            u["n"] = r.choice([60, 130, 300])
        if u["kind"] == "stubepi":
            u["T"] = r.randint(5, 70)
        for _ in range(r.randint(2, 12)):
            ops += [["get"]] * r.choice([1, 5, 30])
            ops.append(r.choice([["pause", pauses(r)], ["idle"], ["idle"], ["reset"], ["next"]]))
    sc["ops"] = ops + [["idle"]]
    return sc


def gen_C03(r, sc):
    base_sc(r, sc, ["stub", "stub", "stubloop", "finite", "loop", "stubepi", "epi"])
    sc["prefetch"] = r.random() < 0.75
    if not sc["prefetch"] and sc["under"]["kind"] == "stubepi":
        sc["under"]["kind"] = "stub"
        sc["under"]["n"] = 4
    if not sc["prefetch"]:
        u = sc["under"]
        if u["kind"] != "real":
            sc["under"] = gen_under(r, ["finite", "loop", "epi"])
    ops = []
    for _ in range(r.randint(1, 6)):
        for _ in range(r.randint(0, 6)):
            ops.append(r.choice([["get"], ["get"], ["get"], ["pause", pauses(r)]]
                                + ([["next"]] if is_epi(sc["under"]) else [])))
        if sc["prefetch"] and r.random() < 0.2:
            ops.append(["shutdown"])
            if r.random() < 0.5:
                ops.append(["get"])
        ops.append(["reset"])
    if big(r, sc, 0.02) and sc["prefetch"]:
        sc["buffer"] = min(sc["buffer"], 40)
        u = sc["under"]
        if u["kind"] == "stub":
            u["n"] = r.choice([3, 30, 60])
        if u["kind"] == "stubepi":
            u["T"] = r.choice([2, 30])
        for _ in range(r.choice([3, 12, 30])):
            ops += [["get"]] * r.choice([0, 1, 2, 2, 40])
            ops.append(["reset"])
    sc["ops"] = ops
    sc["jumps"] = []
    return sc


def gen_C02(r, sc):
    base_sc(r, sc, ["stub", "stubloop", "finite", "loop", "stubepi", "epi"])
    sc["p_stall"] = 0.0
    ops = []
    for _ in range(r.randint(1, 9)):
        ops.append(r.choice([["get"], ["get"], ["pause", pauses(r)], ["shutdown"], ["shutdown"],
                             ["reset"], ["next"], ["is_running"]]))
    if big(r, sc, 0.02):
        for _ in range(r.randint(10, 60)):
            ops.append(r.choice([["get"], ["get"], ["reset"], ["reset"], ["next"], ["pause", pauses(r)]]))
    sc["ops"] = ops
    sc["actor"] = r.choice([None, None, "shutdown", "shutdown"])
    sc["actor_at"] = round(r.uniform(0, 8), 3)
    sc["jt"] = r.choice([2.0, 2.0, 0.3, 5.0])
    if sc["actor"] is None and r.random() < 0.25:
        sc["drop"] = True
    if r.random() < 0.3:
        sc["jumps"] = [[round(r.uniform(0, 10), 2), r.choice([-3600.0, -5.0, 5.0, 3600.0])]]
    return sc


def gen_C05(r, sc):
    sc2 = gen_sched(r, jumps=True)
    sc.update(sc2)
    base_sc(r, sc, ["stubepi", "stubepi", "epi"])
    if sc["under"]["kind"] == "stubepi":
        sc["under"]["T"] = r.randint(1, 6)
    T = sc["under"]["T"]
    ops = []
    for _ in range(r.randint(1, 5)):
        for _ in range(r.choice([0, 1, T - 1, T, T + 1, r.randint(0, T)])):
            ops.append(["get"])
            if r.random() < 0.15:
                ops.append(["pause", pauses(r)])
        if r.random() < 0.2:
            ops.append(["pause", pauses(r)])
        ops.append(["next"] if r.random() < 0.8 else ["next", r.choice([0.0, 0.01, 0.5, 5.0])])
    if big(r, sc):
        sc["jumps"] = []
        if sc["under"]["kind"] == "stubepi":
            T = sc["under"]["T"] = r.choice([4, 20, 60])
        ops = ops[:3]
        for _ in range(r.randint(3, 12)):
            ops += [["get"]] * r.choice([0, 1, T // 2, T - 1, T])
            ops.append(["next"])
    for _ in range(T):
        ops.append(["get"])
    sc["ops"] = ops
    return sc


def gen_C10(r, sc):
    base_sc(r, sc, ["stub", "stub", "stubepi"])
    u = sc["under"]
    name = r.choice(["ValueError", "OSError", "MemoryError", "RuntimeError", "KeyError", "Scripted",
                     "AssertionError", "TypeError"])
    if u["kind"] == "stub":
        u["n"] = r.randint(1, 8)
        at = r.randint(0, u["n"] - 1)
    else:
        at = r.choice([r.randint(0, 7), "next"])
    if big(r, sc):
        if u["kind"] == "stub":
            u["n"] = r.choice([40, 100, 200])
            at = r.randint(20, u["n"] - 1)
        else:
            u["T"] = r.choice([3, 20, 50])
            at = r.choice([r.randint(0, 150), "next"])
    u["errors"] = {str(at): [name, r.choice([1, 1, 1000000])]}
    ops = []
    for _ in range(r.randint(1, 10)):
        ops.append(r.choice([["get"], ["get"], ["get"], ["pause", pauses(r)]]))
        if u["kind"] == "stubepi" and r.random() < 0.25:
            ops.append(["flush"] if r.random() < 0.7 else ["flush", r.choice([0.0, 0.01, 0.5, 5.0])])
    sc["ops"] = ops
    sc["finish"] = r.choice(["reset", "shutdown"])
    return sc


def gen_C16(r, sc):
    base_sc(r, sc, ["stub", "stub", "finite"])
    sc["lat"] = r.choice(["zero", "zero", "fast", "mixed", "slow"])
    sc["p_switch"] = r.choice([0.05, 0.2, 0.4, 0.7])
    sc["consumers"] = r.randint(2, 4)
    sc["gap"] = r.choice([0.0, 0.0, 0.01, 0.5, 3.0])
    if big(r, sc):
        sc["p_switch"] = r.choice([0.1, 0.4])
        sc["consumers"] = r.randint(2, 12)
        if sc["under"]["kind"] == "stub":
            sc["under"]["n"] = r.choice([40, 120])
    return sc


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------

def call(cx, what, fn):
    """Run one API call; log [what, t0, t1, outcome]."""
    from synthpix.scheduler.protocol import EpisodeEnd

    t0 = cx.now()
    try:
        out = fn()
    except StopIteration:
        out = ["stop"]
    except EpisodeEnd:
        out = ["ee"]
    except Exception as e:
        out = ["exc", type(e).__name__, str(e)[:120]]
    cx.log(what, t0, cx.now(), out)
    return out, t0, cx.now()


def mk(cx, sc, u):
    from synthpix.scheduler import PrefetchingFlowFieldScheduler

    s, d = build_under(u)
    tr = Tracker(s, cx)
    pf = PrefetchingFlowFieldScheduler(s, batch_size=u["B"], buffer_size=sc["buffer"],
                                       startup_timeout=sc["startup"], steady_state_timeout=sc["steady"])
    return pf, s, d, tr


def getter(pf, d, B):
    return lambda: ["b", bid(d, pf.get_batch(B))]


def run(sc, seed=None, replay=None):
    if sc.get("drop"):
        gc.collect()  # leftovers of earlier runs
    return simulate(sc, lambda cx: globals()["body_" + sc["prop"]](cx, sc), seed, replay)


def body_C01(cx, sc):
    u = fix_paths(sc["under"])
    epi = is_epi(u)
    nget = sum(1 for o in sc["ops"] if o[0] == "get")
    finite = not epi and not u.get("loop") and u["kind"] != "stubloop"
    L = reference(u, 2000 if finite else nget + 40)
    if not finite and len(L) < nget + 40:
        cx.bad("reference-ended", f"the wrapped scheduler itself stopped after {len(L)} batches")
        return
    pf, s, d, tr = mk(cx, sc, u)
    T = pf.episode_length if epi else 0
    got = 0
    t_ep = 0
    first = False

    def one(strict=False):
        nonlocal got, t_ep, first
        if epi and t_ep == T:
            out, a, b = call(cx, "get", getter(pf, d, u["B"]))
            if out[0] != "ee":
                cx.bad("episode-overrun", f"get_batch after the full episode gave {out} instead of EpisodeEnd")
                return "bad"
            out, a, b = call(cx, "next", lambda: ["ok", pf.next_episode()])
            if out[0] != "ok":
                cx.bad("exception", f"next_episode raised {out}")
                return "bad"
            t_ep = 0
        out, a, b = call(cx, "get", getter(pf, d, u["B"]))
        if out[0] == "b":
            if got >= len(L):
                if finite:
                    cx.bad("extra-batch", f"batch {out[1]} delivered after all {len(L)} batches")
                return "bad"
            if out[1] != L[got]:
                where = L.index(out[1]) if out[1] in L else None
                kind = "altered" if where is None else ("lost" if where > got else "duplicated")
                cx.bad("wrong-batch:" + kind,
                       f"delivery {got} is {out[1]}, direct use of the wrapped scheduler gives {L[got]}")
                return "bad"
            got += 1
            t_ep += 1
            first = True
            return "b"
        if out[0] == "stop":
            if finite and got == len(L):
                return "eos"
            lim = sc["steady"] if first else sc["startup"]
            if b - a < lim - EPS:
                cx.bad("early-stop", f"StopIteration after {b - a:.3f}s (timeout {lim}s) with {len(L) - got} batches undelivered")
                return "bad"
            if strict:
                cx.bad("lost", f"StopIteration although idle for long: {len(L) - got if finite else 'more'} batches never delivered (got {got})")
                return "bad"
            return "stop"
        cx.bad("exception", f"get_batch raised {out}")
        return "bad"

    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif one() == "bad":
            return
    # faults stop; everything must now arrive without waiting
    cx.quiet()
    cx.pause(300.0)
    if finite:
        eos = 0
        for _ in range(len(L) - got + 2):
            r = one(strict=True)
            if r == "bad":
                return
        for _ in range(2):
            if one() != "eos":
                cx.bad("no-eos", "end of stream is not reported again")
                return
    else:
        for _ in range(sc["buffer"] + 3):
            if one(strict=True) == "bad":
                return
    pf.shutdown()


def body_C18(cx, sc):
    u = fix_paths(sc["under"])
    epi = is_epi(u)
    pf, s, d, tr = mk(cx, sc, u)
    T = pf.episode_length if epi else 0
    st = {"req": 0, "inget": 0, "t": 0, "okbase": 0}

    def on_ok():
        ahead = tr.ok - st["okbase"] - st["req"] - st["inget"]
        if ahead > sc["buffer"] + 1:
            cx.bad("over-read", f"{ahead} batches loaded beyond the {st['req']} consumed (buffer_size {sc['buffer']})")

    tr.on_ok = on_ok
    started = fuzzy = False
    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif op[0] == "reset":
            out, a, b = call(cx, "reset", lambda: ["ok", pf.reset()])
            st.update(req=0, t=0, okbase=tr.ok)
            tr.ended = False
            started = fuzzy = False
        elif op[0] == "next":
            if not epi:
                continue
            if started:
                st["req"] += T - st["t"]
            out, a, b = call(cx, "next", lambda: ["ok", pf.next_episode()])
            if b - a >= 2.0 - 1e-3:
                fuzzy = True  # flush timed out: abandoned batches still fill the buffer
            st["t"] = 0
            started = True
        elif op[0] == "get":
            if epi and st["t"] == T:
                call(cx, "next", lambda: ["ok", pf.next_episode()])
                st["t"] = 0
            started = True
            st["inget"] = 1
            out, a, b = call(cx, "get", getter(pf, d, u["B"]))
            st["inget"] = 0
            if out[0] == "b":
                st["req"] += 1
                st["t"] += 1
        elif op[0] == "idle":
            if not started or fuzzy:
                continue
            q = cx.io.quiet
            cx.io.quiet = True
            cx.pause(400.0)
            have = tr.ok - st["okbase"] - st["req"]
            if not tr.ended and have < sc["buffer"]:
                cx.bad("under-fill", f"after a long idle time only {have} batches are loaded ahead (buffer_size {sc['buffer']}, stream not ended)")
            avail = min(have, sc["buffer"], (T - st["t"]) if epi else 10**6)
            for _ in range(max(0, avail)):
                st["inget"] = 1
                out, a, b = call(cx, "get", getter(pf, d, u["B"]))
                st["inget"] = 0
                if out[0] != "b":
                    cx.bad("not-ready", f"get_batch gave {out} although {have} batches were loaded")
                    break
                st["req"] += 1
                st["t"] += 1
                if b - a > 1e-3:
                    cx.bad("not-ready", f"get_batch took {b - a:.3f}s although the buffer had been filled")
                    break
            cx.io.quiet = q
    pf.shutdown()


def body_C16(cx, sc):
    u = fix_paths(sc["under"])
    L = reference(u, 200)
    pf, s, d, tr = mk(cx, sc, u)
    got = [[] for _ in range(sc["consumers"])]
    errs = []
    calls = []  # [start, end (global order), batch?, virtual seconds]
    order = [0]

    def stamp():
        order[0] += 1
        return order[0]

    def consumer(i):
        stops = 0
        while stops < 2:
            c = [stamp(), None, False, cx.now()]
            calls.append(c)
            try:
                b = pf.get_batch(u["B"])
            except StopIteration:
                stops += 1
                c[1], c[3] = stamp(), cx.now() - c[3]
                continue
            except Exception as e:
                errs.append((i, type(e).__name__, str(e)[:100]))
                return
            c[1], c[2], c[3] = stamp(), True, cx.now() - c[3]
            got[i].append(bid(d, b))
            if sc["gap"]:
                cx.k.sleep(sc["gap"], "consumer_gap")

    ths = [cx.spawn(lambda i=i: consumer(i), f"consumer{i}") for i in range(sc["consumers"])]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    cx.log("got", got, errs)
    if errs:
        cx.bad("exception", f"concurrent get_batch failed: {errs}")
        return
    cx.quiet()
    cx.pause(300.0)
    rest = []
    for _ in range(len(L) + 2):
        c = [stamp(), None, False, 0.0]
        calls.append(c)
        out, a, b = call(cx, "get", getter(pf, d, u["B"]))
        if out[0] == "b":
            c[2] = True
            rest.append(out[1])
        elif out[0] == "stop":
            break
        else:
            cx.bad("exception", f"get_batch raised {out}")
            return
    # A stop before the timeout claims the end of the stream: nothing may come later.
    lim = min(sc["startup"], sc["steady"]) - 1e-3
    for c in calls:
        if c[1] is not None and not c[2] and c[3] < lim and any(o[2] and o[0] > c[1] for o in calls):
            cx.bad("early-stop", f"a consumer was told the stream ended after {c[3]:.3f}s (timeout {lim:.2f}s), "
                                 "and a later call was served a batch")
            return
    # L may contain equal batches (repeated files): match as subsequences / multiset
    allb = [x for g in got for x in g] + rest
    key = repr
    if sorted(map(key, allb)) != sorted(map(key, L)):
        missing = list(map(key, L))
        extra = []
        for x in map(key, allb):
            if x in missing:
                missing.remove(x)
            else:
                extra.append(x)
        cx.bad("not-exactly-once", f"lost {missing[:3]} / repeated or foreign {extra[:3]} of {len(L)} batches")
    for i, g in enumerate(got):
        it = iter(L)
        if not all(any(x == y for y in it) for x in g):
            cx.bad("order", f"consumer {i} saw {g}, not in stream order")
    pf.shutdown()


def body_C05(cx, sc):
    u = fix_paths(sc["under"])
    T = u["T"]
    neps = sum(1 for o in sc["ops"] if o[0] == "next") + sc["buffer"] + 8
    if u["kind"] == "stubepi":
        R = [[e * 100 + t + 1 for t in range(T)] for e in range(neps)]
    else:
        flat = reference(u, neps * T)
        if len(flat) < neps * T:
            cx.bad("reference-ended", f"the episodic scheduler itself stopped after {len(flat)} batches of {neps * T}")
            return
        R = [flat[i * T:(i + 1) * T] for i in range(neps)]
    pf, s, d, tr = mk(cx, sc, u)
    t = 0
    lo = 0  # smallest reference episode the current one may be
    cand = None
    first = False
    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif op[0] == "next":
            out, a, b = call(cx, "next", (lambda: ["ok", pf.next_episode()]) if len(op) == 1
                             else (lambda: ["ok", pf.next_episode(join_timeout=op[1])]))
            if out[0] != "ok":
                cx.bad("exception", f"next_episode raised {out}")
                return
            if cand:
                lo = min(cand) + 1
            cand = None
            t = 0
        else:
            out, a, b = call(cx, "get", getter(pf, d, u["B"]))
            if out[0] == "stop":
                lim = sc["steady"] if first else sc["startup"]
                if t >= T or b - a < lim - EPS:
                    cx.bad("early-stop", f"StopIteration at step {t} of the episode after {b - a:.3f}s")
                    return
                continue
            if out[0] == "ee":
                if t < T:
                    cx.bad("short-episode", f"EpisodeEnd after {t} of {T} steps")
                    return
                continue
            if out[0] != "b":
                cx.bad("exception", f"get_batch raised {out}")
                return
            first = True
            if t >= T:
                cx.bad("overlong-episode", f"a batch was served after all {T} steps")
                return
            if cand is None:
                cand = set(range(lo, neps))
            new = {e for e in cand if R[e][t] == out[1]}
            if not new:
                cx.bad("misaligned", f"step {t} after next_episode served {out[1]}, not step {t} of a fresh episode "
                       f"(candidates were episodes {sorted(cand)[:6]})")
                return
            cand = new
            t += 1
            sr = pf.steps_remaining()
            if sr != T - t:
                cx.bad("steps-remaining", f"steps_remaining() is {sr} after {t} of {T} steps")
                return
    pf.shutdown()


def body_C10(cx, sc):
    u = sc["under"]
    epi = is_epi(u)
    errs = u["errors"]
    (at, (name, times)), = errs.items()
    T = u.get("T", 0)
    if u["kind"] == "stub":
        L = [i + 1 for i in range(int(at))]
        full = [i + 1 for i in range(u["n"])]
    else:
        n = T if at == "next" else int(at)
        L = [(i // T) * 100 + i % T + 1 for i in range(n)]
    pf, s, d, tr = mk(cx, sc, u)
    got = 0
    t = 0
    first = False
    seen = None

    def one():
        nonlocal got, t, first, seen
        if epi and t == T:
            out, a, b = call(cx, "next", lambda: ["ok", pf.next_episode()])
            if out[0] == "exc":
                seen = out
                return True
            t = 0
        out, a, b = call(cx, "get", getter(pf, d, u["B"]))
        if out[0] == "b":
            first = True
            if got >= len(L):
                cx.bad("swallowed-error", f"batch {out[1]} delivered, the {name} before it never surfaced")
                return True
            if out[1] != L[got]:
                cx.bad("wrong-batch", f"delivery {got} is {out[1]}, expected {L[got]}")
                return True
            got += 1
            t += 1
            return False
        if out[0] == "exc":
            seen = out
            return True
        if out[0] == "stop":
            lim = sc["steady"] if first else sc["startup"]
            if b - a < lim - EPS:
                cx.bad("silent-truncation", f"StopIteration (normal end of stream) after {got} batches instead of {name}")
                return True
            return False
        cx.bad("unexpected", f"get_batch gave {out}")
        return True

    def flush(jt):
        """Abandon the episode; what is left of it, or a failure in it, is still ahead."""
        nonlocal got, t, seen
        if t == 0:
            return False
        out, a, b = call(cx, "next", lambda: ["ok", pf.next_episode(*jt)])
        got = min(len(L), got + T - t)
        t = 0
        if out[0] == "exc":
            seen = out
        elif out[0] != "ok":
            cx.bad("unexpected", f"next_episode gave {out}")
        return out[0] != "ok"

    end = False
    for op in sc["ops"]:
        if op[0] == "pause":
            cx.pause(op[1])
        elif op[0] == "flush":
            if flush(op[1:]):
                end = True
                break
        elif one():
            end = True
            break
    if not end:
        cx.quiet()
        cx.pause(300.0)
        for _ in range(len(L) - got + 2):
            if one():
                end = True
                break
    if cx.res.viol:
        return
    if seen is None:
        cx.bad("silent-truncation", f"the {name} of the wrapped scheduler never reached the consumer (only StopIteration after {got} of {len(L)} batches)")
        return
    if seen[1] != {"Scripted": "ScriptedError"}.get(name, name) or f"scripted {name}" not in seen[2]:
        cx.bad("wrong-error", f"consumer received {seen}, wrapped scheduler raised {name}")
        return
    if got != len(L):
        cx.bad("lost-before-error", f"error surfaced after {got} batches, {len(L)} were produced before it")
        return
    # another call must come back, whatever it says
    call(cx, "get", getter(pf, d, u["B"]))
    if sc["finish"] == "reset":
        s.errors.clear()
        out, a, b = call(cx, "reset", lambda: ["ok", pf.reset()])
        if out[0] != "ok":
            cx.bad("reset-failed", f"reset after the error raised {out}")
            return
        cx.quiet()
        want = full if not epi else None
        n = len(want) if want is not None else T
        for i in range(n):
            out, a, b = call(cx, "get", getter(pf, d, u["B"]))
            if out[0] != "b":
                cx.bad("no-recovery", f"after the error and reset(), get_batch gave {out}")
                return
            v = out[1]
            exp = s.gen * 1000 + i + 1 if not epi else s.ep * 100 + i + 1
            if (not epi and v != exp) or (epi and v % 100 != i + 1):
                cx.bad("no-recovery", f"after the error and reset(), batch {i} is {v}")
                return
    out, a, b = call(cx, "shutdown", lambda: ["ok", pf.shutdown()])
    cx.pause(300.0)
    left = alive_threads(cx)
    if left:
        cx.bad("thread-leak", f"{len(left)} background threads still alive long after shutdown")


def body_C02(cx, sc):
    u = fix_paths(sc["under"])
    epi = is_epi(u)
    pf, s, d, tr = mk(cx, sc, u)
    own = [pf]  # the only reference to it
    del pf
    shut = []  # (time, step) at which the actor's shutdowns began

    def bound(what, a, b, lim, why):
        if b - a > lim + 1e-3:
            cx.bad(what, f"{what} took {b - a:.3f}s of virtual time, allowed {lim:.3f}s ({why})")

    def do_shutdown(who):
        t0 = cx.k.now
        s0 = cx.k.steps
        out, a, b = call(cx, f"shutdown@{who}", lambda: ["ok", own[0].shutdown(join_timeout=sc["jt"])])
        if out[0] != "ok":
            cx.bad("shutdown-raised", f"shutdown raised {out}")
        bound("shutdown-slow", a, b, sc["jt"], "join_timeout")
        e = tr.inflight_end(t0)
        lim = min(sc["jt"], max(0.0, (e or 10**18) / K.NS - a))
        if e is not None:
            bound("shutdown-stuck", a, b, lim, "the load in flight had ended")
        return t0, s0

    def actor():
        cx.k.sleep(sc["actor_at"], "actor")
        shut.append(None)
        shut[-1] = do_shutdown("actor")

    if sc["actor"]:
        th = cx.spawn(actor, "actor")
        th.start()
    first = False
    t = 0
    for op in sc["ops"]:
        o = op[0]
        if o == "pause":
            cx.pause(op[1])
        elif o == "is_running":
            call(cx, "is_running", lambda: ["ok", bool(own[0].is_running())])
        elif o == "get":
            n_s = len(shut)
            step0 = cx.k.steps
            out, a, b = call(cx, "get", getter(own[0], d, u["B"]))
            if out[0] == "exc":
                cx.bad("get-raised", f"get_batch raised {out}")
            bound("get-slow", a, b, max(sc["steady"], sc["startup"]), "timeout")
            if out[0] == "b":
                first = True
            # a blocked consumer is released when somebody shuts down
            for rec in shut[n_s:]:
                if rec is None or rec[1] <= step0:
                    continue
                s0 = rec[0]
                e = tr.inflight_end(s0)
                if e is not None and b > max(s0, e) / K.NS + 0.01:
                    cx.bad("consumer-not-released",
                           f"get_batch returned {b - max(s0, e) / K.NS:.3f}s after shutdown and the load in flight had ended")
        elif o == "shutdown":
            do_shutdown("main")
        elif o == "reset":
            t0 = cx.k.now
            out, a, b = call(cx, "reset", lambda: ["ok", own[0].reset()])
            if out[0] != "ok":
                cx.bad("reset-raised", f"reset raised {out}")
            e = tr.inflight_end(t0)
            if e is None:
                e = cx.k.now
            bound("reset-slow", a, b, max(0.0, e / K.NS - a), "the load in flight had ended")
            first = False
        elif o == "next":
            if not epi:
                continue
            t0 = cx.k.now
            out, a, b = call(cx, "next", lambda: ["ok", own[0].next_episode()])
            if out[0] != "ok":
                cx.bad("next-raised", f"next_episode raised {out}")
            bound("next-slow", a, b, 2.0 + (50.0 if sc["jumps"] else 0.0), "join_timeout")
    # faults stop: final shutdown, then nothing may be left running
    if sc["actor"]:
        th.join()
    if sc.get("drop"):  # let go of it instead
        t0 = cx.k.now
        hook, failed = sys.unraisablehook, []
        sys.unraisablehook = lambda u: failed.append(f"{type(u.exc_value).__name__}: {u.exc_value}")
        try:
            own.clear()
            gc.collect()
        finally:
            sys.unraisablehook = hook
        if failed:
            cx.bad("finalizer-failed", f"deleting the prefetcher failed with {failed[0]}")
        bound("drop-slow", t0 / K.NS, cx.now(), 2.0, "join_timeout")
    else:
        do_shutdown("main")
    cx.quiet()
    cx.pause(500.0)
    if own and own[0].is_running():
        cx.bad("worker-alive", "is_running() is still True long after shutdown")
    left = alive_threads(cx)
    if left:
        cx.bad("thread-leak", f"{len(left)} background threads still alive long after shutdown: "
               + ", ".join(f"#{x.tid}@{x.where}" for x in left))
    if cx.k.thread_errors and not cx.res.viol:
        cx.bad("thread-died", f"a background thread died with {cx.k.thread_errors[0]}")


def body_C03(cx, sc):
    u = fix_paths(sc["under"])
    epi = is_epi(u)
    kind = u["kind"]
    stub = kind.startswith("stub")
    finite = not epi and not u.get("loop") and kind != "stubloop"
    rnd = bool(u.get("randomize")) and not epi
    B = u["B"]
    T = u.get("T", 0)
    L = reference(u, 2000 if finite else 60) if not (rnd or epi or stub) else None
    if sc["prefetch"]:
        pf, s, d, tr = mk(cx, sc, u)
    else:
        pf, d = build_under(u)
        s = pf
    total = None
    names = None
    if d is not None and not epi:
        files = [d.files[i] for i in u["list"]] if u.get("list") is not None else sorted(d.files)
        total = [[f, y] for f in files for y in range(len(d.slices[f]))]
    g = {"i": 0, "rows": [], "dead": False, "first": False, "gen": 0, "n": 0}

    def newgen():
        g.update(i=0, rows=[], dead=False, first=False, n=g["n"] + 1)
        if stub:
            g["gen"] = s.gen
            g["ep0"] = getattr(s, "ep", 0)

    newgen()

    def rowids(b):
        return [x for x in env.rows(d, b)]

    def check_batch(b):
        i = g["i"]
        g["i"] += 1
        if stub and not epi:
            v = bid(None, b)
            exp = g["gen"] * 1000 + i + 1
            if v != exp:
                st = "stale" if isinstance(v, int) and v // 1000 < g["gen"] else "wrong"
                cx.bad(st + "-after-reset", f"batch {i} after reset is {v}, expected {exp}")
            return
        if stub:
            v = bid(None, b)
            if isinstance(v, list) or v // 100 < g["ep0"] or (v % 100) != i % T + 1:
                cx.bad("stale-after-reset", f"batch {i} of the new generation is episode/step {v} (reset started episode {g['ep0']})")
            return
        if epi:
            r = rowids(b)
            t = i % T
            if any(not isinstance(x, tuple) for x in r):
                cx.bad("wrong-after-reset", f"unknown row content {r}")
                return
            if t == 0:
                g["rows"] = r
                for (p, _) in r:
                    dd = p.rsplit("/", 1)[0]
                    fs = sorted(f for f in d.files if f.rsplit("/", 1)[0] == dd)
                    if fs.index(p) + T > len(fs):
                        cx.bad("not-episode-start", f"after reset the first batch serves {p}, no whole episode fits from there")
            else:
                for (p0, _), (p, _) in zip(g["rows"], r):
                    dd = p0.rsplit("/", 1)[0]
                    fs = sorted(f for f in d.files if f.rsplit("/", 1)[0] == dd)
                    j = fs.index(p0) + t
                    if j >= len(fs) or fs[j] != p:
                        cx.bad("misaligned-after-reset", f"step {t}: row started at {p0} now serves {p}")
                        return
            return
        if not rnd:
            x = bid(d, b)
            if i >= len(L):
                if finite:
                    cx.bad("extra-after-reset", f"batch {x} beyond the {len(L)} of a pass")
                return
            if x != L[i]:
                cx.bad("wrong-after-reset", f"batch {i} after reset {g['n'] - 1} is {x}, a fresh scheduler gives {L[i]}")
            return
        r = [list(x) if isinstance(x, tuple) else x for x in rowids(b)]
        m = env.np.asarray(b.mask)
        g["rows"] += [x for x, k in zip(r, m) if k]
        n = len(total)
        first_pass = g["rows"][:n]
        rest = list(map(repr, total))
        for x in first_pass:
            if repr(x) not in rest:
                cx.bad("stale-after-reset", f"row {x} repeated or foreign within the first pass after reset")
                return
            rest.remove(repr(x))
        if finite and len(g["rows"]) > n:
            cx.bad("extra-after-reset", "more rows than the pass holds")

    def get(strict=False):
        if epi and g["i"] and g["i"] % T == 0 and not g.get("nx"):
            call(cx, "next", lambda: ["ok", pf.next_episode()])
        hold = []

        def f():
            b = pf.get_batch(B)
            hold.append(b)
            return ["b"]

        out, a, b = call(cx, "get", f)
        if out[0] == "b":
            g["first"] = True
            if not g["dead"]:
                check_batch(hold[0])
            return "b"
        if out[0] == "exc" or out[0] == "ee":
            if not g["dead"]:
                cx.bad("exception", f"get_batch gave {out}")
            return "bad"
        if g["dead"]:
            return "stop"
        complete = finite and (
            (stub and g["i"] >= u["n"]) or (L is not None and g["i"] >= len(L))
            or (rnd and len(g["rows"]) >= len(total)))
        if complete:
            return "eos"
        lim = (sc["steady"] if g["first"] else sc["startup"]) if sc["prefetch"] else 1e9
        if b - a < lim - EPS:
            cx.bad("stale-eos", f"StopIteration after {b - a:.3f}s at batch {g['i']} of the new generation")
            return "bad"
        if strict:
            cx.bad("lost-after-reset", f"stream of the new generation stops at batch {g['i']}")
            return "bad"
        return "stop"

    for op in sc["ops"]:
        if cx.res.viol:
            return
        o = op[0]
        if o == "pause":
            cx.pause(op[1])
        elif o == "get":
            get()
        elif o == "next":
            if epi:
                call(cx, "next", lambda: ["ok", pf.next_episode()])
                # what follows is judged by C05; judge resets only
                g["dead"] = True
        elif o == "shutdown":
            call(cx, "shutdown", lambda: ["ok", pf.shutdown()])
            g["dead"] = True
        elif o == "reset":
            out, a, b = call(cx, "reset", lambda: ["ok", pf.reset()])
            if out[0] != "ok":
                cx.bad("exception", f"reset raised {out}")
                return
            newgen()
    if cx.res.viol or g["dead"]:
        pf.shutdown()
        return
    cx.quiet()
    cx.pause(300.0)
    for _ in range(40 + (u["n"] if stub else len(L or ())) if finite else 2 * max(T, 4)):
        r = get(strict=g["first"] or True)
        if r in ("eos", "bad"):
            break
    else:
        if finite:
            cx.bad("no-eos", "the pass after reset does not end")
    pf.shutdown()
