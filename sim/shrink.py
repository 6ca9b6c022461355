"""Minimising a failing run: first its scenario, then its decisions."""

import copy
import time

from . import core

SIMPLE = {
    "p_switch": [0.0, 0.1], "p_stall": [0.0], "lat": ["zero", "fast"], "shuffle": [False], "jumps": [[]],
    "buffer": [1, 2], "consumers": [2], "gap": [0.0], "startup": [30.0], "steady": [2.0],
    "B": [1, 2], "T": [1, 2, 3], "n": [0, 1, 2, 3], "randomize": [False], "loop": [False], "list": [None],
    "images": [False], "actor": [None], "jt": [2.0], "faults": [{}], "key": [0], "ekey": [0], "bpf": [1, 2],
    "prefetch": [False], "stub": [True], "epi": [False], "npasses": [1, 2], "seed": [0],
}


def _set(sc, path, v):
    c = copy.deepcopy(sc)
    o = c
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v
    return c


def _get(sc, path):
    for p in path:
        sc = sc[p]
    return sc


def _lists(sc, path=()):
    out = []
    for k, v in sc.items():
        if isinstance(v, list) and k in ("ops", "events", "damage", "jumps", "calls", "muts", "samples"):
            out.append(path + (k,))
        elif isinstance(v, dict):
            out += _lists(v, path + (k,))
        elif k == "pipes":
            out.append(path + (k,))
            for i, x in enumerate(v):
                out += _lists(x, path + (k, i))
    return out


def _scalars(sc, path=()):
    out = []
    for k, v in sc.items():
        if k in SIMPLE and v not in SIMPLE[k][:1]:
            for s in SIMPLE[k]:
                if s == v:
                    break
                out.append((path + (k,), s))
        if isinstance(v, dict) and k != "errors":
            out += _scalars(v, path + (k,))
        elif k == "pipes":
            for i, x in enumerate(v):
                out += _scalars(x, path + (k, i))
    return out


class Shrinker:
    def __init__(self, run, sc, decisions, kind, budget_s=60.0, seeds=4):
        self.run = run
        self.kind = kind
        self.best = (sc, dict(decisions))
        self.deadline = time.time() + budget_s
        self.seeds = seeds
        self.tries = 0
        self.res = None

    def over(self):
        return time.time() > self.deadline

    def hit(self, sc, decisions):
        self.tries += 1
        try:
            res = self.run(sc, None, decisions)
        except Exception:
            return None
        finally:
            core.housekeeping()
        if any(v["kind"] == self.kind for v in res.viol):
            return res
        return None

    def try_sc(self, sc):
        """Does the smaller scenario fail too, with some schedule?"""
        for dec in (self.best[1], {}):
            res = self.hit(sc, dec)
            if res is not None:
                self.best = (sc, dict(res.decisions))
                self.res = res
                return True
        for i in range(self.seeds):
            if self.over():
                return False
            self.tries += 1
            try:
                res = self.run(sc, core.derive("shrink", i), None)
            except Exception:
                return False
            finally:
                core.housekeeping()
            if any(v["kind"] == self.kind for v in res.viol):
                self.best = (sc, dict(res.decisions))
                self.res = res
                return True
        return False

    def go(self):
        res = self.hit(*self.best)
        if res is None:
            return None
        self.res = res
        changed = True
        while changed and not self.over():
            changed = False
            for path in _lists(self.best[0]):
                n = len(_get(self.best[0], path))
                size = max(1, n // 2)
                while size >= 1 and not self.over():
                    i = 0
                    while i < len(_get(self.best[0], path)) and not self.over():
                        cur = _get(self.best[0], path)
                        if self.try_sc(_set(self.best[0], path, cur[:i] + cur[i + size:])):
                            changed = True
                        else:
                            i += size
                    size //= 2
            for path, v in _scalars(self.best[0]):
                if self.over():
                    break
                try:
                    if _get(self.best[0], path) == v:
                        continue
                except (KeyError, TypeError):
                    continue
                if self.try_sc(_set(self.best[0], path, v)):
                    changed = True
        # decisions: drop chunks of the non-default ones
        sc, dec = self.best
        keys = sorted(dec)
        size = max(1, len(keys) // 2)
        while size >= 1 and keys and not self.over():
            i = 0
            while i < len(keys) and not self.over():
                cand = keys[:i] + keys[i + size:]
                res = self.hit(sc, {k: dec[k] for k in cand})
                if res is not None:
                    keys = cand
                    self.res = res
                else:
                    i += size
            size //= 2
        dec = {k: dec[k] for k in keys}
        res = self.hit(sc, dec)
        if res is not None:
            self.res = res
            self.best = (sc, dec)
        else:
            self.best = (sc, dict(self.res.decisions))
        return self.best
