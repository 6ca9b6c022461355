#!/opt/venv/bin/python
"""Run the deterministic-simulation check of one property.

  check.py --property C05            search (VERIF_SEED, VERIF_TIER)
  check.py --property C05 --replay F re-execute one recorded failure

Exit 0: the property held on every simulated run (listed known findings are
reported as KNOWN-FINDING).  Exit 1 and a VIOLATION line: it is broken.
"""

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim.props import ENV, PROPS, INFO  # noqa: E402
from sim import known as KF  # noqa: E402

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
WORKER = os.path.join(HERE, "sim", "worker.py")
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
STALE = 150.0  # seconds without a heartbeat before a worker counts as hung


class Proc:
    """One worker process with its own scratch directory and hash seed."""

    def __init__(self, base, name, args, hashseed, tail=()):
        self.out = os.path.join(base, name + ".json")
        self.err = os.path.join(base, name + ".log")
        self.scratch = os.path.join(base, "scratch_" + name)
        self.hashseed = hashseed
        e = dict(os.environ)
        e.update(ENV)
        e["PYTHONHASHSEED"] = str(hashseed)
        e["JAX_COMPILATION_CACHE_DIR"] = os.path.join(base, "jaxcache")
        self.log = open(self.err, "wb")
        self.p = subprocess.Popen([PY, WORKER, *map(str, args), self.out, *map(str, tail), self.scratch],
                                  env=e, stdout=self.log, stderr=subprocess.STDOUT, cwd=base,
                                  start_new_session=True)
        self.t0 = time.time()

    def beat(self):
        try:
            with open(self.out + ".beat") as f:
                i, t = f.read().split()
            return int(i), float(t)
        except (OSError, ValueError):
            return None, self.t0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def tail(self):
        try:
            with open(self.err, "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""

    def close(self):
        self.log.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def wait(procs, limit, stale=STALE):
    """Wait for all; kill what shows no sign of life. -> list of hung Procs."""
    hung = []
    end = time.time() + limit
    live = list(procs)
    while live:
        time.sleep(0.05)
        for p in list(live):
            if p.p.poll() is not None:
                live.remove(p)
                continue
            i, t = p.beat()
            if time.time() - t > stale or time.time() > end:
                p.kill()
                hung.append((p, i))
                live.remove(p)
    for p in procs:
        p.close()
    return hung


def hashseeds(prop, w, npass):
    """Only C11 varies the interpreter's hash seed; elsewhere it is pinned."""
    if not INFO.get(prop, {}).get("hashseeds"):
        return 0
    return 1 + (w * 37 + npass * 1009) % 4000


def scratch_root():
    """Memory-backed if there is plenty of it (the worlds rewrite small files all the time)."""
    shm = "/dev/shm"
    try:
        if os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 4 << 30:
            return shm
    except OSError:
        pass
    top = os.path.join(HERE, ".scratch")
    os.makedirs(top, exist_ok=True)
    return top


class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time()
        self.base = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=scratch_root())
        self.notes = []

    def cleanup(self):
        shutil.rmtree(self.base, ignore_errors=True)

    # -- search ------------------------------------------------------------
    def search(self, total, deadline):
        per = (total + NPROC - 1) // NPROC
        args = lambda w, st, step, cnt, dl: ("search", self.prop, self.seed, self.tier, st, step, cnt, dl)  # noqa: E731
        procs = [Proc(self.base, f"s{w}", args(w, w, NPROC, per, deadline), hashseeds(self.prop, w, 0))
                 for w in range(NPROC)]
        hung = wait(procs, deadline + STALE + 60)
        results, viols = [], []
        for w, p in enumerate(procs):
            r = p.result()
            h = [i for q, i in hung if q is p]
            if h:
                viols += self.recheck_hang(h[0], p)
                continue
            if r is None:  # the worker died: once more, then give up on it
                self.notes.append(f"worker {w} ended early: {p.tail()[-400:]}")
                q = Proc(self.base, f"r{w}", args(w, w, NPROC, per, deadline), hashseeds(self.prop, w, 0))
                hung2 = wait([q], deadline + STALE + 60)
                r = q.result()
                if r is None:
                    if hung2:
                        viols += self.recheck_hang(hung2[0][1], q)
                        continue
                    raise RuntimeError(f"worker {w} failed twice:\n" + q.tail())
            r["hashseed"] = hashseeds(self.prop, w, 0)
            results.append(r)
            for v in r["violations"]:
                v["hashseed"] = r["hashseed"]
                viols.append(v)
        return results, viols

    def recheck_hang(self, i, p):
        """A worker gave no sign of life: find the run that never ends."""
        if i is None:
            self.notes.append("a worker hung before its first run")
            return []
        for j in (i,):
            q = Proc(self.base, f"h{j}", ("search", self.prop, self.seed, self.tier, j, 1, 1, 60), p.hashseed)
            if wait([q], 60, 60):
                return [{"index": j, "kind": "hang:wallclock", "msg": "the run does not end", "scenario": {},
                         "seed": None, "decisions": {}, "digest": "", "hashseed": p.hashseed, "hang": True}]
        self.notes.append(f"a worker stalled near run {i}, which is fine on its own")
        return []

    # -- cross-process checks ----------------------------------------------
    def recheck(self, results, n):
        """Execute sampled runs again in other processes and compare event digests."""
        want = {}
        for r in results:
            for i, (d, x) in r["perrun"].items():
                want[int(i)] = (d, x, r["hashseed"])
        idx = sorted(i for i in want if want[i][0])[:n]
        if not idx:
            return 0, [], []
        chunks = [idx[w::NPROC] for w in range(NPROC)]
        procs = []
        for w, c in enumerate(chunks):
            if not c:
                continue
            f = os.path.join(self.base, f"idx{w}.json")
            with open(f, "w") as fh:
                json.dump(c, fh)
            procs.append(Proc(self.base, f"d{w}", ("some", self.prop, self.seed, self.tier, f),
                              hashseeds(self.prop, w, 1)))
        wait(procs, 240, 120)
        n_cmp, diff, xdiff = 0, [], []
        for p in procs:
            r = p.result()
            if r is None:
                self.notes.append("determinism re-run failed: " + p.tail()[-300:])
                continue
            for i, v in r.items():
                d, x, hs = want[int(i)]
                n_cmp += 1
                if x and v["xdigest"] and x != v["xdigest"]:
                    xdiff.append((int(i), hs, p.hashseed))
                elif d != v["digest"] and hs == p.hashseed:
                    diff.append(int(i))
        return n_cmp, diff, xdiff

    # -- reporting ----------------------------------------------------------
    def shrink(self, v, budget):
        inp = os.path.join(self.base, f"v{v['index']}.json")
        with open(inp, "w") as f:
            json.dump({"property": self.prop, "scenario": v["scenario"], "decisions": v["decisions"],
                       "kind": v["kind"], "budget_s": budget}, f)
        p = Proc(self.base, f"k{v['index']}", ("shrink", inp), v["hashseed"])
        wait([p], budget + 120, budget + 120)
        r = p.result()
        if r and r.get("ok"):
            return r
        return None

    def report(self, v, budget):
        rep = {"property": self.prop, "seed": self.seed, "index": v["index"], "kind": v["kind"], "msg": v["msg"],
               "scenario": v["scenario"], "decisions": v["decisions"], "digest": v["digest"],
               "hashseed": v["hashseed"], "minimised": False, "repo": "run against /repo's working tree"}
        if v.get("hang"):
            rep["search"] = [self.prop, self.seed, self.tier, v["index"]]
        elif v.get("xhash"):
            rep["xhash"] = v["xhash"]
        else:
            r = self.shrink(v, budget)
            if r is not None:
                rep.update({k: r[k] for k in ("scenario", "decisions", "digest", "kind", "msg", "history",
                                              "trace", "faults")})
                rep["minimised"] = True
                rep["shrink_tries"] = r["tries"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{self.prop}-{self.seed}-{v['index']}.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        ok = self.replay(path, quiet=True)
        rep["replay_reproduces"] = bool(ok)
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        return path, rep

    def replay(self, path, quiet=False):
        with open(path) as f:
            v = json.load(f)
        n = os.path.basename(path).replace(".json", "")
        if v.get("search"):
            _, seed, tier, j = v["search"]
            q = Proc(self.base, f"rp{n}", ("search", v["property"], seed, tier, j, 1, 1, 60), v["hashseed"])
            ok = bool(wait([q], 60, 60))
            if not quiet:
                print("the run does not end" if ok else "the run ends")
            return ok
        if v.get("xhash"):
            ds = []
            for hs in v["xhash"]:
                q = Proc(self.base, f"rp{n}_{hs}", ("replay", path), hs)
                wait([q], 240, 240)
                r = q.result()
                ds.append(r and r["xdigest"])
            if not quiet:
                print("stream digests per hash seed:", list(zip(v["xhash"], ds)))
            return len(set(ds)) > 1
        q = Proc(self.base, f"rp{n}", ("replay", path), v["hashseed"])
        wait([q], 240, 240)
        r = q.result()
        if r is None:
            if not quiet:
                print("replay failed:\n" + q.tail())
            return False
        same = any(x["kind"] == v["kind"] for x in r["viol"])
        if not quiet:
            for h in r["history"]:
                print("  ", h)
            for x in r["viol"]:
                print("violation:", x["kind"], "-", x["msg"])
            print("event digest", r["digest"], "(recorded %s)" % v["digest"])
        return same and (r["digest"] == v["digest"] or not v["digest"])

    def run(self):
        info = INFO[self.prop]
        total = PROPS[self.prop][1 if self.tier == "quick" else 2]
        deadline = (info.get("quick_s", 100) if self.tier == "quick" else info.get("thorough_s", 700))
        results, viols = self.search(total, deadline)
        ncmp, diff, xdiff = self.recheck(results, 48 if self.tier == "quick" else 400) if not viols else (0, [], [])
        for i, a, b in xdiff:
            viols.append({"index": i, "kind": "stream-depends-on-hash-seed",
                          "msg": f"run {i} yields another stream under PYTHONHASHSEED={b} than under {a}",
                          "scenario": self.scenario(i), "decisions": {}, "digest": "", "hashseed": a, "xhash": [a, b]})
        known_hits, fresh = {}, []
        for v in sorted(viols, key=lambda v: v["index"]):
            k = KF.match(self.prop, v["kind"], v["scenario"])
            if k:
                known_hits[k["what"]] = known_hits.get(k["what"], 0) + 1
            else:
                fresh.append(v)
        for r in results:
            for what, n in r["agg"].get("known", {}).items():
                known_hits[what] = known_hits.get(what, 0) + n
        for what in sorted(known_hits):
            print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)
        rep = None
        if fresh:
            path, rep = self.report(fresh[0], 40 if self.tier == "quick" else 120)
            print(f"{self.prop}: {rep['kind']}: {rep['msg']}")
            print(f"seed {self.seed}, run {rep['index']}, minimised={rep['minimised']}, "
                  f"replay reproduces={rep['replay_reproduces']}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        self.evidence(results, ncmp, diff, fresh, known_hits, rep)
        if not fresh:
            n = sum(r["agg"]["runs"] for r in results)
            print(f"{self.prop}: no violation in {n} simulated runs ({time.time() - self.t0:.0f}s)")
        return 1 if fresh else 0

    def scenario(self, i):
        f = os.path.join(self.base, "one.json")
        with open(f, "w") as fh:
            json.dump([i], fh)
        q = Proc(self.base, "one_out", ("some", self.prop, self.seed, self.tier, f), 0)
        wait([q], 240, 240)
        r = q.result()
        return r[str(i)]["scenario"] if r else {}

    def evidence(self, results, ncmp, diff, fresh, known_hits, rep):
        wall = time.time() - self.t0
        S = lambda k: sum(r["agg"][k] for r in results)  # noqa: E731
        faults, real = {}, {}
        for r in results:
            for k, v in r["agg"]["faults"].items():
                faults[k] = faults.get(k, 0) + v
            for k, v in r["agg"]["real"].items():
                real[k] = real.get(k, 0) + v
        runs = S("runs")
        digests = len({d for r in results for d in r["digests"]})
        info = INFO[self.prop]
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len({tuple(x) for r in results for x in r["nontrivial"]}),
            "rule": "one evaluation is one simulated run: scenario (configuration, data set, operations, faults) and "
                    "schedule are drawn from blake2b(VERIF_SEED, property, run index). Distinct: by scenario and "
                    "event-log digest. Non-trivial: at least one context switch between threads or injected fault "
                    "happened" + info.get("nontrivial", "") + ".",
            "samples": [s for r in results for s in r["samples"]][:4],
            "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
            "runs_per_worker_process": [r["agg"]["runs"] for r in results],
            "simulated_seconds": round(S("vtime"), 1),
            "scheduling_points": S("steps"),
            "context_switches": S("switches"),
            "scheduler_decisions": S("decisions"),
            "simulated_timeouts_expired": S("timeouts"),
            "faults_injected": dict(sorted(faults.items())),
            "runs_with_faults": S("faulted_runs"),
            "distinct_interleavings": digests,
            "interleaving_measure": info.get("measure") or "blake2b digest of the event log (thread starts, exits, every context switch with "
                                    "source position, stalls)",
            "distinct_scenarios": sum(r["scenarios"] for r in results),
            "probes_reached": sorted({c for r in results for c in r["covers"]}),
            "longest_run_steps": max([r["agg"]["max_steps"] for r in results] or [0]),
            "most_threads_alive": max([r["agg"]["max_tasks"] for r in results] or [0]),
            "real_components": info["real"],
            "stub_components": info["stub"],
            "component_runs": real,
            "determinism": {"runs_repeated_in_another_process": ncmp, "event_log_differences": diff},
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": info.get("assumptions", []) + [
                  "preemption happens at source lines and lock operations, not inside a line",
                  "sampling, not enumeration: a clean batch is evidence, not proof"],
              "wall_s": round(wall, 1), "violations": len(fresh)}
        if known_hits:
            cov["known_findings_hit"] = known_hits
        if self.notes:
            cov["harness_notes"] = self.notes
        if rep:
            cov["violation"] = {k: rep[k] for k in ("kind", "msg", "index", "minimised", "replay_reproduces")}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True, choices=sorted(PROPS))
    ap.add_argument("--replay")
    a = ap.parse_args()
    c = Check(a.property, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"))
    rc = 3
    try:
        if a.replay:
            ok = c.replay(os.path.abspath(a.replay))
            if ok:
                print(f"VIOLATION property={a.property} replay={os.path.abspath(a.replay)}")
            rc = 1 if ok else 0
        else:
            rc = c.run()
    except Exception:
        traceback.print_exc()
    finally:
        c.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
