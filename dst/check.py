"""Check one property by seeded simulation.

  check.py C01                 run the check (VERIF_SEED, VERIF_TIER)
  check.py C01 --replay FILE   execute a replay file; exit 1 if the violation shows
"""

import argparse
import hashlib
import json
import os
import queue
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import simlib
from props import PROPS

PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, base, idx, spec, prop, tier, hashseed=0):
        self.scratch = os.path.join(base, "w%s" % idx)
        self.args = [PY, "-X", "faulthandler", os.path.join(HERE, "worker.py"), spec["world"], prop, tier,
                     self.scratch]
        self.spec, self.prop, self.tier, self.hashseed = spec, prop, tier, hashseed
        self.proc = None

    def start(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        for d in ("home", "tmp", "mpl", "cwd"):
            os.makedirs(os.path.join(self.scratch, d))
        if self.spec.get("mpl"):
            shutil.copytree(simlib.build_mpl(), os.path.join(self.scratch, "mpl"), dirs_exist_ok=True)
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(("JAX_", "XLA_", "DSPS_", "PYTHON", "SPS_", "MPL", "HDF5_"))}
        env.update(
            LD_PRELOAD=simlib.SHIM, PYTHONHASHSEED=str(self.hashseed), PYTHONDONTWRITEBYTECODE="1",
            JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
            XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_force_host_platform_device_count=1",
            HOME=os.path.join(self.scratch, "home"), TMPDIR=os.path.join(self.scratch, "tmp"),
            MPLCONFIGDIR=os.path.join(self.scratch, "mpl"), TZ="UTC", LC_ALL="C.UTF-8")
        env.update(self.spec.get("env", {}))
        self.proc = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     env=env, cwd=os.path.join(self.scratch, "cwd"),
                                     start_new_session=True)
        self.buf = b""
        self.read(300)

    def read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise WorkerDied("timeout")
            r, _, _ = select.select([fd], [], [], left)
            if r:
                b = os.read(fd, 1 << 20)
                if not b:
                    raise WorkerDied("exit %s" % self.proc.wait())
                self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def call(self, msg, timeout):
        """Result of one run; a worker that dies or stalls yields a crash or hang result."""
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(msg).encode() + b"\n")
            self.proc.stdin.flush()
            return self.read(timeout)
        except (WorkerDied, BrokenPipeError) as e:
            cfg, ops = {}, []
            try:
                with open(os.path.join(self.scratch, "progress.jsonl")) as f:
                    lines = [json.loads(x) for x in f if x.endswith("\n")]
                cfg, ops = lines[0]["cfg"], lines[1:]
            except (OSError, IndexError, ValueError):
                pass
            tail = ""
            try:
                with open(os.path.join(self.scratch, "out.txt")) as f:
                    tail = f.read()[-800:]
            except OSError:
                pass
            self.kill()
            cls = "hang" if str(e) == "timeout" else "process-death"
            return dict(seed=msg.get("seed"), cfg=cfg, ops=ops, stats={}, sigs=[], samples=[], digest="",
                        wall=0, dead=True,
                        viol=[dict(props=[self.prop], cls=cls, detail="%s; %s" % (e, tail), at=len(ops) - 1)])

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc = None

    def restart(self):
        self.kill()


def mine(res, prop, known):
    out = []
    for v in res.get("viol", []):
        if prop in v["props"] and not matches_known(v, prop, known):
            out.append(v)
    return out


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def matches_known(v, prop, known):
    for k in known.get("known", []):
        if k["property"] == prop and k["cls"] == v["cls"] and k["where"] in v["detail"]:
            return True
    return False


def run_seed(vseed, prop, i):
    return int.from_bytes(hashlib.sha256(b"%d/%s/%d" % (vseed, prop.encode(), i)).digest()[:6], "big")


class Check:
    def __init__(self, prop, tier, vseed):
        self.prop, self.tier, self.vseed = prop, tier, vseed
        self.spec = PROPS[prop]
        self.known = load_known()
        self.base = tempfile.mkdtemp(prefix="dst-%s-" % prop)
        self.timeout = self.spec.get("run_timeout", 240)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def explore(self):
        t = self.spec[self.tier]
        nruns, soft, need = t["runs"], t["seconds"], t.get("min_runs", 1)
        nw = min(self.spec.get("workers", 8), nruns)
        q = queue.Queue()
        for i in range(nruns):
            q.put(i)
        t0 = time.monotonic()
        results, errors, stop, lock = [], [], threading.Event(), threading.Lock()
        found = []

        def loop(wi):
            hs = self.spec.get("hashseeds", [0])
            w = Worker(self.base, wi, self.spec, self.prop, self.tier, hs[wi % len(hs)])
            nth = 0
            history = []
            try:
                while not stop.is_set() and (time.monotonic() - t0 < soft or (len(results) < need and time.monotonic() - t0 < 600)):
                    try:
                        i = q.get_nowait()
                    except queue.Empty:
                        break
                    seed = run_seed(self.vseed, self.prop, i)
                    r = w.call(dict(cmd="run", seed=seed), self.timeout)
                    history.append(seed)
                    nth += 1
                    if nth % self.spec.get("recycle", 200) == 0:
                        w.restart()
                        history = []
                    with lock:
                        if "harness_error" in r:
                            errors.append(r["harness_error"])
                            if len(errors) >= 3:
                                stop.set()
                            continue
                        r["index"] = i
                        v = mine(r, self.prop, self.known)
                        if v:
                            found.append((i, r, v, list(history), w.hashseed))
                            stop.set()
                        else:
                            r.pop("ops")
                        results.append(r)
                    if r.get("dead"):
                        history = []
            except BaseException as e:  # noqa
                import traceback
                with lock:
                    errors.append(traceback.format_exc())
                stop.set()
            finally:
                w.kill()

        ths = [threading.Thread(target=loop, args=(k,)) for k in range(nw)]
        [x.start() for x in ths]
        [x.join() for x in ths]
        return results, errors, found, time.monotonic() - t0

    # ------------------------------------------------------------ minimisation

    def same(self, r, want):
        if "harness_error" in r:
            return False
        return any(v["cls"] == want for v in mine(r, self.prop, self.known))

    def fresh_replay(self, rep, tag):
        w = Worker(self.base, tag, self.spec, self.prop, self.tier, rep.get("hashseed", 0))
        try:
            for s in rep.get("prior", []):
                w.call(dict(cmd="run", seed=s), self.timeout)
            return w.call(dict(cmd="replay", cfg=rep["cfg"], ops=rep["ops"]), self.timeout)
        finally:
            w.kill()

    def minimise(self, rep, want, budget):
        """ddmin over the operation list, then over the parts of each operation."""
        end = time.monotonic() + budget
        w = Worker(self.base, "min", self.spec, self.prop, self.tier, rep.get("hashseed", 0))

        def fails(ops):
            if time.monotonic() > end:
                return False
            bad = self.same(w.call(dict(cmd="replay", cfg=rep["cfg"], ops=ops), self.timeout), want)
            if bad:
                w.restart()  # the violation may have left something behind in the process
            return bad

        try:
            ops = rep["ops"]
            n = 2
            while len(ops) > 1 and time.monotonic() < end:
                k = max(1, len(ops) // n)
                done = False
                for a in range(0, len(ops), k):
                    cand = ops[:a] + ops[a + k:]
                    if cand and fails(cand):
                        ops, n, done = cand, max(2, n - 1), True
                        break
                if not done:
                    if k == 1:
                        break
                    n = min(len(ops), n * 2)
            changed = True
            while changed and time.monotonic() < end:
                changed = False
                for i, op in enumerate(ops):
                    for key, val in list(op.items()):
                        if isinstance(val, list) and val and key in ("faults", "actors", "plans", "steps", "sched"):
                            for j in range(len(val)):
                                c = dict(op)
                                c[key] = val[:j] + val[j + 1:]
                                cand = ops[:i] + [c] + ops[i + 1:]
                                if fails(cand):
                                    ops, changed = cand, True
                                    break
                        elif key in ("intr", "mutate") and val:
                            c = dict(op)
                            c[key] = None
                            cand = ops[:i] + [c] + ops[i + 1:]
                            if fails(cand):
                                ops, changed = cand, True
                        if changed:
                            break
                    if changed:
                        break
            return ops
        finally:
            w.kill()

    def report(self, found):
        """Turn a found violation into a minimised replay file that reproduces."""
        found.sort(key=lambda x: x[0])
        last = None
        for i, r, vs, history, hs in found[:4]:
            v = vs[0]
            rep = dict(property=self.prop, world=self.spec["world"], tier=self.tier, verif_seed=self.vseed,
                       run_index=i, run_seed=r.get("seed"), cls=v["cls"], cfg=r["cfg"], ops=r["ops"], hashseed=hs)
            again = self.fresh_replay(rep, "conf0")
            if not self.same(again, v["cls"]):
                # the run alone does not show it: state left by earlier runs of the worker matters
                rep["prior"] = history[:-1]
                again = self.fresh_replay(rep, "conf1")
                if not self.same(again, v["cls"]):
                    last = "violation %s of run %d did not reproduce: %s" % (v["cls"], i, v["detail"])
                    continue
                small = dict(rep)
            else:
                small = dict(rep)
                if v["cls"] in ("hang", "process-death"):
                    budget = 60 if v["cls"] == "process-death" else 0
                else:
                    budget = 90
                if budget:
                    small["ops"] = self.minimise(rep, v["cls"], budget)
                    again2 = self.fresh_replay(small, "conf2")
                    if self.same(again2, v["cls"]):
                        again = again2
                    else:
                        small = rep
            vv = [x for x in mine(again, self.prop, self.known) if x["cls"] == v["cls"]][0]
            small["violation"] = vv
            small["original_ops"] = len(r["ops"])
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%s.json" % (self.prop, v["cls"], r.get("seed")))
            with open(path, "w") as f:
                json.dump(small, f, indent=1)
            return path, vv, small
        return None, last, None

    # ------------------------------------------------------------ whole check

    def run(self):
        t0 = time.monotonic()
        results, errors, found, wall = self.explore()
        code, lines, nviol = 0, [], 0
        for k in self.known.get("known", []):
            if k["property"] == self.prop:
                lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if found:
            path, v, rep = self.report(found)
            if path is None:
                errors.append(v)
            else:
                code, nviol = 1, 1
                lines.append("violation: class=%s ops=%d (from %d) seed=%s: %s" % (
                    v["cls"], len(rep["ops"]), rep["original_ops"], rep["run_seed"], v["detail"]))
                for op in rep["ops"]:
                    lines.append("  op %s" % json.dumps(op)[:400])
                lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        if code == 0 and errors:
            code = 2
            lines.append("HARNESS ERROR: " + errors[0])
        min_runs = self.spec[self.tier].get("min_runs", 1)
        if code == 0 and len(results) < min_runs:
            code = 2
            lines.append("HARNESS ERROR: only %d runs finished in time" % len(results))
        self.evidence(results, wall, time.monotonic() - t0, nviol)
        for x in lines:
            print(x)
        print("%s %s: %d runs in %.0f s, exit %d" % (self.prop, self.tier, len(results), wall, code))
        return code

    def evidence(self, results, wall, total, nviol):
        stats, sigs, samples = {}, set(), []
        for r in results:
            for k, n in r["stats"].items():
                stats[k] = stats.get(k, 0) + n
            sigs.update(r["sigs"])
            if len(samples) < 6:
                samples += r["samples"][:2]
        seeds = [r["seed"] for r in results]
        faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault:")}
        probes = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("probe:")}
        other = {k: n for k, n in sorted(stats.items()) if ":" not in k}
        cov = dict(
            evaluations=stats.get("evaluations", 0),
            distinct_nontrivial=len(sigs),
            rule=self.spec["rule"],
            samples=samples[:6] or ["(no run finished)"],
            simulated_runs=len(results),
            distinct_seeds=len(set(seeds)),
            runs_per_hour=round(len(results) / max(wall, 1e-9) * 3600),
            operations=stats.get("ops", 0),
            simulated_steps=stats.get("steps", 0),
            simulated_time=self.spec.get(
                "simulated_time", "the code under test has no clock or timer; logical time is simulated_steps "
                "(intercepted system calls or executed lines of dsps code)"),
            faults_fired=faults, probes=probes, counters=other,
            distinct_measure=self.spec["measure"],
            real_components=self.spec["real"], stub_components=self.spec["stub"],
            workers=self.spec.get("workers", 8),
            event_log_digest=hashlib.sha1("".join(
                r["digest"] for r in sorted(results, key=lambda r: r["index"])).encode()).hexdigest(),
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.vseed, level=self.spec.get("level", "exploration"),
                  coverage=cov, assumptions=self.spec["assumptions"], wall_s=round(total, 2), violations=nviol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--workers", type=int)
    ap.add_argument("--digests", help="write the digest of every run to this file")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    simlib.build_shim()
    c = Check(a.prop, tier, vseed)
    c.spec = dict(c.spec)
    if a.workers:
        c.spec["workers"] = a.workers
    t = c.spec[tier] = dict(c.spec[tier])
    if a.runs:
        t["runs"], t["min_runs"] = a.runs, 1
    if a.seconds:
        t["seconds"], t["min_runs"] = a.seconds, 1

    def bye(sig, frame):
        raise SystemExit(2)

    signal.signal(signal.SIGTERM, bye)
    try:
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            c.spec["world"] = rep["world"]
            r = c.fresh_replay(rep, "replay")
            vs = mine(r, a.prop, dict(known=[]))
            for v in vs:
                print(json.dumps(v))
            if "harness_error" in r:
                print(r["harness_error"])
                return 2
            if vs:
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            return 0
        if a.digests:
            results, errors, found, wall = c.explore()
            with open(a.digests, "w") as f:
                for r in sorted(results, key=lambda r: r["index"]):
                    f.write("%d %s %s\n" % (r["index"], r["seed"], r["digest"]))
            print(len(results), errors[:1], len(found))
            return 0
        return c.run()
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
