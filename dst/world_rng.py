"""Random-number world: keyed and unkeyed draws among reseedings, threads, interruptions and hash seeds (C13, C14)."""

import os
import pickle
import random
import struct
import subprocess
import sys
import warnings

import kernels
import numpy as np
import rngsteps as R
import sched
import simlib
from world_hist import bits, jax_setup, same
from world_io import EXCS
from worlds import Hang, World

HASHSEEDS = [1, 5, 77, 4242]
OTHER = ["utils.trapz", ".cumulative_mstar_formed", "utils.powerlaw_pdf", "imf.surviving_mstar.surviving_mstar", "cosmology.age_at_z0",
         "photometry.utils.interpolate_filter_trans_curves", "data_loaders.load_emline_info.get_subset_emline_data",
         "metallicity.umzr.mzr_model_t0", "sed.calc_age_weights_from_sfh_table"]


class Reference:
    """Another process with another hash seed."""

    def __init__(self, scratch, hs):
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        env.pop("LD_PRELOAD", None)
        d = os.path.join(scratch, "ref%d" % hs)
        os.makedirs(d, exist_ok=True)
        self.log = open(os.path.join(d, "log"), "wb")
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rngsteps.py"), scratch],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env, cwd=d)
        self.memo = {}

    def ask(self, steps):
        b = pickle.dumps(steps)
        if b not in self.memo:
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            h = self.p.stdout.read(4)
            if len(h) < 4:
                raise RuntimeError("reference process ended")
            self.memo[b] = pickle.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))
            if len(self.memo) > 4000:
                self.memo.pop(next(iter(self.memo)))
        return self.memo[b]


class Refs(dict):
    """References by hash seed, started when first needed."""

    def __init__(self, scratch):
        self.scratch = scratch

    def __missing__(self, hs):
        self[hs] = Reference(self.scratch, hs)
        return self[hs]


class Budget:
    """Ends a call that executes more lines of dsps code than any terminating run of it could; may also interrupt it."""

    def __init__(self, limit, k=None, exc=None):
        self.left, self.k, self.exc, self.fired = limit, k, exc, False

    def _line(self, frame, event, arg):
        if event == "line":
            self.left -= 1
            if self.left < 0:
                raise Hang("no end in sight after the allowed number of lines")
            if self.k is not None:
                if self.k <= 0 and not simlib.entering_handler(frame):
                    self.k, self.fired = None, True
                    raise self.exc("injected")
                self.k -= 1
        return self._line

    def _call(self, frame, event, arg):
        return self._line if simlib.in_pkg(frame.f_code.co_filename) else None

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class RngWorld(World):
    OP_SECONDS = 60

    def setup(self):
        warnings.simplefilter("ignore")
        self.jax = jax_setup(self.scratch)
        self.refs = Refs(self.scratch)
        simlib.purge()
        self.I = kernels.Inst()
        self.avail = [n for n in OTHER if n in kernels.available(self.I)]
        for s in self.warm():  # one-off caches of JAX and NumPy
            try:
                R.call_keyed(self.jax, *R.keyed(self.jax, self.I, s)[:3], "pos")
            except Exception:
                pass

    def warm(self):
        return [dict(fn=f, a=0, key=dict(how="prng", w=[0, 1])) for f in ("powerlaw", "t0", "rtc")]

    # ---------------------------------------------------------------- generation

    def gen_cfg(self, rng):
        foc = rng.choice(["keyed", "keyed", "threads"] if self.prop == "C13" else ["unkeyed", "unkeyed", "mixed", "threads"])
        return dict(focus=foc, fns=rng.sample(["powerlaw", "t0", "rtc"], rng.choice([1, 2, 3])), jit=rng.random() < 0.5,
                    nkeys=rng.choice([2, 4, 50]), nargs=rng.choice([1, 2, 6]), pseed=rng.choice([0.1, 0.3]), pi=rng.choice([0, 0, 0.3]),
                    big=rng.random() < 0.15, hs=rng.choice(HASHSEEDS))

    def n_ops(self, rng, cfg):
        return rng.randint(3, 8) if cfg["focus"] == "threads" else rng.randint(5, 20)

    def gen_key(self, rng):
        n = self.cfg["nkeys"]
        w = [rng.choice([0, 0, 1, rng.randint(0, n), rng.randint(0, 2**32 - 1)]), rng.choice([0, 1, rng.randint(0, n), rng.randint(0, n), rng.randint(0, 2**31 - 1)])]
        return dict(how=rng.choice(["raw", "raw", "prng", "typed", "wrap", "fold", "split"]), w=w)

    def gen_intr(self, rng):
        if rng.random() < self.cfg["pi"]:
            return dict(k=rng.choice([0, 1, 2, 3, 5, 8, rng.randint(0, 60), rng.randint(0, 3000)]), exc=rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"]))

    def gen_keyed(self, rng):
        return dict(k="keyed", fn=rng.choice(self.cfg["fns"]), a=rng.randint(0, self.cfg["nargs"]), key=self.gen_key(rng),
                    mode=rng.choice(["call", "call", "pos", "jit", "vmap"]), intr=self.gen_intr(rng))

    def gen_seed(self, rng):
        return dict(k="seed", py=rng.choice([0, 1, 2, rng.randint(0, 2**40)]), np=rng.choice([0, 1, 2, rng.randint(0, 2**32 - 1)]),
                    poor=rng.randint(0, 622) if rng.random() < 0.15 else None)

    def gen_unkeyed(self, rng):
        if rng.random() < 0.4:
            return dict(k="rtc", a=rng.randint(0, 3), via=rng.random() < 0.5, intr=self.gen_intr(rng))
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 20, 60, 166, None, rng.randint(0, 400)])
        if self.cfg["big"] and rng.random() < 0.3:
            n = rng.choice([800, 1500, 3000, 6000, 17000, 17576])
        return dict(k="fake", n=n, via=rng.random() < 0.5, intr=self.gen_intr(rng))

    def gen_step(self, rng):
        c, r = self.cfg, rng.random()
        if r < c["pseed"]:
            return self.gen_seed(rng)
        if r < c["pseed"] + 0.15:
            return dict(k="draw", g=rng.choice(["py", "np"]))
        if r < c["pseed"] + 0.22 and self.avail:
            return dict(k="other", fn=rng.choice(self.avail), seed=rng.randint(0, 3))
        p = dict(keyed=0.85, unkeyed=0.1, mixed=0.5, threads=0.5)[c["focus"]]
        return self.gen_keyed(rng) if rng.random() < p else self.gen_unkeyed(rng)

    def gen_op(self, rng):
        c = self.cfg
        if c["focus"] != "threads" or rng.random() < 0.3:
            s = self.gen_step(rng)
            s["fresh"] = rng.random() < 0.1
            return s
        n = rng.choice([2, 2, 3])
        # the first thread alone uses the global generators, as an application that wants reproducible draws must
        a = [self.gen_seed(rng)]
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            a.append(dict(k="draw", g=rng.choice(["py", "np"])) if r < 0.5 else self.gen_seed(rng) if r < 0.6 else
                     dict(self.gen_unkeyed(rng), intr=None) if r < 0.8 else dict(self.gen_keyed(rng), intr=None))
        for s in a:
            if s["k"] == "fake":
                s["n"] = rng.choice([0, 1, 3, 7])
        bodies = [a] + [[dict(self.gen_keyed(rng), intr=None) for _ in range(rng.randint(1, 4))] for _ in range(n - 1)]
        lim = rng.choice([2, 6, 30, 200])
        return dict(k="threads", bodies=bodies, sched=[[rng.randint(1, lim), rng.randint(0, 4)] for _ in range(200)], fresh=rng.random() < 0.5)

    # ---------------------------------------------------------------- run

    def begin(self, cfg):
        self.jax.config.update("jax_disable_jit", not cfg["jit"])
        seed0 = dict(k="seed", py=11, np=12, poor=None)
        R.seed_state(seed0)
        self.segment, self.pending = [seed0], [("ok", None)]
        self.byarg = {}     # (function, arguments) -> {bits: key words}
        self.fresh_draws = []
        self.lastun = {}
        self.prev = None
        self.boot()

    def boot(self):
        simlib.purge()
        self.I = kernels.Inst()
        for m in (R.FAKE, R.RTC, "utils", "metallicity.umzr", "data_loaders"):
            self.I[m]

    def cleanup(self):
        sys.settrace(None)
        self.jax.config.update("jax_disable_jit", False)

    def end(self):
        self.flush()

    def exact(self, got, want):
        return same(got, want, rtol=1e-10, atol=1e-12)

    def flush(self):
        """Compare a finished run of unkeyed steps with the same run in another process."""
        seg, pen = self.segment, self.pending
        self.segment = self.pending = None
        if not seg or len(seg) < 2:
            return
        want = self.refs[self.cfg["hs"]].ask([{k: v for k, v in s.items() if k not in ("intr", "fresh")} for s in seg])
        for s, g, w in zip(seg, pen, want):
            if s["k"] == "seed":
                continue
            self.count("evaluations")
            self.sig(seg[0], [(x["k"], x.get("n"), x.get("a"), x.get("g")) for x in seg])
            if g[0] != w[0]:
                self.violate(["C14"], "outcome-differs", "%s after %s: %s here, %s in another process" % (s, seg[0], g, w))
            elif g[0] == "ok":
                if s["k"] == "draw":
                    if g[1] != w[1]:
                        self.violate(["C14", "C13"], "stream-differs", "the application's own draws after %s differ: %s, not %s" % (seg[:6], g[1], w[1]))
                else:
                    d = self.exact(g[1], w[1])
                    if d:
                        self.violate(["C14"], "not-reproducible", "%s after %s with hash seed %s: %s" % (s, seg[:4], self.cfg["hs"], d))
            if self.viol:
                return

    def note(self, s, outcome):
        if self.segment is not None:
            self.segment.append(s)
            self.pending.append(outcome)

    def do(self, op):
        self.count("ops")
        if op.get("fresh"):
            self.boot()
        if op["k"] == "threads":
            return self.threads(op)
        self.step(op)

    def limit(self, s):
        # a poor generator state may repeat one name for some thousands of draws; names run out slowly near 26^3
        n = s.get("n", 166)
        n = 166 if n is None else n
        extra = 40 * 17576 if n > 9000 else 0
        return 3000000 + 200 * n + extra

    def step(self, s):
        k = s["k"]
        it = s.get("intr")
        if k == "seed":
            self.flush()
            R.seed_state(s)
            self.segment, self.pending = [s], [("ok", None)]
            self.count("fault:reseed" + ("-poor-state" if s["poor"] is not None else ""))
            self.prev = "seed"
            return
        if k == "draw":
            self.note(s, ("ok", R.draw(s)))
            self.prev = "draw"
            return
        if k == "other":
            al = kernels.args(self.I, s["fn"], s["seed"], 0)
            try:
                kernels.fn(self.I, s["fn"])(*[v for _, _, v in al])
            except Exception as e:
                self.event(type(e).__name__)
            self.prev = s["fn"]
            return
        before = R.state()
        if k == "keyed":
            f, a, kw, key = R.keyed(self.jax, self.I, s)
            words = R.key_words(self.jax, key)
            before = R.state()
            B = Budget(200000, it and it["k"], it and EXCS[it["exc"]])
            try:
                with B:
                    g = ("ok", R.call_keyed(self.jax, f, a, kw, s["mode"]))
            except Hang:
                raise
            except BaseException as e:
                g = ("exc", simlib.describe_exc(e))
            self.after_keyed(s, g, key, words, before, B.fired)
            return
        h0 = R.halves()
        B = Budget(self.limit(s), it and it["k"], it and EXCS[it["exc"]])
        try:
            with B:
                raw, red = R.unkeyed(self.jax, self.I, s)
            g = ("ok", red)
        except Hang as e:
            sys.settrace(None)
            self.segment = None
            self.violate(["C14"], "no-end", "%s: %s" % (s, e))
            return
        except BaseException as e:
            g = ("exc", simlib.describe_exc(e))
        self.prev = k
        if B.fired:
            self.count("fault:interrupt-" + it["exc"])
            if self.segment is not None:
                self.flush()
            return
        self.note(s, g)
        self.event(k, g[0], bits(g[1]) if g[0] == "ok" else g[1])
        if len(self.samples) < 3:
            self.samples.append(s)
        if g[0] != "ok":
            self.violate(["C14"], "exception", "%s raised %s" % (s, g[1]))
            return
        h1 = R.halves()
        self.check_unkeyed(s, raw, red, h0, h1)

    def after_keyed(self, s, g, key, words, before, fired, threads=False):
        self.count("evaluations")
        if s["mode"] in ("jit", "vmap"):
            self.count("probe:keyed-under-" + s["mode"])
        now = R.key_words(self.jax, key)
        if now != words:
            self.violate(["C13"], "key-changed", "%s: %s became %s" % (s, words, now))
        if not threads and R.state() != before:
            self.violate(["C13"], "global-generator-touched", "%s left the global generators in another state" % (s,))
        if fired:
            self.count("fault:interrupt-" + s["intr"]["exc"])
            return
        st = {k: v for k, v in s.items() if k not in ("intr", "fresh", "mode")}
        w = self.refs[self.cfg["hs"]].ask([st])[0]
        self.sig(self.prev, s["fn"], s["mode"], s["a"], words, g[0], threads)
        self.prev = "keyed"
        self.event(s["fn"], g[0])
        if g[0] != w[0]:
            self.violate(["C13"], "outcome-differs", "%s: %s, in another process %s" % (s, g[1] if g[0] != "ok" else "returned", w[1] if w[0] != "ok" else "returns"))
            return
        if g[0] == "exc":
            self.violate(["C13"], "exception", "%s raises %s" % (s, g[1]))
            return
        if len(self.samples) < 3:
            self.samples.append(s)
        d = same(g[1], w[1], rtol=1e-9, types=False)
        if d:
            self.violate(["C13"], "depends-on-more-than-key", "%s: %s" % (s, d))
            return
        seen = self.byarg.setdefault((s["fn"], s["a"]), {})
        b = bits(w[1])
        if seen.setdefault(b, words) != words:
            self.violate(["C13"], "keys-collide", "%s: keys %s and %s give the same draws" % (s["fn"], seen[b], words))

    def check_unkeyed(self, s, raw, red, h0, h1):
        v = lambda cls, d: self.violate(["C14"], cls, "%s: %s" % (s, d))
        draws = True
        if s["k"] == "fake":
            n = 166 if s["n"] is None else s["n"]
            w, L = raw.ssp_emline_wave, raw.ssp_emline_luminosity
            shape = np.shape(raw.ssp_flux)
            if shape != (len(raw.ssp_lgmet), len(raw.ssp_lg_age_gyr), len(raw.ssp_wave)):
                v("malformed", "ssp_flux of shape %s" % (shape,))
            draws = n > 0
            if n == 0:
                if w is not None or L is not None:
                    v("malformed", "lines where none were asked for")
            else:
                names = list(getattr(w, "_fields", ()))
                if len(names) != n or len(set(names)) != n:
                    v("malformed", "%d names, %d of them distinct, for %d lines" % (len(names), len(set(names)), n))
                elif "XXX" not in names:
                    v("malformed", "no line named XXX")
                if not np.all(np.isfinite(np.array(w, dtype=float))) or len(w) != n:
                    v("malformed", "line wavelengths %s" % (list(w)[:5],))
                if np.shape(L) != (shape[0], shape[1], n):
                    v("malformed", "luminosities of shape %s for %d lines" % (np.shape(L), n))
            what = ("L", bits(("a", "", np.asarray(L)))) if draws and L is not None else None
            ident = ("fake", s["n"])
        else:
            draws = s["a"] % 4 != 3
            what = ("T", bits(red)) if draws else None
            ident = ("rtc", s["a"] % 4)
        if draws and what is not None:
            if h0 == h1:
                v("generator-not-advanced", "fresh draws without advancing either global generator")
            # a generator that was reset gives the same state or values again
            poor = self.segment and self.segment[0]["poor"] is not None
            for st, vals, idn, hh in self.lastun.get(ident, []):
                if st[0] != h0[0] and st[1] != h0[1] and not poor:
                    if vals == what:
                        v("draws-repeat", "the same draws from two different generator states")
                    if hh == h1:
                        v("generators-reset", "the same generator state afterwards from two different states before")
                elif st != h0 and vals == what and hh == h1 and not poor:
                    v("draws-repeat", "two calls one after the other give the same draws and state")
            if not poor:
                self.lastun.setdefault(ident, []).append((h0, what, ident, h1))

    def threads(self, op):
        self.flush()
        n = len(op["bodies"])
        got = [[None] * len(b) for b in op["bodies"]]
        prep = [[R.keyed(self.jax, self.I, s) if s["k"] == "keyed" else None for s in b] for b in op["bodies"]]
        words = [[p and R.key_words(self.jax, p[3]) for p in b] for b in prep]

        def body(i):
            for j, s in enumerate(op["bodies"][i]):
                S.point(i)
                try:
                    if s["k"] == "seed":
                        R.seed_state(s)
                        r = None
                    elif s["k"] == "draw":
                        r = R.draw(s)
                    elif s["k"] == "keyed":
                        f, a, kw, key = prep[i][j]
                        r = R.call_keyed(self.jax, f, a, kw, s["mode"])
                    else:
                        r = R.unkeyed(self.jax, self.I, s)[1]
                    got[i][j] = ("ok", r)
                except sched.Stop:
                    raise
                except BaseException as e:
                    got[i][j] = ("exc", simlib.describe_exc(e))
                    e.__traceback__ = None
                S.point(i)

        S = sched.Sched([body] * n, op["sched"], max_steps=4000000)
        S.run()
        self.count("steps", S.steps)
        self.count("switches", len(S.trace))
        self.event(S.trace)
        self.prev = "threads"
        if S.deadlock or S.overrun:
            self.violate(["C13", "C14"], "no-progress", "threads %s" % ("deadlocked" if S.deadlock else "overran"))
            return
        for i, b in enumerate(op["bodies"]):
            for j, s in enumerate(b):
                if got[i][j] is None:
                    self.violate(["C13", "C14"], "no-result", "%s never ran" % (s,))
                elif s["k"] == "keyed":
                    self.after_keyed(s, got[i][j], prep[i][j][3], words[i][j], None, False, threads=True)
        self.segment = None
        for s, g in zip(op["bodies"][0], got[0]):
            if s["k"] == "seed":
                self.flush()
                self.segment, self.pending = [s], [g]
            elif s["k"] != "keyed":
                self.note(s, g)
        self.flush()
        self.segment = None
