"""Thread world: several callers inside one process, interleaved by a seeded scheduler (C11)."""

import contextlib
import gc
import io
import os
import sys
import warnings

import fakefsps
import h5py
import kernels
import numpy as np
import sched
import simlib
from world_hist import bits, canon, jax_setup, pristine, same
from world_io import EXCS
from worlds import Hang, World

SKIP = {"data_loaders.retrieve_fake_fsps_data.load_fake_filter_transmission_curves"}
LOADS = ["ssp", "ssp_line", "filter0", "filter1", "pat0", "pat1", "env0", "env1", "emlines", "emlines_test", "missing", "bad",
         "none", "fsps0", "fsps1", "relpat0", "relpat1", "relssp", "nothdf", "nothdf_ssp", "dir"]


class ThreadWorld(World):
    def setup(self):
        self.shim = simlib.Shim()
        (lambda: sys._getframe())().f_trace_opcodes = True  # CPython 3.12: a switch for the whole process, else on from the first run with instructions
        warnings.simplefilter("ignore")
        self.jax = jax_setup(self.scratch)
        self.home = os.getcwd()
        # a stateless peer: what two threads may share of dsps's own side of the bridge is what is judged
        sys.modules["fsps"] = fakefsps.make_module(fakefsps.Peer(dict(seed=3, nz=2, na=3, nw=4, lines=[937.804, 923.15])))
        with pristine() as I:
            for m in sorted({e["mod"] for e in kernels.REG.values()}) + ["data_loaders", "data_loaders.retrieve_fsps_data"]:
                try:
                    I[m]
                except ImportError:
                    pass
            self.gold = I
            self.names = [n for n in kernels.available(I) if n not in SKIP]
        self.groups = {g: [n for n in v if n in self.names] for g, v in kernels.GROUPS.items()}
        self.groups = {g: v for g, v in self.groups.items() if v}
        self.memo = {}
        self.files()
        self.jax.config.update("jax_compilation_cache_dir", os.path.join(os.path.dirname(self.scratch), "jaxcache"))

    def files(self):
        self.dir = os.path.join(self.scratch, "cwd", "data")
        for s in (0, 1):
            d = os.path.join(self.dir, "d%d" % s)
            os.makedirs(os.path.join(d, "filters"), exist_ok=True)
            rs = np.random.RandomState(5 + s)
            for n, line in (("ssp.h5", False), ("ssp_line.h5", True)):
                with h5py.File(os.path.join(d, n), "w") as h:
                    h["ssp_lgmet"], h["ssp_lg_age_gyr"] = np.linspace(-3, -1 - s, 3), np.linspace(-3, 1, 4 + s)
                    h["ssp_wave"], h["ssp_flux"] = np.linspace(100, 9000, 9), rs.uniform(size=(3, 4 + s, 9))
                    if line:
                        h["ssp_emline_name"] = np.array([["Ha", "Hb"], ["Ha", "Oxy"]][s], dtype="S")
                        h["ssp_emline_wave"] = np.linspace(1000, 2000 + 100 * s, 2)
                        h["ssp_emline_luminosity"] = rs.uniform(size=(3, 4 + s, 2))
            for k, top in enumerate((0.9, 0.8)):
                with h5py.File(os.path.join(d, "filters", "band%d_%d.h5" % (k, s)), "w") as h:
                    h["wave"], h["transmission"] = np.linspace(3000 + 100 * s, 6000, 8 + k), np.linspace(0, top - 0.1 * s, 8 + k)
            with h5py.File(os.path.join(d, "filters", "bad.h5"), "w") as h:
                h["wave"], h["transmission"] = np.linspace(3000, 6000, 8), np.linspace(0, 5, 8)
            os.makedirs(os.path.join(d, "filters", "sub.h5"), exist_ok=True)
            for n in ("nothdf_ssp.h5", "filters/nothdf.h5"):
                with open(os.path.join(d, n), "w") as f:
                    f.write("no HDF5 file\n" * 99)
            with open(os.path.join(d, "em.dat"), "w") as f:
                for j in range(6):
                    f.write("%s,Line %d-%d\n" % (1000.5 + 37 * j * (1 + s), j, s))
        self.shim.watch(self.dir)
        os.environ["DSPS_DRN"] = os.path.join(self.dir, "d0")

    # ---------------------------------------------------------------- generation

    def gen_cfg(self, rng):
        g = rng.choice(sorted(self.groups) + ["loads"] * 6 + ["mixed", "py", "py", "py"])
        if g == "loads":
            fns = []
        elif g == "py":
            fns = [n for n in self.names if not kernels.REG[n]["traceable"]]
        else:
            fns = list(self.groups.get(g) or self.names)
        rng.shuffle(fns)
        # raising from a line event while several threads trace instructions crashes CPython 3.12 itself
        op = rng.random() < 0.2
        loads = LOADS[:]
        rng.shuffle(loads)
        return dict(fns=fns[:rng.choice([1, 1, 2, 4])], loads=loads[:rng.choice([2, 4, 8, 99])], pf=rng.choice([0, 0, 0.5]), pload=1.0 if g == "loads" else rng.choice([0, 0, 0.3]), jit=rng.random() < (0.25 if g not in ("loads", "py") else 0.1),
                    gap=rng.choice(["fine", "fine", "medium", "coarse", "few"]), opcodes=op, pi=0 if op else rng.choice([0, 0, 0.3]),
                    seeds=rng.choice([1, 2, 3]), sizes=rng.choice([[0], [0], [0, 1]]))

    def n_ops(self, rng, cfg):
        return rng.randint(2, 4) if cfg["jit"] else rng.randint(2, 6)

    def gen_call(self, rng):
        c = self.cfg
        if not c["fns"] or rng.random() < c["pload"]:
            d = dict(load=rng.choice(c["loads"]), d=rng.randint(0, 1))
        else:
            d = dict(fn=rng.choice(c["fns"]), seed=rng.randint(0, c["seeds"] - 1), size=rng.choice(c["sizes"]), pert=[], box=rng.choice(["np", "np", "jnp"]))
            if rng.random() < 0.4:
                d["pert"] = [dict(arg=rng.randint(0, 12), how=rng.choice(["elem", "scale", "swap"]), pos=rng.randint(0, 60), eps=rng.choice([0.1, 1e-2, 1e-4]))]
        d["intr"] = None
        if rng.random() < c["pi"] * 0.5:
            d["intr"] = dict(k=rng.choice([0, 1, 2, 4, rng.randint(0, 20), rng.randint(0, 100)]), exc=rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"]))
        return d

    def gen_op(self, rng):
        c = self.cfg
        n = rng.choice([2, 2, 2, 3, 4])
        calls = [[self.gen_call(rng) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
        if rng.random() < 0.4:  # all threads make similar calls
            for t in calls[1:]:
                for j in range(min(len(t), len(calls[0]))):
                    t[j] = dict(calls[0][j])
                    if "fn" in t[j]:
                        t[j]["pert"] = [dict(arg=rng.randint(0, 12), how=rng.choice(["elem", "scale"]), pos=rng.randint(0, 60), eps=0.1)]
                    else:
                        t[j]["d"] = rng.randint(0, 1)
        g = c["gap"]
        lim = dict(fine=3, medium=15, coarse=120, few=400)[g]
        if c["opcodes"]:
            lim *= 4
        ns = dict(fine=300, medium=150, coarse=40, few=4)[g]
        faults = []
        if rng.random() < c["pf"] and any("load" in x for t in calls for x in t):
            for _ in range(rng.randint(1, 2)):
                # no read errors: after one, libhdf5 itself hands zeros to another handle on the same data set (see DESIGN)
                k = rng.choice(["OPEN", "OPEN", "STAT"])
                faults.append(dict(cls=simlib.CLS[k], nth=rng.randint(0, dict(OPEN=4, STAT=8)[k]), count=rng.choice([1, 1, 1, 4]), act="ERR",
                                   arg=rng.choice([5, 24, 2] if k == "OPEN" else [5, 2, 13])))
        return dict(op="round", calls=calls, faults=faults, sched=[[rng.randint(1, lim), rng.randint(0, 5)] for _ in range(ns)], fresh=rng.random() < 0.7)

    # ---------------------------------------------------------------- run

    def begin(self, cfg):
        gc.collect()
        self.jax.config.update("jax_disable_jit", not cfg["jit"])
        os.chdir(self.dir)
        self.I = None

    def cleanup(self):
        sys.settrace(None)
        self.jax.config.update("jax_disable_jit", False)
        os.chdir(self.home)

    def boot(self):
        simlib.purge()
        self.I = kernels.Inst()
        for m in list(self.gold.mods):
            self.I[m]

    def prepare(self, I, c, other=None):
        """(function, args, kwargs) of one call in instance I."""
        if "load" in c:
            w, d = c["load"], os.path.join(self.dir, "d%d" % c["d"])
            L = I["data_loaders.load_ssp_data"].load_ssp_templates
            Fl = I["data_loaders.load_filter_data"].load_transmission_curve
            Em = I["data_loaders.load_emline_info"].read_emlines_info_fsps
            fd = os.path.join(d, "filters")
            if w in ("ssp", "ssp_line"):
                return (L, (), dict(fn=os.path.join(d, w + ".h5"))) if c["d"] else (L, (), dict(drn=d, bn=w + ".h5"))
            if w in ("filter0", "filter1"):
                return Fl, (), dict(fn=os.path.join(fd, "band%s_%d.h5" % (w[-1], c["d"])))
            if w in ("pat0", "pat1"):
                return Fl, (), dict(drn=fd, bn_pat="band%s*" % w[-1])
            if w in ("env0", "env1"):
                return Fl, (), dict(bn_pat="*d%s*" % w[-1])
            if w in ("relpat0", "relpat1"):
                return Fl, (), dict(drn=os.path.join("d%d" % c["d"], "filters"), bn_pat="band%s*" % w[-1])
            if w == "relssp":
                return L, (), dict(drn="d%d" % c["d"], bn="ssp.h5")
            if w == "nothdf":
                return Fl, (), dict(fn=os.path.join(fd, "nothdf.h5"))
            if w == "nothdf_ssp":
                return L, (), dict(fn=os.path.join(d, "nothdf_ssp.h5"))
            if w == "dir":
                return Fl, (), dict(drn=fd, bn_pat="sub*")
            if w == "emlines":
                return Em, (os.path.join("d%d" % c["d"], "em.dat"),), {}
            if w == "emlines_test":
                return Em, (os.path.join(d, "em.dat"),), dict(testmode=True)
            if w in ("fsps0", "fsps1"):
                return I["data_loaders.retrieve_fsps_data"].retrieve_ssp_data_from_fsps, (), dict(gas_logz=-0.5 * c["d"], imf_type=int(w[-1]))
            if w == "missing":
                return L, (), dict(drn=d, bn="nothing.h5")
            if w == "bad":
                return Fl, (), dict(fn=os.path.join(fd, "bad.h5"))
            return Fl, (), dict(drn=fd, bn_pat="band*")
        al = kernels.args(self.gold, c["fn"], c["seed"], c["size"])
        for p in c["pert"]:
            kernels.perturb(al, p)
        out = []
        for name, kind, v in al:
            if kind == "key":
                out.append(self.jax.random.PRNGKey(v) if v % 2 else self.jax.random.key(v))
            elif kind in ("arr", "inc"):
                out.append(self.jax.numpy.array(v) if c["box"] == "jnp" else np.array(v))
            elif kind == "list":
                out.append([np.array(x) for x in v])
            else:
                out.append(v)
        return kernels.fn(I, c["fn"]), out, {}

    def solo(self, c):
        k = repr((sorted((a, repr(b)) for a, b in c.items() if a != "intr"), self.cfg["jit"]))
        if k not in self.memo:
            with pristine() as I:
                f, a, kw = self.prepare(I, c)
                lines = [0]
                tr = simlib.Interrupter()
                try:
                    with tr, contextlib.redirect_stdout(io.StringIO()):
                        r = ("ok", canon(self.jax.block_until_ready(f(*a, **kw))))
                except Hang:
                    raise
                except BaseException as e:
                    r = ("exc", simlib.describe_exc(e))
                self.memo[k] = r + (tr.n,)
        return self.memo[k]

    def do(self, op):
        self.count("ops")
        want = [[self.solo(c) for c in t] for t in op["calls"]]
        if self.I is None or op["fresh"]:
            self.boot()
        prep = [[self.prepare(self.I, c) for c in t] for t in op["calls"]]
        n = len(prep)
        got = [[None] * len(t) for t in prep]
        intr = [dict(left=None, exc=None, fired=False) for _ in range(n)]

        def hook(i, frame):
            s = intr[i]
            if s["left"] is not None:
                if s["left"] <= 0 and not simlib.entering_handler(frame):
                    s["left"], s["fired"] = None, True
                    raise s["exc"]("injected")
                s["left"] -= 1

        def body(i):
            for j, (f, a, kw) in enumerate(prep[i]):
                c = op["calls"][i][j]
                S.point(i)
                s = intr[i]
                s["fired"] = False
                if c["intr"]:
                    s["left"], s["exc"] = c["intr"]["k"], EXCS[c["intr"]["exc"]]
                try:
                    r = ("ok", f(*a, **kw))
                except sched.Stop:
                    raise
                except BaseException as e:
                    r = ("exc", e)
                    e.__traceback__ = None
                s["left"] = None
                got[i][j] = r + (s["fired"],)
                S.point(i)

        total = sum(w[2] for t in want for w in t)
        S = sched.Sched([body] * n, op["sched"], opcodes=self.cfg["opcodes"], max_steps=(60 if self.cfg["opcodes"] else 8) * total + 5000)
        S.linehook = hook
        cwd, env = os.getcwd(), dict(os.environ)
        self.shim.start(op["faults"])
        with contextlib.redirect_stdout(io.StringIO()):
            S.run()
        hit = self.shim.stop()[0]
        for p, k in zip(op["faults"], hit):
            if k:
                self.count("fault:%s-%s" % (simlib.CLASSES[p["cls"]].lower(), simlib.errname(p["arg"])), k)
        faulted = any(hit)
        self.count("steps", S.steps)
        self.count("switches", len(S.trace))
        if faulted:
            self.count("probe:faulted-round")
        if S.nblocked:
            self.count("probe:blocked-in-a-lock", S.nblocked)
        self.event(S.trace, S.steps)
        self.sig([[c.get("fn") or (c["load"], c["d"]) for c in t] for t in op["calls"]], S.trace)
        if len(self.samples) < 2:
            self.samples.append(dict(calls=op["calls"], baton=S.trace[:20], steps=S.steps, jit=self.cfg["jit"]))
        if S.deadlock:
            self.violate("C11", "deadlock", "threads never finish: states %s, calls %s" % (S.state, [[c.get("fn") or c["load"] for c in t] for t in op["calls"]]))
            return
        if S.overrun:
            self.violate("C11", "no-progress", "%d scheduling points, %d lines alone" % (S.steps, total))
            return
        for i in range(n):
            for j, w in enumerate(want[i]):
                c, g = op["calls"][i][j], got[i][j]
                name = c.get("fn") or c["load"]
                self.count("evaluations")
                if g is None:
                    self.violate("C11", "no-result", "%s in thread %d never ran" % (name, i))
                    continue
                st, r, fired = g
                if fired:
                    self.count("fault:interrupt-" + c["intr"]["exc"])
                    if st == "exc":
                        continue
                if st == "exc" and w[0] == "exc":
                    self.event(name, "exc")
                    continue
                if st == "exc" and faulted and "load" in c:
                    continue
                if st == "exc":
                    self.violate(["C11"], "exception", "%s in thread %d raised %s; alone it returns" % (name, i, simlib.describe_exc(r)))
                    continue
                cg = canon(r)
                self.event(name, bits(cg))
                if w[0] == "exc":
                    self.violate(["C11"], "value-where-solo-fails", "%s in thread %d returned; alone it raises %s" % (name, i, w[1]))
                    continue
                d = same(cg, w[1])
                if d:
                    self.violate(["C11"], "wrong-value", "%s in thread %d: %s" % (name, i, d))
        if (os.getcwd() != cwd or dict(os.environ) != env) and not any(x.get("intr") for t in op["calls"] for x in t):
            self.violate("C11", "process-state", "the calls %s together left another working directory or environment" %
                         [[c.get("fn") or c["load"] for c in t] for t in op["calls"]])
        os.chdir(cwd)
