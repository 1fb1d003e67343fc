"""History world: long sequences of numerical calls in one process (C10), and what they leave behind (C12)."""

import contextlib
import gc
import hashlib
import os
import random
import shutil
import sys
import threading
import warnings

import numpy as np
import kernels
import simlib
from world_io import EXCS
from worlds import Hang, World

TUPS = dict(MZRParams="metallicity.umzr", MZRUParams="metallicity.umzr", BurstParams="sfh.diffburst", BurstUParams="sfh.diffburst",
            SSPData="data_loaders.defaults")


def jax_setup(scratch):
    """JAX with its compiled-code cache on disk, shared by the workers of one check (dsps itself has no part in that;
    entries are keyed by the compiled program, so a changed program is compiled anew)."""
    sys.pycache_prefix, sys.dont_write_bytecode = os.path.join(scratch, "pyc"), False
    import jax
    from jax._src import lru_cache

    def put(self, key, value):
        path = os.path.join(str(self.path), key + "-cache")
        if not os.path.exists(path):
            tmp = "%s.%d" % (path, os.getpid())
            with open(tmp, "wb") as f:
                f.write(value)
            os.replace(tmp, path)

    lru_cache.LRUCache.put = put
    lru_cache.LRUCache.get = lambda self, key: _get(os.path.join(str(self.path), key + "-cache"))
    jax.config.update("jax_compilation_cache_dir", os.path.join(os.path.dirname(scratch), "jaxcache"))
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    jax.config.update("jax_enable_x64", True)
    return jax


def _get(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


@contextlib.contextmanager
def pristine():
    """A dsps instance without any history; the instance under test is put back afterwards."""
    saved = {m: sys.modules[m] for m in list(sys.modules) if m == "dsps" or m.startswith("dsps.")}
    rs, nps = random.getstate(), np.random.get_state()
    try:
        simlib.purge()
        yield kernels.Inst()
    finally:
        for m in [m for m in sys.modules if m == "dsps" or m.startswith("dsps.")]:
            del sys.modules[m]
        sys.modules.update(saved)
        random.setstate(rs)
        np.random.set_state(nps)


def canon(x):
    """A result as nested plain data with NumPy copies at the leaves."""
    if hasattr(x, "_fields"):
        return ("nt", type(x).__name__, tuple(x._fields), [canon(v) for v in x])
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, [canon(v) for v in x])
    if isinstance(x, dict):
        return ("dict", list(x), [canon(v) for v in x.values()])
    if x is None or isinstance(x, (str, bool)):
        return ("v", x)
    if isinstance(x, (int, float)):
        return ("a", type(x).__name__, np.array(x))
    a = np.array(x)
    return ("a", str(a.dtype), a)


def leaves(c):
    if c[0] == "a":
        yield c[2]
    elif c[0] != "v":
        for v in c[-1]:
            yield from leaves(v)


def same(a, b, rtol=1e-9, atol=1e-11, types=True):
    """None if equal to within rounding, else what differs."""
    if a[0] != b[0]:
        if types or {a[0], b[0]} - {"tuple", "list"}:
            return "kind %s, not %s" % (a[0], b[0])
    if a[0] == "v":
        return None if a[1] == b[1] else "%r, not %r" % (a[1], b[1])
    if a[0] == "a":
        x, y = a[2], b[2]
        if x.shape != y.shape:
            return "shape %s, not %s" % (x.shape, y.shape)
        if a[1] != b[1] and types:
            return "dtype %s, not %s" % (a[1], b[1])
        if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
            return None if np.array_equal(x, y) else "%s, not %s" % (x, y)
        if min(x.dtype.itemsize, y.dtype.itemsize) <= 4 and x.dtype.kind == "f":
            rtol, atol = max(rtol, 2e-4), max(atol, 2e-5)
        x, y = x.astype("f8"), y.astype("f8")
        fin = np.isfinite(y)
        scale = np.abs(y[fin]).max() if fin.any() else 0.0
        with np.errstate(all="ignore"):
            ok = (np.abs(x - y) <= rtol * np.abs(y) + atol * scale) | (x == y) | (np.isnan(x) & np.isnan(y))
        if ok.all():
            return None
        i = np.argwhere(~ok)[0]
        return "%d of %d elements differ, e.g. [%s] %r, not %r" % ((~ok).sum(), ok.size, ",".join(map(str, i)), float(x[tuple(i)]), float(y[tuple(i)]))
    if a[0] == "nt" and a[1:3] != b[1:3] and types:
        return "%s%s, not %s%s" % (a[1], a[2], b[1], b[2])
    if a[0] == "dict" and a[1] != b[1]:
        return "keys differ"
    if len(a[-1]) != len(b[-1]):
        return "%d parts, not %d" % (len(a[-1]), len(b[-1]))
    for i, (p, q) in enumerate(zip(a[-1], b[-1])):
        d = same(p, q, rtol, atol, types)
        if d:
            return "part %s: %s" % (a[2][i] if a[0] == "nt" else i, d)
    return None


def bits(c):
    h = hashlib.sha1()
    for a in leaves(c):
        h.update(repr((a.shape, str(a.dtype))).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12]


class HistWorld(World):
    def setup(self):
        warnings.simplefilter("ignore")
        self.jax = jax_setup(self.scratch)
        self.jnp = self.jax.numpy
        self.home = os.getcwd()
        self.comp = {}
        self.memo = {}
        self.nokw = set()
        with pristine() as I:
            for m in sorted({e["mod"] for e in kernels.REG.values()}) + ["data_loaders", "constants", "data_loaders.retrieve_fsps_data"]:
                try:
                    I[m]
                except ImportError:
                    pass
            self.gold = I
            self.names = kernels.available(I)
        self.groups = {g: [n for n in v if n in self.names] for g, v in kernels.GROUPS.items()}
        self.groups = {g: v for g, v in self.groups.items() if v}
        if self.prop == "C12":
            import fakefsps
            self.peer0 = fakefsps.make_module(fakefsps.Peer(dict(seed=0, nz=1, na=1, nw=2, lines=None)))

    # ------------------------------------------------------------------ generation

    def gen_cfg(self, rng):
        g = rng.choice(sorted(self.groups))
        k = rng.choice([2, 3, 5])
        fns = list(self.groups[g])
        rng.shuffle(fns)
        fns = fns[:k]
        for _ in range(rng.choice([0, 1, 3])):
            fns.append(rng.choice(self.names))
        return dict(fns=fns, seeds=rng.choice([1, 2, 4]), pi=rng.choice([0, 0.15, 0.4]), pbad=rng.choice([0, 0.1]), pevict=rng.choice([0, 0.05, 0.15]),
                    ppert=rng.choice([0.3, 0.6, 0.8]), ctxs=["plain"] * 3 + rng.choice([[], ["jit", "jitkeep", "jitkeep"], ["jitpart"], ["grad"], ["vjp2"], ["vmap", "kw"], ["x32", "jit"],
                                                   ["jit", "grad", "kw"], ["nojit"] if rng.random() < 0.3 else ["jitpart", "jitkeep"]]),
                    sizes=rng.choice([[0], [0, 0, 1], [0, 0, 2], [0, 1, 2]]), mix=rng.choice(["np", "pool", "mixed", "mixed"]),
                    scrib=rng.choice([0, 0.5]), long=rng.random() < 0.2, amb=self.gen_ambient(rng) if self.prop == "C12" else None)

    def gen_ambient(self, rng):
        """Settings an application may have chosen before it calls dsps."""
        a = {}
        if rng.random() < 0.35:
            k = rng.choice(["jax_numpy_rank_promotion", "jax_default_matmul_precision", "jax_traceback_filtering", "jax_debug_nans"])
            a["jax"] = {k: dict(jax_numpy_rank_promotion="warn", jax_default_matmul_precision="highest", jax_traceback_filtering="off",
                                jax_debug_nans=False)[k]}
        if rng.random() < 0.5:
            a["err"] = {k: rng.choice(["ignore", "warn", "print"]) for k in ("divide", "over", "under", "invalid")}
        if rng.random() < 0.3:
            a["umask"] = rng.choice([0o077, 0o002, 0])
        if rng.random() < 0.3:
            a["rec"] = rng.choice([1500, 5000])
        if rng.random() < 0.3:
            a["print"] = rng.choice([3, 12])
        if rng.random() < 0.3:
            a["warn"] = rng.choice(["always", "ignore", "once"])
        if rng.random() < 0.3:
            a["log"] = rng.choice([10, 40])
        if rng.random() < 0.3:
            a["gc"] = rng.choice([0, 300])
        return a

    def ambient(self, a):
        import logging
        import warnings
        self.was = dict(err=np.geterr(), umask=os.umask(0o022), rec=sys.getrecursionlimit(), print=np.get_printoptions(),
                        warn=warnings.filters[:], log=logging.getLogger().level, gc=gc.get_threshold(), gcon=gc.isenabled(), jax={})
        for k, v in (a.get("jax") or {}).items():
            self.was["jax"][k] = getattr(self.jax.config, k)
            self.jax.config.update(k, v)
        if "err" in a:
            np.seterr(**a["err"])
        if "umask" in a:
            os.umask(a["umask"])
        if "rec" in a:
            sys.setrecursionlimit(a["rec"])
        if "print" in a:
            np.set_printoptions(precision=a["print"])
        if "warn" in a:
            warnings.simplefilter(a["warn"])
        if "log" in a:
            logging.getLogger().setLevel(a["log"])
        if "gc" in a:
            gc.disable() if not a["gc"] else gc.set_threshold(a["gc"])

    def unambient(self):
        import logging
        import warnings
        w, self.was = self.was, None
        if w is None:
            return
        np.seterr(**w["err"])
        os.umask(w["umask"])
        sys.setrecursionlimit(w["rec"])
        np.set_printoptions(**w["print"])
        warnings.filters[:] = w["warn"]
        warnings._filters_mutated()
        logging.getLogger().setLevel(w["log"])
        gc.set_threshold(*w["gc"])
        gc.enable() if w["gcon"] else gc.disable()
        for k, v in w["jax"].items():
            self.jax.config.update(k, v)

    def n_ops(self, rng, cfg):
        if self.prop == "C12":
            return rng.randint(15, 60)
        return rng.randint(50, 110) if cfg["long"] else rng.randint(10, 35)

    def gen_op(self, rng):
        c = self.cfg
        r = rng.random()
        if r < c["pevict"]:
            return dict(op=rng.choice(["evict", "gc"]))
        if self.prop == "C12" and r > 0.75:
            return self.gen_loader(rng)
        fn = rng.choice(c["fns"])
        pert = []
        if rng.random() < c["ppert"]:
            for _ in range(rng.choice([1, 1, 1, 2])):
                pert.append(dict(arg=rng.randint(0, 12), how=rng.choice(["elem", "elem", "scale", "swap"]), pos=rng.choice([0, rng.randint(0, 200), rng.randint(0, 200), -1]),
                                 eps=rng.choice(kernels.EPS)))
        ctx = rng.choice(c["ctxs"])
        if self.prop == "C12" and rng.random() < 0.3 or self.prop == "C10" and ctx in ("plain", "kw") and rng.random() < 0.06:
            pert.append(dict(arg=rng.randint(0, 12), how=rng.choice(kernels.ODD + ["reverse", "reverse-all"]), pos=rng.randint(0, 200), eps=0.0))
        box = c["mix"] if c["mix"] != "mixed" else rng.choice(["np", "pool", "pool", "jnp", "view", "ro", "f32"])
        op = dict(op="call", fn=fn, seed=rng.randint(0, c["seeds"] - 1), size=rng.choice(c["sizes"]), pert=pert, ctx=ctx, box=box, argi=rng.randint(0, 5),
                  intr=None, bad=None, scribble=rng.random() < c["scrib"])
        if rng.random() < c["pi"]:
            op["intr"] = dict(k=rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 80)]), exc=rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"]))
        elif rng.random() < c["pbad"]:
            op["bad"] = dict(arg=rng.randint(0, 12), how=rng.choice(["none", "short", "str", "missing"]))
        return op

    def gen_loader(self, rng):
        op = dict(op="load", what=rng.choice(["ssp", "ssp_line", "filter", "filter_pat", "filter_env", "emlines", "emlines_test", "missing", "badfilter", "dir", "dummy", "fsps",
                                              "fsps_lines", "ambiguous", "ran_unkeyed"]), intr=None, seed=rng.randint(0, 3))
        if rng.random() < max(self.cfg["pi"], 0.2):
            op["intr"] = dict(k=rng.choice([0, 1, 2, 3, 4, 5, 6, 8, rng.randint(0, 30), rng.randint(0, 60)]), first=rng.random() < 0.5, exc=rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"]))
        return op

    # ------------------------------------------------------------------ run

    def begin(self, cfg):
        gc.collect()
        for d in ("home", "tmp"):
            p = os.path.join(self.scratch, d)
            for f in os.listdir(p):
                q = os.path.join(p, f)
                shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        simlib.purge()
        if self.prop == "C12":
            sys.modules["fsps"] = self.peer0
        random.seed(12345)
        np.random.seed(12345)
        self.I = kernels.Inst()
        for m in list(self.gold.mods):
            self.I[m]
        self.pool = {}
        self.jits = {}
        self.kept = []
        self.prev = None
        self.since = "boot"
        if self.prop == "C12":
            self.begin_files()
            self.ambient(cfg.get("amb") or {})

    was = None

    def cleanup(self):
        sys.settrace(None)
        self.unambient()
        self.pool, self.jits, self.kept = {}, {}, []
        sys.modules.pop("fsps", None)
        os.chdir(self.home)

    def remap(self, kind, v):
        """A named tuple built from the gold instance, as one of the instance under test."""
        if kind in ("tup", "ssp"):
            m = TUPS.get(type(v).__name__)
            if m:
                cls = getattr(self.I[m], type(v).__name__, None)
                if cls is not None:
                    return cls(*v)
        return v

    def values(self, op):
        al = kernels.args(self.gold, op["fn"], op["seed"], op["size"])
        for p in op["pert"]:
            kernels.perturb(al, p)
        return al

    def key(self, v):
        return self.jax.random.PRNGKey(v) if v % 2 else self.jax.random.key(v)

    def box(self, op, al, ref=False):
        out = []
        how = op["box"]
        for i, (name, kind, v) in enumerate(al):
            if kind == "key":
                out.append(self.key(v))
            elif kind in ("arr", "inc"):
                out.append(self.boxarr(how, v, (op["fn"], i), ref))
            elif kind == "list":
                out.append([self.boxarr(how if how != "jnp" else "np", x, (op["fn"], i, j), ref) for j, x in enumerate(v)])
            elif kind == "f":
                out.append(np.float32(v) if how == "f32" else self.jnp.asarray(v) if how == "jnp" else float(v))
            elif kind in ("tup", "ssp"):
                if kind == "ssp":  # its own arrays, so that nothing is shared between calls unless pooled
                    v = v._replace(**{f: self.boxarr(how if how != "jnp" else "np", getattr(v, f), (op["fn"], i, f), ref)
                                      for f in v._fields if isinstance(getattr(v, f), np.ndarray)})
                out.append(v if ref else self.remap(kind, v))
            else:
                out.append(list(v) if isinstance(v, list) else v)
        return out

    def boxarr(self, how, v, slot, ref):
        v = np.asarray(v, dtype="f8")
        if how == "jnp":
            return self.jnp.array(v)
        if how == "f32":
            return v.astype("f4")
        if how == "view":
            b = np.full(v.shape + (2,), 7.0)
            b[..., 0] = v
            return b[..., 0]
        if how == "ro":
            b = v.copy()
            b.setflags(write=False)
            return b
        if how == "pool" and not ref:
            k = slot + (v.shape,)
            a = self.pool.get(k)
            if a is None:
                a = self.pool[k] = v.copy()
            else:
                a[...] = v
            return a
        return v.copy()

    def break_args(self, args, bad, fn):
        if not args:
            return args
        i = bad["arg"] % len(args)
        a = list(args)
        h = bad["how"]
        if args and i == 0 and kernels.REG[fn]["attr"].startswith("load_random"):
            h = "str"  # without a key the function draws at random, by design
        if h == "none":
            a[i] = None
        elif h == "str":
            a[i] = "nonsense"
        elif h == "missing":
            del a[i]
        elif h == "short":
            if getattr(a[i], "shape", ()) and a[i].shape[0] > 2 and str(a[i].dtype).startswith("float"):
                a[i] = a[i][:-2]
            else:
                a[i] = None
        return a

    # -- the call in its context; f is a function of some instance

    def total(self, r):
        s = 0.0
        for l in self.jax.tree_util.tree_leaves(r):
            l = self.jnp.asarray(l)
            if self.jnp.issubdtype(l.dtype, self.jnp.floating):
                s = s + self.jnp.sum(l * self.jnp.cos(0.1 * self.jnp.arange(l.size)).reshape(l.shape))
        return s

    def gradarg(self, op, n):
        g = kernels.REG[op["fn"]]["grad"]
        return g[op["argi"] % len(g)] if g else None

    def vec(self, al, i, op):
        """Two different values for argument i."""
        b = [list(a) for a in al]
        kernels.perturb(b, dict(arg=i, how="elem", pos=op["argi"], eps=1e-2))
        return b

    def invoke(self, f, op, args, args2=None, keep=None):
        jax = self.jax
        ctx = op["ctx"]
        if ctx in ("plain", "x32"):
            if ctx == "x32":
                with jax.enable_x64(False):
                    return f(*args)
            return f(*args)
        if ctx == "kw":
            import inspect
            ps = list(inspect.signature(f).parameters)
            n = len(args) - op["argi"] % (len(args) + 1)
            return f(*args[:n], **dict(zip(ps[n:], args[n:])))
        if ctx == "nojit":
            with jax.disable_jit():
                return f(*args)
        if ctx == "jit":
            return jax.jit(lambda *a: f(*a))(*args)
        if ctx == "jitkeep":
            if keep is None:
                return jax.jit(lambda *a: f(*a))(*args)
            if op["fn"] not in keep:
                keep[op["fn"]] = jax.jit(lambda *a: f(*a))
            return keep[op["fn"]](*args)
        i = self.gradarg(op, len(args))
        if i is None:
            return f(*args)

        def one(x):
            a = list(args)
            a[i] = x
            return f(*a)
        if ctx == "jitpart":
            return jax.jit(one)(args[i])
        if ctx == "grad":
            return jax.grad(lambda x: self.total(one(x)))(args[i])
        if ctx == "vjp2":
            y, pull = jax.vjp(lambda x: self.total(one(x)), args[i])
            if args2 is not None:
                f(*args2)
                jax.vjp(lambda x: self.total(f(*(list(args2[:i]) + [x] + list(args2[i + 1:])))), args2[i])
            return pull(self.jnp.ones_like(y))[0]
        if ctx == "vmap":
            st = jax.tree_util.tree_map(lambda *v: np.stack([np.asarray(u) for u in v]), args[i], args2[i])
            return jax.vmap(one)(st)
        raise ValueError(ctx)

    def screen(self, op, al, bad):
        """Result of the compiled pure function of a pristine instance, or None if it cannot be compiled."""
        e = kernels.REG[op["fn"]]
        if not e["traceable"] or bad or op["ctx"] == "x32":
            return None
        i = self.gradarg(op, len(al))
        grad = op["ctx"] in ("grad", "vjp2") and i is not None
        if op["ctx"] == "vmap" and i is not None:
            b = self.vec(al, i, op)
            o2 = dict(op, ctx="plain")
            r1 = self.screen(o2, al, None)
            r2 = self.screen(o2, [al[j] if j != i else b[j] for j in range(len(al))], None)
            if r1 is None or r2 is None:
                return None
            return ("stack", r1, r2)
        args = self.box(op, al, ref=True)
        lv, td = self.jax.tree_util.tree_flatten(args)
        k = (op["fn"], i if grad else None, str(td), tuple((getattr(l, "shape", ()), str(getattr(l, "dtype", type(l).__name__)),
                                                            isinstance(l, float)) for l in lv))
        if k not in self.comp:
            try:
                with pristine() as I:
                    f = kernels.fn(I, op["fn"])
                    if grad:
                        g = lambda *a: self.jax.grad(lambda x: self.total(f(*a[:i], x, *a[i + 1:])))(a[i])
                    else:
                        g = lambda *a: f(*a)
                    self.comp[k] = self.jax.jit(g).lower(*args).compile()
            except Hang:
                raise
            except Exception:
                self.comp[k] = None
        c = self.comp[k]
        if c is None:
            return None
        return canon(c(*args))

    def fresh(self, op, al, bad):
        """The same call, in the same context, in a pristine instance."""
        k = repr([op[x] for x in ("fn", "seed", "size", "pert", "ctx", "box", "argi")] + [bad])
        if k not in self.memo:
            self.memo[k] = self._fresh(op, al, bad)
            self.count("fresh_instances")
        return self.memo[k]

    def _fresh(self, op, al, bad):
        with pristine() as I:
            f = kernels.fn(I, op["fn"])
            saved = self.I
            self.I = I
            try:
                args = self.box(dict(op, box="np" if op["box"] == "pool" else op["box"]), al)
                if bad:
                    args = self.break_args(args, bad, op["fn"])
                args2 = None
                if op["ctx"] in ("vjp2", "vmap"):
                    i = self.gradarg(op, len(al))
                    args2 = self.box(dict(op, box="np"), self.vec(al, i or 0, op))
                    if op["ctx"] == "vjp2":
                        args2 = None
                r = self.invoke(f, op, args, args2)
                return ("ok", canon(r))
            except Hang:
                raise
            except Exception as e:
                return ("exc", simlib.describe_exc(e))
            finally:
                self.I = saved

    def agrees(self, got, ref):
        if ref[0] == "stack":
            def cut(c, j):
                if c[0] == "a":
                    return ("a", c[1], c[2][j]) if c[2].ndim else c
                if c[0] == "v":
                    return c
                return c[:-1] + ([cut(x, j) for x in c[-1]],)
            try:
                return same(cut(got, 0), ref[1], types=False) or same(cut(got, 1), ref[2], types=False)
            except IndexError:
                return "vmapped result lacks the mapped axis"
        return same(got, ref, types=True)

    # ------------------------------------------------------------------ operations

    def do(self, op):
        self.count("ops")
        if op["op"] == "evict":
            self.jax.clear_caches()
            self.count("fault:cache-eviction")
            self.event("evict")
            self.since = "evict"
            return
        if op["op"] == "gc":
            self.pool = {}
            gc.collect()
            self.count("fault:arrays-collected")
            self.event("gc")
            self.since = "gc"
            return
        if op["op"] == "load":
            return self.do_load(op)
        al = self.values(op)
        args = self.box(op, al)
        bad = op["bad"]
        if bad:
            args = self.break_args(args, bad, op["fn"])
        args2 = None
        if op["ctx"] in ("vjp2", "vmap"):
            i = self.gradarg(op, len(al))
            args2 = self.box(dict(op, box="np"), self.vec(al, i or 0, op))
        f = kernels.fn(self.I, op["fn"])
        before = self.fingerprint(args) if self.prop == "C12" else None
        res, exc = None, None
        tr = simlib.Interrupter.of(op["intr"], EXCS)
        try:
            with tr if op["intr"] else contextlib.nullcontext():
                res = self.invoke(f, op, args, args2, self.jits)
                res = self.jax.block_until_ready(res)
        except Hang:
            raise
        except BaseException as e:
            exc = simlib.describe_exc(e)
        sys.settrace(None)
        self.count("evaluations")
        self.count("steps", max(1, tr.n))
        if tr.fired:
            self.count("fault:interrupt-" + op["intr"]["exc"])
        if bad:
            self.count("fault:bad-arguments")
        out = "intr" if tr.fired and exc else "exc" if exc else "ok"
        got = None
        if exc is None:
            try:
                got = canon(res)
            except Exception as e:
                exc, out = "result unusable: " + simlib.describe_exc(e), "exc"
        self.event(op["fn"], op["ctx"], out, bits(got) if got else "")
        me = (op["fn"], op["ctx"], op["box"], op["seed"], op["size"], tuple((p["arg"], p["how"], p["eps"]) for p in op["pert"]))
        self.sig(self.prev, me, out, self.since)
        if len(self.samples) < 2 and self.prev:
            self.samples.append(dict(call=op, outcome=out, after=self.prev[0]))
        self.prev, self.since = (op["fn"], op["ctx"], out), ""
        if before is not None:
            self.side_effects(before, args, "%s (%s, %s)" % (op["fn"], op["ctx"], out if exc is None else exc[:60]))
            return
        if op["ctx"] == "x32" or (tr.fired and exc):
            return
        self.judge(op, al, bad, got, exc)
        if exc is None:
            if op["scribble"] and not self.mine():
                self.scribble(res)
            elif op["box"] != "pool":  # a result may legitimately share the caller's own arrays
                self.kept.append((op["fn"], res, got))
                if len(self.kept) > 12:
                    self.recheck(self.kept.pop(0))

    def judge(self, op, al, bad, got, exc):
        ref = self.screen(op, al, bad)
        if ref is not None and exc is None and not self.agrees(got, ref):
            return
        if ref is None and exc is not None and bad:
            memo = ("bad", op["fn"], op["ctx"], bad["arg"], bad["how"])
            if memo in self.nokw:
                return
        k = None
        if op["ctx"] == "kw" and exc is not None:
            k = ("kw", op["fn"], op["argi"])
            if k in self.nokw:
                return
        st, val = self.fresh(op, al, bad)
        if st == "exc":
            if exc is not None:
                if bad:
                    self.nokw.add(("bad", op["fn"], op["ctx"], bad["arg"], bad["how"]))
                if k:
                    self.nokw.add(k)
                return
            self.violate("C10", "value-where-fresh-fails", "%s returned, but raises in a fresh process: %s" % (op["fn"], val))
            return
        if exc is not None:
            self.violate("C10", "history-exception", "%s (%s) raised %s; in a fresh process it returns" % (op["fn"], op["ctx"], exc))
            return
        d = same(got, val, types=True)
        if d:
            self.violate("C10", "history-value", "%s (%s): %s" % (op["fn"], op["ctx"], d))

    def scribble(self, r):
        for l in self.jax.tree_util.tree_leaves(r):
            if isinstance(l, np.ndarray) and l.flags.writeable and l.dtype.kind == "f":
                l[...] = -12345.0
                self.count("results_overwritten")
        if isinstance(r, dict):
            r.clear()

    def recheck(self, item):
        fn, res, got = item
        try:
            d = same(canon(res), got, rtol=0, atol=0)
        except Exception as e:
            d = simlib.describe_exc(e)
        if d:
            self.violate("C10", "result-changed-later", "an earlier result of %s changed: %s" % (fn, d))

    def end(self):
        for it in self.kept:
            self.recheck(it)

    # ------------------------------------------------------------------ side effects (C12)

    def fp(self, x):
        if isinstance(x, np.ndarray):
            return ("np", x.shape, str(x.dtype), x.strides, x.flags.writeable, np.ascontiguousarray(x).tobytes())
        if isinstance(x, (str, bytes, int, float, bool, type(None), np.generic)):
            return repr(x)
        if hasattr(x, "_fields"):
            return (type(x).__name__, x._fields, tuple(self.fp(v) for v in x))
        if isinstance(x, (list, tuple, set)):
            return (type(x).__name__, tuple(self.fp(v) for v in x))
        if isinstance(x, dict):
            return (type(x).__name__, tuple((repr(k), self.fp(v)) for k, v in x.items()))
        if hasattr(x, "is_deleted"):
            if x.is_deleted():
                return "deleted"
            if self.jax.dtypes.issubdtype(x.dtype, self.jax.dtypes.prng_key):
                return ("key", np.asarray(self.jax.random.key_data(x)).tobytes())
            return ("jax", x.shape, str(x.dtype), np.asarray(x).tobytes())
        return "?"

    def constants(self):
        out = {}
        for m in sorted(sys.modules):
            if m == "dsps" or m.startswith("dsps."):
                for k, v in list(vars(sys.modules[m]).items()):
                    if not k.startswith("_") and not callable(v) and not hasattr(v, "__loader__"):
                        f = self.fp(v)
                        if f != "?":
                            out[m + "." + k] = f
        for name, modname in TUPS.items():
            cls = getattr(sys.modules.get("dsps." + modname), name, None)
            if cls is not None:
                out[name] = (tuple(cls._fields), self.fp(dict(getattr(cls, "_field_defaults", {}))))
        for n in self.names:  # default argument values are parameter tables too
            f = kernels.fn(self.I, n)
            f = getattr(f, "__wrapped__", f)
            out["defaults of " + n] = self.fp([getattr(f, "__defaults__", None), getattr(f, "__kwdefaults__", None)])
        return out

    def jaxconf(self):
        v = dict(self.jax.config.values)
        for k in ("jax_enable_x64", "jax_disable_jit", "jax_debug_nans", "jax_debug_infs", "jax_default_matmul_precision", "jax_numpy_dtype_promotion",
                  "jax_numpy_rank_promotion", "jax_default_device", "jax_log_compiles", "jax_check_tracer_leaks"):
            try:
                v["now:" + k] = getattr(self.jax.config, k)
            except AttributeError:
                pass
        return {k: repr(x) for k, x in v.items()}

    def fingerprint(self, args):
        return dict(args=[self.fp(a) for a in args], constants=self.constants(), pyrandom=random.getstate(), nprandom=self.fp(list(np.random.get_state())),
                    env=dict(os.environ), cwd=os.getcwd(), errstate=dict(np.geterr(), call=repr(np.geterrcall())), jaxconfig=self.jaxconf(), settings=self.settings())

    def settings(self):
        import locale
        import logging
        import signal
        import warnings
        um = os.umask(0o022)
        os.umask(um)
        root = logging.getLogger()
        mine = ("dsps", "h5py", "numpy", "jax", "py.warnings")
        return dict(umask=um, path=list(sys.path), meta=[id(x) for x in sys.meta_path], recursion=sys.getrecursionlimit(), filters=repr(warnings.filters),
                    showwarning=id(warnings.showwarning), printoptions=repr(np.get_printoptions()), bufsize=np.getbufsize(),
                    signals=[repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1)], locale=locale.setlocale(locale.LC_ALL),
                    streams=[id(sys.stdin), id(sys.stdout), id(sys.stderr)], hooks=[id(sys.excepthook), id(sys.displayhook)],
                    gc=(gc.isenabled(), gc.get_threshold()), switch=sys.getswitchinterval(), log=(root.level, len(root.handlers), logging.root.manager.disable),
                    loggers={n: logging.getLogger(n).level for n in mine}, threads=sorted(t.name for t in threading.enumerate()))

    def side_effects(self, b, args, what, drew=False):
        a = self.fingerprint(args)
        for k in b:
            if a[k] == b[k] or (drew and k in ("pyrandom", "nprandom")):
                continue
            if k == "constants":
                d = sorted(n for n in b[k] if n in a[k] and a[k][n] != b[k][n]) + ["-" + n for n in b[k] if n not in a[k]]
                if not d:
                    continue  # new names of lazily imported modules
            elif k == "args":
                d = [i for i, (x, y) in enumerate(zip(b[k], a[k])) if x != y]
            elif isinstance(b[k], dict):
                d = ["%s: %r -> %r" % (n, b[k].get(n), a[k].get(n)) for n in sorted(set(a[k]) | set(b[k])) if a[k].get(n) != b[k].get(n)]
            else:
                d = ""
            self.violate("C12", k + "-changed", "%s changed %s %s" % (what, k, d))

    # -- loaders (C12 only)

    def begin_files(self):
        self.dir = os.path.join(self.scratch, "cwd", "data")
        if not os.path.isdir(self.dir):
            import h5py
            os.makedirs(os.path.join(self.dir, "filters"))
            rs = np.random.RandomState(5)
            for n, line in (("ssp.h5", False), ("ssp_line.h5", True)):
                with h5py.File(os.path.join(self.dir, n), "w") as h:
                    h["ssp_lgmet"], h["ssp_lg_age_gyr"] = np.linspace(-3, -1, 3), np.linspace(-3, 1, 4)
                    h["ssp_wave"], h["ssp_flux"] = np.linspace(100, 9000, 9), rs.uniform(size=(3, 4, 9))
                    if line:
                        h["ssp_emline_wave"] = np.linspace(1000, 2000, 2)
                        h["ssp_emline_wave"].attrs["x"] = 1
                        h["ssp_emline_luminosity"] = rs.uniform(size=(3, 4, 2))
            for n, top in (("a_r.h5", 0.9), ("a_g.h5", 0.8), ("bad.h5", 3.0)):
                with h5py.File(os.path.join(self.dir, "filters", n), "w") as h:
                    h["wave"], h["transmission"] = np.linspace(3000, 6000, 8), np.linspace(0, top, 8)
            os.environ["DSPS_DRN"] = self.dir
        os.chdir(self.dir)

    def do_load(self, op):
        I, w = self.I, op["what"]
        L = I["data_loaders.load_ssp_data"].load_ssp_templates
        Fl = I["data_loaders.load_filter_data"].load_transmission_curve
        Em = I["data_loaders.load_emline_info"].read_emlines_info_fsps
        fd = os.path.join(self.dir, "filters")
        table = os.path.join(os.path.dirname(sys.modules["dsps"].__file__), "data", "emlines_info.dat")
        drew, peer = False, None
        kw = {}
        if w in ("ssp", "ssp_line"):
            f, kw = L, dict(fn=os.path.join(self.dir, w + ".h5"))
        elif w == "filter":
            f, kw = Fl, dict(fn=os.path.join(fd, "a_r.h5"))
        elif w == "filter_pat":
            f, kw = Fl, dict(drn=fd, bn_pat="a_g*")
        elif w == "filter_env":
            f, kw = Fl, dict(bn_pat="a_r*")
        elif w == "ambiguous":
            f, kw = Fl, dict(bn_pat="a_*")
        elif w == "badfilter":
            f, kw = Fl, dict(fn=os.path.join(fd, "bad.h5"))
        elif w == "missing":
            f, kw = (L, dict(drn=self.dir, bn="nothing.h5")) if op["seed"] % 2 else (Fl, dict(drn=fd, bn_pat="nothing*"))
        elif w == "dir":
            f, kw = L, dict(drn=os.path.join(self.dir, "no_such_dir"))
        elif w in ("emlines", "emlines_test"):
            f, kw = Em, dict(fn=table, testmode=w == "emlines_test")
        elif w == "dummy":
            f, kw, drew = L, dict(dummy=True), True
        elif w == "ran_unkeyed":
            f, drew = I["data_loaders.load_filter_data"].load_random_transmission_curve, True
        else:
            import fakefsps
            import world_fsps
            rf = I["data_loaders.retrieve_fsps_data"]
            lines = None
            if w == "fsps_lines":
                rows = world_fsps.table()
                lines = [rows[i][0] for i in (0, 3, 5)]
            peer = fakefsps.Peer(dict(seed=op["seed"], nz=2, na=3, nw=5, lines=lines))
            self.peer0.StellarPopulation = fakefsps.make_module(peer).StellarPopulation
            f, kw = rf.retrieve_ssp_data_from_fsps, dict(imf_type=1)
        args = [kw]
        before = self.fingerprint(args)
        exc = None
        tr = simlib.Interrupter.of(op["intr"], EXCS)
        try:
            with tr if op["intr"] else contextlib.nullcontext():
                f(**kw)
        except Hang:
            raise
        except BaseException as e:
            exc = simlib.describe_exc(e)
        sys.settrace(None)
        self.count("evaluations")
        self.count("steps", max(1, tr.n))
        if tr.fired:
            self.count("fault:interrupt-" + op["intr"]["exc"])
        elif exc:
            self.count("fault:failing-load")
        out = "exc" if exc else "ok"
        self.event(w, out)
        self.sig("load", w, out, op["intr"] if tr.fired else None, self.prev)
        self.prev = (w, "load", out)
        self.side_effects(before, args, "%s (%s)" % (w, out if exc is None else exc[:60]), drew)
