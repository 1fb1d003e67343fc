"""Import world: import orders, interruptions, read errors, threads, precision presets and optional packages (C15, C16)."""

import errno as E
import gc
import importlib
import importlib.abc
import importlib.machinery
import io
import locale
import os
import random
import shutil
import sys
import threading
import types
import warnings

import fakefsps
import kernels
import numpy as np
import sched
import simlib
from world_hist import bits, canon, jax_setup, same
from world_io import EXCS
from worlds import Hang, World

ERRS = [E.EIO, E.EMFILE, E.ENFILE, E.ENOMEM, E.ESTALE]
FSPS = ["absent", "absent", "ImportError", "ModuleNotFoundError", "RuntimeError", "present", "present"]
MPL = ["present", "present", "absent", "ImportError"]
DEPS = ("matplotlib", "fsps", "mpl_toolkits")


FSPS_OPTS = [("imf_type", 1), ("imf_type", 0), ("gas_logz", 0.0), ("gas_logu", -2.0), ("dust_type", 0), ("sfh", 0), ("tage", 1.0), ("logzsol", 0.0), ("zred", 0.0),
             ("sps_home", "/nowhere"), ("compute_vega_mags", False), ("vactoair_flag", True), ("peraa", False), ("smooth_velocity", True), ("verbose", 1)]


class Optional(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Stands at the head of sys.meta_path and decides what importing fsps or matplotlib does."""

    def __init__(self, world):
        self.w = world

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top == "fsps":
            if self.w.fsps_now() == "absent":
                raise ModuleNotFoundError("No module named 'fsps'", name="fsps")
            return importlib.machinery.ModuleSpec("fsps", self, origin="simulated")
        if top in ("matplotlib", "mpl_toolkits") and self.w.mpl != "present":
            self.w.count("fault:matplotlib-" + self.w.mpl)
            if self.w.mpl == "absent":
                raise ModuleNotFoundError("No module named '%s'" % name, name=name)
            raise ImportError("simulated: matplotlib is broken")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        how = self.w.fsps_now(consume=True)
        module.half = 1
        if how in ("ImportError", "ModuleNotFoundError", "RuntimeError", "KeyboardInterrupt"):
            self.w.count("fault:fsps-" + how)
            raise dict(ImportError=ImportError, ModuleNotFoundError=ModuleNotFoundError, RuntimeError=RuntimeError,
                       KeyboardInterrupt=KeyboardInterrupt)[how]("simulated fsps import failure")
        module.StellarPopulation = self.w.fake.StellarPopulation
        module.__version__ = "0.4.7"


def fp(v, depth=0):
    """What a public value is, without identity."""
    if isinstance(v, types.ModuleType):
        return None
    if depth > 6:
        return "deep"
    if isinstance(v, (bool, int, str, bytes, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, (float, complex, np.generic)):
        return (type(v).__name__, repr(v))
    if isinstance(v, os.PathLike):
        return ("path", os.fspath(v))
    if isinstance(v, dict):
        return ("dict", [(repr(k), fp(x, depth + 1)) for k, x in v.items()])
    if hasattr(v, "_fields") and isinstance(v, tuple):
        return ("nt", type(v).__name__, v._fields, [fp(x, depth + 1) for x in v])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [fp(x, depth + 1) for x in v])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, sorted(repr(fp(x, depth + 1)) for x in v))
    if isinstance(v, type):
        return ("class", v.__module__, v.__qualname__, getattr(v, "_fields", None), str(getattr(v, "_field_defaults", None)))
    if callable(v):
        f = getattr(v, "__wrapped__", v)
        d = getattr(f, "__defaults__", None)
        kd = getattr(f, "__kwdefaults__", None)
        names = getattr(getattr(f, "__code__", None), "co_varnames", ())[: getattr(getattr(f, "__code__", None), "co_argcount", 0)]
        return ("call", type(v).__name__, getattr(v, "__module__", None), getattr(v, "__qualname__", None), names, fp(d, depth + 1), fp(kd, depth + 1))
    if hasattr(v, "dtype") and hasattr(v, "shape"):
        a = np.asarray(v) if str(v.dtype) != "object" else np.array(repr(v))
        return ("arr", "jax" if "jax" in type(v).__module__ else "np", str(v.dtype), a.shape, a.tobytes())
    return ("obj", type(v).__module__, type(v).__qualname__)


class ImportWorld(World):
    def setup(self):
        warnings.simplefilter("ignore")
        self.jax = jax_setup(self.scratch)
        sys.dont_write_bytecode = True
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.cm
        import matplotlib.lines
        import matplotlib.pyplot as plt
        self.plt, self.mplmod = plt, matplotlib
        self.mplsaved = {m: sys.modules[m] for m in sys.modules if m.split(".")[0] in ("matplotlib", "mpl_toolkits")}
        self.shim = simlib.Shim()
        self.home = os.getcwd()
        self.fake = fakefsps.make_module(fakefsps.Peer(dict(seed=3, nz=2, na=3, nw=4, lines=None)))
        self.finder = Optional(self)
        self.mods = self.walk()
        self.fsps, self.script, self.mpl, self.stats = "present", [], "present", {}
        self.jax.config.update("jax_enable_x64", True)
        self.optional(True)
        simlib.purge()
        self.save()
        self.ref, self.refvals = {}, {}
        importlib.import_module("dsps")
        for m in self.mods:
            self.ref[m] = self.names(importlib.import_module(m))
        self.soft = set()       # what an optional package provides or announces
        for m in self.mods:
            for n, f in self.ref[m].items():
                v = getattr(sys.modules[m], n)
                mod = str(getattr(v, "__module__", "") or "")
                if n.startswith("HAS_") or n.split(".")[0] in DEPS or mod.split(".")[0] in DEPS:
                    self.soft.add((m, n))
        self.gold = kernels.Inst()
        for e in kernels.REG.values():
            try:
                self.gold[e["mod"]]
            except ImportError:
                pass
        self.kern = [k for k in kernels.available(self.gold) if "load_fake" not in k]
        self.values(self.gold, range(0, len(self.kern), 9), self.refvals)
        self.optional(False)
        self.restore()
        self.jax.config.update("jax_compilation_cache_dir", os.path.join(os.path.dirname(self.scratch), "jaxcache"))

    def walk(self):
        out = []
        for d, ds, fs in os.walk(os.path.join(simlib.REPO, "dsps")):
            ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__", "data"))
            for f in sorted(fs):
                if f.endswith(".py") and "__init__.py" in fs:
                    rel = os.path.relpath(os.path.join(d, f), simlib.REPO)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel.pop()
                    out.append(".".join(rel))
        return sorted(m for m in out if m not in ("dsps._version",))

    def names(self, mod):
        out = {}
        for n in list(vars(mod)):
            if n.startswith("_") and n != "__version__":
                continue
            f = fp(getattr(mod, n))
            if f is not None:
                out[n] = f
        return out

    # ---------------------------------------------------------------- optional packages

    def fsps_now(self, consume=False):
        if self.script:
            return self.script.pop(0) if consume else self.script[0]
        return self.fsps

    def optional(self, on):
        if on:
            sys.meta_path.insert(0, self.finder)
            if self.mpl != "present":
                for m in self.mplsaved:
                    sys.modules.pop(m, None)
        else:
            if self.finder in sys.meta_path:
                sys.meta_path.remove(self.finder)
            sys.modules.update(self.mplsaved)
        sys.modules.pop("fsps", None)

    # ---------------------------------------------------------------- generation

    def gen_cfg(self, rng):
        c16 = self.prop == "C16"
        return dict(x64=rng.random() < 0.4, fsps=rng.choice(FSPS), mpl=rng.choice(MPL if c16 else MPL[:2] * 3 + MPL[2:]), pfault=rng.choice([0, 0.4, 0.8]),
                    pthreads=rng.choice([0, 0, 0.6]), script=["KeyboardInterrupt"] * rng.choice([0, 0, 0, 1, 2]), style=rng.choice(["any", "top", "leaf"]),
                    calls=rng.random() < (0.6 if c16 else 0.15), preset_names=rng.random() < 0.5, drn=rng.choice([None, None, "empty", "missing"]),
                    x64env=rng.choice([None, None, "0", "1", "False", ""]),
                    fkw=[self.gen_fkw(rng) for _ in range(rng.choice([1, 2, 3]))])

    def gen_fkw(self, rng):
        """Options of a call that needs python-fsps."""
        kw = {}
        if rng.random() < 0.4:
            kw["add_neb_emission"] = rng.random() < 0.5
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k, v = rng.choice(FSPS_OPTS)
            kw[k] = v
        return kw

    def n_ops(self, rng, cfg):
        return rng.randint(1, 6)

    def gen_mods(self, rng):
        st = self.cfg["style"]
        k = rng.choice([1, 1, 2, 3, 6])
        pool = self.mods
        if st == "top" and rng.random() < 0.6:
            return ["dsps"]
        if st == "leaf":
            pool = [m for m in self.mods if m.count(".") >= 1]
        if rng.random() < (0.5 if self.prop == "C16" else 0.1):
            pool = [m for m in self.mods if "retrieve" in m or "plot" in m or "data_loaders" in m or "metallicity" in m] or pool
        return [rng.choice(pool) for _ in range(k)]

    def gen_op(self, rng):
        c = self.cfg
        op = dict(op="import", mods=self.gen_mods(rng), how=rng.choice(["import", "import", "star", "attr"]), again=rng.random() < 0.25, intr=None, io=None,
                  restart=rng.random() < 0.15)
        if rng.random() < c["pthreads"]:
            op["op"] = "threads"
            n = rng.choice([2, 2, 3])
            op["bodies"] = [self.gen_mods(rng) for _ in range(n)]
            if rng.random() < 0.4:
                op["bodies"] = [list(op["bodies"][0]) for _ in range(n)]
            op["intrs"] = [self.gen_intr(rng) if rng.random() < c["pfault"] * 0.5 else None for _ in range(n)]
            lim = rng.choice([3, 20, 150])
            op["sched"] = [[rng.randint(1, lim), rng.randint(0, 4)] for _ in range(rng.choice([5, 15, 40]))]
        elif rng.random() < c["pfault"]:
            if rng.random() < 0.6:
                op["intr"] = self.gen_intr(rng)
            else:
                op["io"] = dict(cls=rng.choice(["OPEN", "READ", "READ"]), nth=rng.choice([0, 1, rng.randint(0, 60), rng.randint(0, 60)]),
                                act=rng.choice(["ERR", "ERR", "ERR", "SHORT"]), err=rng.choice(ERRS))
        return op

    def gen_intr(self, rng):
        return dict(k=rng.choice([0, rng.randint(0, 30), rng.randint(0, 300), rng.randint(0, 900)]), exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "OSError"]))

    # ---------------------------------------------------------------- run

    def begin(self, cfg):
        gc.collect()
        simlib.purge()
        importlib.invalidate_caches()
        self.jax.config.update("jax_enable_x64", bool(cfg["x64"]))
        self.fsps, self.script, self.mpl = cfg["fsps"], list(cfg["script"]), cfg["mpl"]
        self.swallowed = False
        self.ok = set()
        self.interrupted = 0
        self.restore()
        self.optional(True)

    def cleanup(self):
        sys.settrace(None)
        self.optional(False)
        self.plt.close("all")
        self.jax.config.update("jax_enable_x64", True)
        self.jax.config.update("jax_disable_jit", False)
        os.chdir(self.home)
        for m in [m for m in sys.modules if m == "dsps" or m.startswith("dsps.")]:
            del sys.modules[m]
        self.restore()

    def save(self):
        """The process-wide state before anything of dsps was ever imported."""
        self.g0 = dict(env=dict(os.environ), err=np.geterr(), po=np.get_printoptions(), filters=list(warnings.filters), path=list(sys.path),
                       jax=dict(self.jax.config.values), rc=dict(self.mplmod.rcParams.copy()), loc=locale.setlocale(locale.LC_ALL), rec=sys.getrecursionlimit())

    def restore(self):
        """Undo what an import may have left behind, so that the next one is again a first one."""
        g = self.g0
        if dict(os.environ) != g["env"]:
            os.environ.clear()
            os.environ.update(g["env"])
        np.seterr(**g["err"])
        if repr(np.get_printoptions()) != repr(g["po"]):
            np.set_printoptions(**{k: v for k, v in g["po"].items() if k != "override_repr"})
        if warnings.filters != g["filters"]:
            warnings.filters[:] = g["filters"]
            warnings._filters_mutated()
        if sys.path != g["path"]:
            sys.path[:] = g["path"]
        for k, v in g["jax"].items():
            if self.jax.config.values.get(k) != v and k not in ("jax_enable_x64", "jax_compilation_cache_dir", "jax_disable_jit"):
                self.jax.config.update(k, v)
        for k, v in g["rc"].items():
            if dict.__getitem__(self.mplmod.rcParams, k) != v:
                dict.__setitem__(self.mplmod.rcParams, k, v)
        if locale.setlocale(locale.LC_ALL) != g["loc"]:
            locale.setlocale(locale.LC_ALL, g["loc"])
        if sys.getrecursionlimit() != g["rec"]:
            sys.setrecursionlimit(g["rec"])
        # the user's own directories, as they were: empty
        for d in ("home", "data"):
            d = os.path.join(self.scratch, d)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        v = (getattr(self, "cfg", None) or {}).get("drn")
        if v:
            os.environ["DSPS_DRN"] = os.path.join(self.scratch, "data" if v == "empty" else "nowhere")
        v = (getattr(self, "cfg", None) or {}).get("x64env")
        if v is not None:
            os.environ["JAX_ENABLE_X64"] = v

    def globals(self):
        jc = {k: v for k, v in self.jax.config.values.items() if k != "jax_enable_x64"}
        return dict(environment=dict(os.environ), directory=os.getcwd(), python_generator=random.getstate(),
                    numpy_generator=repr(np.random.get_state()[1:]) + np.random.get_state()[1].tobytes().hex(), numpy_errors=np.geterr(),
                    numpy_print=repr(np.get_printoptions()), warning_filters=list(map(repr, warnings.filters)), path=list(sys.path),
                    jax_config=repr(sorted(jc.items(), key=lambda t: t[0])), rc=repr(sorted(self.mplmod.rcParams.items())) if self.mpl == "present" else "",
                    locale=locale.setlocale(locale.LC_ALL), recursion=sys.getrecursionlimit(), threads=threading.active_count(),
                    figures=tuple(self.plt.get_fignums()), umask=self.umask(), stdio=(id(sys.stdout), id(sys.stderr)))

    def umask(self):
        u = os.umask(0o22)
        os.umask(u)
        return u

    def one(self, m, how):
        if how == "star":
            ns = {}
            exec("from %s import *" % m, ns)
        elif how == "attr" and "." in m:
            p, c = m.rsplit(".", 1)
            exec("from %s import %s" % (p, c), {})
        else:
            importlib.import_module(m)
        return sys.modules[m]

    def watched(self, fn, io_fault=None):
        """Run fn with everything it prints and writes recorded."""
        before = self.globals()
        out, err = io.StringIO(), io.StringIO()
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        before["stdio"] = (id(out), id(err))
        if io_fault:
            self.shim.watch(simlib.PKG)
            plans = [dict(cls=simlib.CLS[io_fault["cls"]], nth=io_fault["nth"], count=1, act=io_fault["act"], arg=io_fault["err"] if io_fault["act"] == "ERR" else 7)]
        else:
            self.shim.watch("/")
            plans = []
        self.shim.start(plans)
        try:
            fn()
        finally:
            fired, nops, _ = self.shim.stop()
            sys.stdout, sys.stderr = so, se
        self.count("steps", nops)
        mods = [x for x in self.shim.modifications() if "jaxcache" not in x[1] and not x[1].startswith(("/dev/", "/proc/"))]
        if mods:
            self.violate(["C15"], "wrote-files", "importing wrote %s" % (mods[:3],))
        if out.getvalue() or err.getvalue():
            self.violate(["C15"], "printed", "importing printed %r" % ((out.getvalue() + err.getvalue())[:200]))
        before["stdio"] = None
        after = self.globals()
        after["stdio"] = None
        for k in before:
            if before[k] != after[k]:
                self.violate(["C15"], "global-state-changed", "importing changed %s: %s" % (k, self.diff(before[k], after[k])))
        if os.getcwd() != self.home:
            os.chdir(self.home)
        return bool(fired and fired[0])

    def diff(self, a, b):
        if isinstance(a, dict):
            return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
        a, b = str(a), str(b)
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return "%r became %r" % (a[max(0, i - 40):i + 40], b[max(0, i - 40):i + 40])

    def restart(self):
        simlib.purge()
        importlib.invalidate_caches()
        sys.modules.pop("fsps", None)
        self.jax.config.update("jax_enable_x64", bool(self.cfg["x64"]))
        self.restore()
        self.swallowed = False
        self.ok = set()

    def do(self, op):
        self.count("ops")
        if op["restart"]:
            self.restart()
        if op["op"] == "threads":
            return self.threads(op)
        for m in op["mods"] + (op["mods"] if op["again"] else []):
            if m not in self.mods:
                continue
            self.attempt(m, op["how"], op["intr"], op["io"])
            if self.viol:
                return

    def attempt(self, m, how, intr, iof, final=False):
        tr = simlib.Interrupter.of(intr, EXCS)
        box = {}

        def go():
            try:
                with tr:
                    box["m"] = self.one(m, how)
            except Hang:
                raise
            except BaseException as e:
                box["e"] = e
                e.__traceback__ = None

        fired = self.watched(go, iof)
        self.count("steps", tr.n)
        kind = None
        if tr.fired:
            kind = "interrupt-" + intr["exc"]
        elif fired:
            kind = "io-" + iof["cls"] + "-" + iof["act"]
        if kind:
            self.count("fault:" + kind)
        e = box.get("e")
        simulated = isinstance(e, KeyboardInterrupt) and "simulated fsps" in str(e)
        self.event(m, how, kind, type(e).__name__ if e else "ok")
        self.sig(m, how, kind, intr and intr["k"] if tr.fired else iof and (iof["nth"], iof["err"]), self.cfg["x64"], self.fsps, self.mpl, sorted(self.ok))
        self.count("evaluations")
        if len(self.samples) < 3:
            self.samples.append(dict(module=m, how=how, fault=kind, outcome=type(e).__name__ if e else "ok", fsps=self.fsps, matplotlib=self.mpl))
        if e is not None:
            if kind is None and not simulated:
                opt = ["C16"] if self.fsps != "present" or self.mpl != "present" else []
                self.violate(["C15"] + opt, "import-fails", "importing %s (%s) raises %s; fsps %s, matplotlib %s, %d interrupted attempts before, loaded %s"
                             % (m, how, simlib.describe_exc(e), self.fsps, self.mpl, self.interrupted, sorted(self.ok)[:8]))
            else:
                self.interrupted += 1
                importlib.invalidate_caches()
            return False
        if kind and kind.startswith(("interrupt", "io")) and "SHORT" not in kind:
            self.swallowed = self.swallowed or not kind.endswith("KeyboardInterrupt")
        self.ok.add(m)
        self.judge(m, box["m"])
        return True

    def judge(self, m, mod):
        """The names of a module that reported success."""
        got, want = self.names(mod), self.ref[m]
        full = self.fsps == "present" and self.mpl == "present"
        props = ["C15"] if full else ["C15", "C16"]
        for n, f in want.items():
            if (m, n) in self.soft:
                continue
            if n not in got:
                self.violate(props, "name-missing", "%s.%s is missing; fsps %s, matplotlib %s, order %s" % (m, n, self.fsps, self.mpl, sorted(self.ok)[:8]))
            elif got[n] != f:
                self.violate(props, "value-differs", "%s.%s is %s, not %s; double precision preset %s, fsps %s, matplotlib %s"
                             % (m, n, str(got[n])[:150], str(f)[:150], self.cfg["x64"], self.fsps, self.mpl))
        if full:
            extra = [n for n in got if n not in want and (m, n) not in self.soft]
            if extra:
                self.violate(["C15"], "extra-names", "%s has %s, which a plain import does not give" % (m, extra[:4]))
        if not self.jax.config.jax_enable_x64:
            self.violate(["C15"], "single-precision", "JAX is in single precision after importing %s" % m)

    def threads(self, op):
        n = len(op["bodies"])
        errs = [[] for _ in range(n)]
        got = [[] for _ in range(n)]
        left = [dict(k=i["k"], exc=EXCS[i["exc"]], fired=False) if i else None for i in op["intrs"]]

        def hook(i, frame):
            s = left[i]
            if s and s["k"] is not None:
                if s["k"] <= 0 and not simlib.entering_handler(frame):
                    s["k"], s["fired"] = None, True
                    raise s["exc"]("injected")
                s["k"] -= 1

        def body(i):
            for m in op["bodies"][i]:
                if m not in self.mods:
                    continue
                # parents first: CPython itself may refuse, or return unfinished, a module whose package another thread is importing
                parts = m.split(".")
                for k in range(len(parts)):
                    S.point(i)
                    x = ".".join(parts[: k + 1])
                    try:
                        got[i].append((x, self.one(x, "import")))
                    except sched.Stop:
                        raise
                    except BaseException as e:
                        errs[i].append((x, e))
                        e.__traceback__ = None
                        break

        S = sched.Sched([body] * n, op["sched"], max_steps=100000)
        S.linehook = hook
        self.watched(S.run)
        fired = [s for s in left if s and s["fired"]]
        for s, i in zip(left, op["intrs"]):
            if s and s["fired"]:
                self.count("fault:interrupt-" + i["exc"])
                self.interrupted += 1
        self.count("steps", S.steps)
        self.count("switches", len(S.trace))
        if S.nblocked:
            self.count("probe:blocked-in-an-import-lock", S.nblocked)
        self.event(S.trace, [[(m, type(e).__name__) for m, e in x] for x in errs])
        self.sig(op["bodies"], S.trace, self.cfg["x64"], self.fsps, self.mpl)
        self.count("evaluations")
        if S.deadlock or S.overrun:
            self.violate(["C15"], "no-progress", "importing %s in threads %s" % (op["bodies"], "deadlocks" if S.deadlock else "does not end"))
            return
        for i in range(n):
            for m, e in errs[i]:
                sim = isinstance(e, KeyboardInterrupt) and "simulated fsps" in str(e)
                if not fired and not sim and not any("simulated fsps" in str(x) for er in errs for _, x in er):
                    self.violate(["C15"], "import-fails", "importing %s in thread %d of %s raises %s" % (m, i, op["bodies"], simlib.describe_exc(e)))
        if fired:
            self.swallowed = True
            importlib.invalidate_caches()
            return
        if not any(errs):
            for i in range(n):
                for m, mod in got[i]:
                    self.ok.add(m)
                    self.judge(m, mod)

    # ---------------------------------------------------------------- after the faults

    def values(self, I, idx, store):
        self.jax.config.update("jax_disable_jit", True)
        bad = []
        try:
            for i in idx:
                name = self.kern[i % len(self.kern)]
                al = kernels.args(I, name, 1, 0)
                a = [self.jax.random.PRNGKey(v) if kind == "key" else v for _, kind, v in al]
                try:
                    r = ("ok", canon(kernels.fn(I, name)(*a)))
                except Exception as e:
                    r = ("exc", type(e).__name__)
                if store is not None:
                    store[name] = r
                else:
                    bad.append((name, r))
        finally:
            self.jax.config.update("jax_disable_jit", False)
        return bad

    def end(self):
        """Faults have stopped: everything must now import, and work."""
        self.script = []
        if self.swallowed:
            self.restart()
        self.count("recoveries")
        for m in self.mods if not self.cfg["calls"] else reversed(self.mods):
            self.attempt(m, "import", None, None, final=True)
            if self.viol:
                return
        I = kernels.Inst()
        h = sum(map(len, self.ok)) + self.interrupted
        idx = [i for i in range(0, len(self.kern), 9)]
        idx = idx[h % len(idx):][:3]
        for name, r in self.values(I, idx, None):
            w = self.refvals[name]
            self.count("evaluations")
            d = None if r[0] == w[0] == "exc" else "%s, not %s" % (r[1], w[1]) if r[0] != w[0] else same(r[1], w[1])
            if d:
                self.violate(["C15"] + (["C16"] if self.fsps != "present" or self.mpl != "present" else []), "result-differs",
                             "%s: %s; double precision preset %s, fsps %s, matplotlib %s" % (name, d, self.cfg["x64"], self.fsps, self.mpl))
        if self.cfg["calls"]:
            self.optional_calls()

    def optional_calls(self):
        for via in ("dsps.data_loaders.retrieve_fsps_data", "dsps.data_loaders"):
            f = getattr(sys.modules[via], "retrieve_ssp_data_from_fsps", None)
            if f is None:
                self.violate(["C16"], "name-missing", "%s has no retrieve_ssp_data_from_fsps" % via)
                return
            for i, kw in enumerate([{}] + self.cfg.get("fkw", [])):
                so = sys.stdout
                sys.stdout = io.StringIO()
                try:
                    r = ("ok", f(**kw))
                except Exception as e:
                    r = ("exc", e)
                finally:
                    sys.stdout = so
                self.count("evaluations")
                self.sig("retrieve", via, self.fsps, r[0], i, kw)
                if self.fsps == "present":
                    if r[0] != "ok" or np.shape(r[1].ssp_flux) != (2, 3, 4):
                        self.violate(["C16"], "does-not-work", "retrieve_ssp_data_from_fsps(%s) with fsps present: %s" % (kw, r[1]))
                elif r[0] == "ok":
                    self.violate(["C16"], "returns-data", "retrieve_ssp_data_from_fsps(%s) (call %d) returns %s with fsps %s" % (kw, i, str(r[1])[:100], self.fsps))
        pm = sys.modules["dsps.metallicity.diagnostics.plot_mzr"]
        um = sys.modules["dsps.metallicity.umzr"]
        for i in range(1 + len(self.cfg.get("fkw", []))):
            try:
                fig = pm.make_mzr_comparison_plot(um.DEFAULT_MZR_PARAMS)
                r = ("ok", fig)
            except Exception as e:
                r = ("exc", e)
            self.count("evaluations")
            self.sig("plot", self.mpl, r[0], i)
            if self.mpl == "present":
                if r[0] != "ok" or len(getattr(r[1], "axes", [])) < 1:
                    self.violate(["C16"], "does-not-work", "make_mzr_comparison_plot with matplotlib present: %s" % (r[1],))
                break
            elif r[0] == "ok":
                self.violate(["C16"], "returns-data", "make_mzr_comparison_plot (call %d) returns %s with matplotlib %s" % (i, r[1], self.mpl))
