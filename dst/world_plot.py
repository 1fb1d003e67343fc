"""Plot world: make_mzr_comparison_plot on a failing disk, among other open figures (C09)."""

import contextlib
import errno as E
import gc
import os
import shutil
import sys
import warnings

import numpy as np
import simlib
from world_io import EXCS
from worlds import Hang, World

RC = [("figure.dpi", 77.0), ("axes.grid", True), ("font.size", 9.0), ("lines.linewidth", 3.0), ("savefig.dpi", 50.0),
      ("axes.titlesize", "small")]


class PlotWorld(World):
    def setup(self):
        warnings.simplefilter("ignore")
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        import PIL.Image
        import PIL.PngImagePlugin  # noqa
        PIL.Image.init()
        self.mpl, self.plt, self.Image = matplotlib, plt, PIL.Image
        self.shim = simlib.Shim()
        self.root = os.path.join(self.scratch, "fs")
        self.home = os.getcwd()
        self.rc0 = dict(matplotlib.rcParams)
        self.refs = {}

    def boot(self):
        pm, um = simlib.fresh("dsps.metallicity.diagnostics.plot_mzr", "dsps.metallicity.umzr")
        self.pm, self.um = pm, um

    def params(self, seed):
        d = self.um.DEFAULT_MZR_PARAMS
        if seed is None:
            return d
        rs = np.random.RandomState(seed)
        return d._replace(**{k: float(v) * (1 + 0.1 * rs.uniform(-1, 1)) for k, v in d._asdict().items()})

    def figprint(self, fig):
        """What a figure shows."""
        out = []
        for ax in fig.axes:
            for ln in ax.lines:
                x, y = np.asarray(ln.get_xdata(), dtype="f8"), np.asarray(ln.get_ydata(), dtype="f8")
                out.append((x.size, np.round(x, 9).tobytes(), np.round(y, 9).tobytes(), str(ln.get_linestyle()), str(ln.get_marker()),
                            self.mpl.colors.to_hex(ln.get_color())))
            for leg in [c for c in ax.get_children() if isinstance(c, self.mpl.legend.Legend)]:
                out.append(tuple(t.get_text() for t in leg.get_texts()))
            out.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.get_xlim(), ax.get_ylim()))
        return simlib.digest(out)

    def otherprint(self, fig):
        return (self.figprint(fig), tuple(fig.get_size_inches()), fig.dpi, len(fig.get_children()), len(fig.axes),
                str(fig._suptitle.get_text() if fig._suptitle else None))

    def gen_cfg(self, rng):
        return dict(pf=rng.choice([0, 0.6]), pi=rng.choice([0, 0.35]))

    def n_ops(self, rng, cfg):
        return rng.randint(3, 10)

    def begin(self, cfg):
        self.plt.close("all")
        self.mpl.rcParams.update(self.rc0)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "p 1"))
        os.chdir(self.root)
        self.shim.watch(self.root, os.path.join(simlib.REPO, "dsps"))
        if not self.refs:
            for s in (None, 1):
                self.boot()
                for s2 in (None, 4):
                    f = self.pm.make_mzr_comparison_plot(self.params(s), params2=self.params(s2))
                    self.refs[(s, s2)] = self.figprint(f)
            self.plt.close("all")
        self.boot()
        self.others = []
        self.nlines, self.nsites, self.nio = 200, 60, 40
        self.had, self.dirty = False, True
        self.made = 0

    def cleanup(self):
        self.shim.lib.sim_disarm()
        sys.settrace(None)
        gc.enable()
        self.others = []
        self.plt.close("all")
        self.mpl.rcParams.update(self.rc0)
        os.chdir(self.home)
        shutil.rmtree(self.root, ignore_errors=True)

    def gen_op(self, rng):
        r = rng.random()
        if r < 0.15:
            return dict(op="other", seed=rng.randint(0, 999), close=rng.random() < 0.3)
        if r < 0.25:
            k, v = rng.choice(RC)
            return dict(op="rc", key=k, val=v)
        name = rng.choice(["a.png", "a.png", "p 1/b.png", "c.pdf", "d.svg", None, "nodir/x.png"])
        op = dict(op="plot", seed=rng.choice([None, 1]), seed2=rng.choice(["default", None, 4]), name=name, rel=rng.random() < 0.4,
                  faults=[], intr=None, meas=False)
        if rng.random() < self.cfg["pf"]:
            k = rng.random()
            if k < 0.35:
                op["faults"] = [dict(cls=simlib.CLS["WRITE"], nth=rng.choice([0, 0, 1, 2, rng.randint(0, 40)]), count=rng.choice([1, -1]), act="ERR",
                                     arg=rng.choice([E.ENOSPC, E.EIO, E.EDQUOT]))]
            elif k < 0.45:
                op["faults"] = [dict(cls=simlib.CLS["WRITE"], nth=rng.choice([0, 1]), count=1, act="TORN", arg=rng.choice([1, 1000, 0]))]
            elif k < 0.6:
                op["faults"] = [dict(cls=simlib.CLS["WRITE"], nth=rng.choice([0, 1]), count=rng.choice([1, 5]), act="SHORT", arg=rng.choice([1, 1000, 0]))]
            elif k < 0.8:
                op["faults"] = [dict(cls=simlib.CLS[rng.choice(["OPEN", "READ"])], nth=rng.randint(0, 6), count=1, act="ERR",
                                     arg=rng.choice([E.EIO, E.EMFILE, E.EACCES]))]
            else:
                op["faults"] = [dict(cls=simlib.ANY, nth=rng.randint(0, self.nio), count=1, act="ERR", arg=rng.choice([E.EIO, E.EINTR, E.ENOSPC]))]
        elif rng.random() < self.cfg["pi"]:
            op["intr"] = simlib.gen_intr(rng, self.nlines, self.nsites)
        else:
            op["meas"] = rng.random() < 0.2
        return op

    def do(self, op):
        self.count("ops")
        if op["op"] == "other":
            if op["close"] and self.others:
                f, _ = self.others.pop(0)
                self.plt.close(f)
            else:
                rs = np.random.RandomState(op["seed"])
                f, ax = self.plt.subplots(1, rs.randint(1, 3), squeeze=False)
                ax[0, 0].plot(rs.uniform(size=5), rs.uniform(size=5), label="other %d" % op["seed"])
                ax[0, 0].set_title("other %d" % op["seed"])
                self.others.append((f, self.otherprint(f)))
            return
        if op["op"] == "rc":
            self.mpl.rcParams[op["key"]] = op["val"]
            return
        p1 = self.params(op["seed"])
        kw = {}
        s2 = op["seed2"]
        if s2 != "default":
            kw["params2"] = self.params(s2)
        else:
            s2 = None
        fname = None
        if op["name"] is not None:
            fname = os.path.join(self.root, op["name"])
            if op["rel"]:
                kw["fname"] = op["name"]
            else:
                kw["fname"] = fname
        rc = dict(self.mpl.rcParams)
        nums = set(self.plt.get_fignums())
        oth = [self.otherprint(f) for f, _ in self.others]
        before = tuple(p1)
        res, exc = None, None
        tr = simlib.Interrupter.of(op["intr"], EXCS)
        if self.dirty:  # when leftovers of a failed call are closed must not depend on the collector's schedule
            gc.collect()
        gc.disable()
        self.shim.start(op["faults"])
        try:
            with tr if op["intr"] or op.get("meas") else contextlib.nullcontext():
                res = self.pm.make_mzr_comparison_plot(p1, **kw)
        except Hang:
            raise
        except BaseException as e:
            exc = simlib.describe_exc(e)
        fired, nops, counts = self.shim.stop()
        gc.enable()
        self.dirty = exc is not None or any(f > 0 for f in fired)
        if not tr.fired and exc is None:
            self.nsites = max(self.nsites, tr.nd)
            self.nlines = max(self.nlines if not op.get("meas") else 50, tr.n)
            self.nio = max(5, nops)
        faulted = tr.fired or any(f > 0 for f in fired)
        self.count("evaluations")
        self.count("steps", nops + tr.n)
        for p, f in zip(op["faults"], fired):
            if f > 0:
                c = "any" if p["cls"] < 0 else simlib.CLASSES[p["cls"]].lower()
                self.count("fault:%s-%s" % (c, {"TORN": "torn", "SHORT": "short"}.get(p["act"], simlib.errname(p.get("arg", 0)))), f)
        if tr.fired:
            self.count("fault:interrupt-" + op["intr"]["exc"])
        out = "ok" if exc is None else exc.split(":")[0]
        self.event(out, fired, tr.n, len(nums))
        self.sig(out, op["name"], op["seed"], op["seed2"], [(p["cls"], p["nth"], p["act"], p.get("arg")) for p, f in zip(op["faults"], fired) if f],
                 op["intr"] if tr.fired else None, len(self.others), self.had)
        if len(self.samples) < 2:
            self.samples.append(dict(op=op, outcome=out, faults_fired=fired, other_figures=len(self.others)))
        V = lambda c, d: self.violate("C09", c, d)
        rc2 = dict(self.mpl.rcParams)
        if rc2 != rc:
            V("rcparams-changed", "call (%s) changed rcParams %s" % (out, sorted(k for k in set(rc) | set(rc2) if rc.get(k) != rc2.get(k))[:6]))
        now = set(self.plt.get_fignums())
        if nums - now:
            V("figure-closed", "call (%s) closed other figures %s" % (out, sorted(nums - now)))
        if len(now - nums) > 1:
            V("extra-figures", "call opened %d figures" % len(now - nums))
        for (f, _), was in zip(self.others, oth):
            if self.otherprint(f) != was:
                V("other-figure-changed", "call (%s) changed another open figure" % out)
        if tuple(p1) != before:
            V("params-changed", "call changed its parameters")
        if exc is None:
            if any(res is f for f, _ in self.others):
                V("other-figure-changed", "returned a figure that was open before")
            elif self.figprint(res) != self.refs[(op["seed"], s2)]:
                V("wrong-figure", "the figure differs from the one a fresh process draws")
            if tr.fired:
                V("error-swallowed", "returned although interrupted")
            if fname is not None:
                bad = self.check_image(fname)
                if bad:
                    V("bad-image", "returned, but %s: %s (faults %s)" % (op["name"], bad, [p for p, f in zip(op["faults"], fired) if f]))
        else:
            if not faulted and op["name"] != "nodir/x.png":
                V("unexpected-exception", "%s without a fault (earlier faults: %s)" % (exc, self.had))
        self.had |= faulted
        # new figures are closed, as a careful caller would
        res = None
        for n in now - nums:
            self.plt.close(n)
        if fname is not None and os.path.exists(fname) and self.at % 2:
            os.unlink(fname)

    def check_image(self, fname):
        if not os.path.isfile(fname):
            return "no file"
        ext = fname.rsplit(".", 1)[1]
        with open(fname, "rb") as f:
            data = f.read()
        if ext == "pdf":
            return None if data.startswith(b"%PDF") and data.rstrip().endswith(b"%%EOF") else "incomplete PDF"
        if ext == "svg":
            return None if data.rstrip().endswith(b"</svg>") else "incomplete SVG"
        try:
            with self.Image.open(fname) as im:
                im.load()
                if im.size[0] < 300 or im.size[1] < 300:
                    return "image is only %s" % (im.size,)
        except Exception as e:
            return simlib.describe_exc(e)
        if ext == "png" and not data.rstrip().endswith(b"IEND\xaeB`\x82"):
            return "PNG has no end"
        return None
