"""Writer world: scripts/write_fsps_data_to_disk.py on a simulated disk, with crashes (C08)."""

import errno as E
import faulthandler
import json
import os
import random
import runpy
import shutil
import signal
import sys

import crashfs
import fakefsps
import numpy as np
import simlib
from world_fsps import gen_lines, table
from world_io import EXCS, L_SUN, content, matches, write_file
from worlds import Hang, World

SCRIPT = os.path.join(simlib.REPO, "scripts", "write_fsps_data_to_disk.py")
DIRS = ["o0", "o 1", "o[2]"]


class WriterWorld(World):
    def setup(self):
        self.shim = simlib.Shim()
        self.root = os.path.join(self.scratch, "fs")
        self.crash = os.path.join(self.scratch, "crash")
        self.home = os.getcwd()
        self.rows = table()

    def gen_cfg(self, rng):
        return dict(mode=rng.choice(["faults", "crash", "crash", "mixed", "intr"]))

    def n_ops(self, rng, cfg):
        return rng.randint(1, 5)

    def begin(self, cfg):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.crash, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(self.crash)
        for d in DIRS:
            os.makedirs(os.path.join(self.root, d))
        self.current = fakefsps.make_module(fakefsps.Peer(dict(seed=0, nz=1, na=1, nw=2, lines=None)))
        sys.modules["fsps"] = self.current
        (self.dl,) = simlib.fresh("dsps.data_loaders")
        self.shim.watch(self.root, os.environ["TMPDIR"])
        self.model = {}
        self.nops, self.nlines, self.nsites = 40, 120, 70
        os.chdir(self.root)

    def cleanup(self):
        self.shim.lib.sim_disarm()
        sys.settrace(None)
        sys.modules.pop("fsps", None)
        os.chdir(self.home)
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.crash, ignore_errors=True)

    def gen_op(self, rng):
        lines, names = (None, None) if rng.random() < 0.3 else gen_lines(rng, self.rows, bad_ok=rng.random() < 0.15)
        big = rng.random() < 0.3
        spec = dict(seed=rng.randint(0, 2 ** 31), nz=rng.randint(1, 4), na=rng.randint(1, 5),
                    nw=rng.randint(2, 8) if not big else rng.randint(200, 1500), lines=lines, fail=None)
        prior = None
        if rng.random() < 0.6:
            prior = dict(kind="ssp", seed=rng.randint(0, 2 ** 31), dt="f8", nm=rng.randint(1, 3), na=rng.randint(1, 3),
                         nw=rng.randint(2, 6), nl=rng.choice([-1, 2, 30]), lay="contig")
            if rng.random() < 0.3:
                # a previous version of the very same shape, as a rerun of the script would leave
                prior.update(nm=spec["nz"], na=spec["na"], nw=spec["nw"], nl=-1 if lines is None else len(lines))
        op = dict(op="write", spec=spec, names=names, path=os.path.join(rng.choice(DIRS), rng.choice(["a.h5", "out", "b.hdf5"])),
                  rel=rng.random() < 0.3, prior=prior, logz=rng.choice([None, None, 0.0, -0.5, 0.3]),
                  logu=rng.choice([None, None, -2.0, -3.5]), faults=[], intr=None, crashes=[])
        if names is not None:
            pass
        mode = self.cfg["mode"]
        if mode == "mixed":
            mode = rng.choice(["faults", "crash", "intr", "none"])
        if mode == "faults":
            r = rng.random()
            if r < 0.3:   # the disk fills up and stays full
                op["faults"] = [dict(cls=simlib.CLS["WRITE"], nth=rng.randint(0, self.nops), count=-1, act="ERR", arg=E.ENOSPC)]
            elif r < 0.45:
                op["faults"] = [dict(cls=simlib.CLS["WRITE"], nth=rng.randint(0, self.nops), count=1, act="TORN", arg=rng.choice([1, 100, 0]))]
            elif r < 0.65:
                op["faults"] = [dict(cls=simlib.ANY, nth=rng.randint(0, self.nops + 6), count=rng.choice([1, 1, -1]), act="MODERR",
                                     arg=rng.choice([E.EIO, E.ENOSPC, E.EDQUOT, E.EROFS]))]
            elif r < 0.75:
                op["faults"] = [dict(cls=simlib.CLS[rng.choice(["RENAME", "SYNC", "TRUNC", "OPEN"])], nth=rng.randint(0, 1),
                                     count=rng.choice([1, -1]), act="ERR", arg=rng.choice([E.EIO, E.EACCES, E.ENOSPC]))]
            elif r < 0.85:
                op["faults"] = [dict(cls=simlib.CLS["WRITE"], nth=rng.randint(0, self.nops), count=rng.choice([1, 2, -1]), act="SHORT",
                                     arg=rng.choice([1, 50, 0]))]
            else:
                spec["fail"] = dict(at=rng.randint(0, 3 + spec["nz"] * 5), exc=rng.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt"]))
        elif mode == "intr":
            op["intr"] = simlib.gen_intr(rng, self.nlines, self.nsites, 0.6)
            if not op["intr"].get("first") and rng.random() < 0.7:
                op["intr"]["k"] = rng.randint(max(0, self.nlines - 30), self.nlines + 2)
        elif mode == "crash":
            n = rng.randint(4, 14)
            for _ in range(n):
                kind = rng.choice(["kill", "kill", "power", "power"])
                op["crashes"].append(dict(kind=kind, at=round(rng.random() ** rng.choice([1, 0.4]), 4), torn=rng.choice([None, None, 0.0, 0.5, 0.9]),
                                          meta=round(rng.random() ** 0.3, 4), lose=rng.choice([0.0, 0.3, 0.9, 1.0]), seed=rng.randint(0, 2 ** 31)))
        return op

    # ---------------------------------------------------------------- oracle

    def is_new(self, res, peer, spec, op):
        """None if res is exactly the complete new data."""
        kw = {}
        if op["logz"] is not None:
            kw["gas_logz"] = op["logz"]
        if op["logu"] is not None:
            kw["gas_logu"] = op["logu"]
        flux, lum = [], []
        for z in range(1, spec["nz"] + 1):
            f, l = peer.data(dict(kw, zmet=z, add_neb_emission=True, zcontinuous=0))
            flux.append(f)
            lum.append(l)

        def ok(a, b):
            a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
            return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12 * 0)

        if not (ok(res.ssp_lgmet, np.log10(peer.zlegend)) and np.allclose(res.ssp_lg_age_gyr, peer.log_age - 9, rtol=0, atol=1e-11)
                and ok(res.ssp_wave, peer.wave) and ok(res.ssp_flux, np.array(flux))):
            return "spectra or grids differ from what FSPS generated"
        if spec["lines"] is None:
            return None if res.ssp_emline_wave is None and res.ssp_emline_luminosity is None else "line fields appeared"
        if res.ssp_emline_wave is None or res.ssp_emline_luminosity is None:
            return "emission lines are missing"
        if list(res.ssp_emline_wave._fields) != op["names"]:
            return "line names differ"
        if not ok([float(x) for x in res.ssp_emline_wave], peer.lines):
            return "line wavelengths differ"
        if not ok(np.asarray(res.ssp_emline_luminosity) / L_SUN, np.array(lum)):
            return "line luminosities differ"
        return None

    def load(self, path):
        try:
            return self.dl.load_ssp_templates(fn=path), None
        except Exception as e:
            return None, simlib.describe_exc(e)

    def judge(self, path, peer, spec, op, prior, new_ok=True):
        """'raises', 'old', 'new', or a description of wrong content."""
        res, exc = self.load(path)
        if res is None:
            return "raises", exc
        if prior is not None and matches("ssp", res, prior) is None:
            return "old", None
        bad = self.is_new(res, peer, spec, op)
        if bad is None:
            return "new", None
        return "wrong", bad

    def execute(self, op, tr, peer):
        exc, code = None, 0
        self.shim.start(op["faults"], data=bool(op["crashes"]))
        try:
            with tr:
                runpy.run_path(SCRIPT, run_name="__main__")
        except Hang:
            raise
        except SystemExit as e:
            code = 0 if e.code is None else 1 if not isinstance(e.code, int) else e.code
        except BaseException as e:
            exc = simlib.describe_exc(e)
        fired, nops, counts = self.shim.stop()
        return dict(exc=exc, code=code, fired=fired, nops=nops, counts=counts, n=tr.n, tfired=tr.fired,
                    pfailed=peer.failed, psteps=peer.steps)

    def in_child(self, fn):
        """Run fn in a forked copy of this process; None if the copy died."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                faulthandler.disable()
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(40)
                os.write(w, json.dumps(fn()).encode())
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        try:
            return json.loads(buf)
        except ValueError:
            return None

    def do(self, op):
        spec = op["spec"]
        rel = op["path"]
        path = os.path.join(self.root, rel)
        prior = op["prior"]
        if prior is not None:
            write_file(path + ".prep", prior)
            os.replace(path + ".prep", path)
            self.model[rel] = prior
        else:
            if os.path.exists(path):
                os.unlink(path)
        peer = fakefsps.Peer(spec)
        self.current.StellarPopulation = fakefsps.make_module(peer).StellarPopulation
        init = crashfs.initial(self.root) if op["crashes"] else {}
        argv = [SCRIPT, rel if op["rel"] else path]
        if op["logz"] is not None:
            argv += ["--gas_logz", repr(op["logz"])]
        if op["logu"] is not None:
            argv += ["--gas_logu=" + repr(op["logu"])]
        old = sys.argv
        sys.argv = argv
        exc, code = None, 0
        tr = simlib.Interrupter.of(op["intr"], EXCS)
        try:
            if op["faults"]:
                r = self.in_child(lambda: self.execute(op, tr, peer))
                if r is None:
                    # libhdf5 itself may die of a write error while closing: that is a crash like any other
                    self.count("probe:process-died-of-write-error")
                    r = dict(exc="process died", code=1, fired=[1] * len(op["faults"]), nops=0, counts=[0] * 14, n=0,
                             tfired=False, pfailed=False, psteps=0)
            else:
                r = self.execute(op, tr, peer)
        finally:
            sys.argv = old
        exc, code, fired, nops, counts = r["exc"], r["code"], r["fired"], r["nops"], r["counts"]
        tr.n, tr.fired, peer.failed, peer.steps = r["n"], r["tfired"], r["pfailed"], r["psteps"]
        log = self.shim.log(data=True) if op["crashes"] else []
        if not tr.fired and exc is None:
            self.nlines, self.nsites = tr.n, tr.nd
            self.nops = max(3, counts[simlib.CLS["WRITE"]])
        failed = exc is not None or code != 0
        faulted = any(f > 0 for f in fired)
        for p, f in zip(op["faults"], fired):
            if f > 0:
                c = "any" if p["cls"] < 0 else simlib.CLASSES[p["cls"]].lower()
                self.count("fault:%s-%s" % (c, {"TORN": "torn", "SHORT": "short"}.get(p["act"], simlib.errname(p.get("arg", 0)))), f)
        if tr.fired:
            self.count("fault:interrupt-" + op["intr"]["exc"])
        if peer.failed:
            self.count("fault:fsps-failure")
        self.count("ops")
        self.count("evaluations")
        self.count("steps", nops + tr.n + peer.steps)
        nameable = spec["lines"] is None or op["names"] is not None
        verdict, why = self.judge(path, peer, spec, op, prior)
        self.event(failed, verdict, nops, fired, tr.n)
        self.sig("run", failed, verdict, spec["lines"] is None, prior is None, [(p["cls"], p["nth"], p["act"], p.get("arg")) for p, f in zip(op["faults"], fired) if f],
                 op["intr"] if tr.fired else None, spec["fail"] if peer.failed else None)
        if len(self.samples) < 2:
            self.samples.append(dict(op={k: v for k, v in op.items() if k not in ("names",)}, failed=exc or code, then_load=verdict))
        if not failed:
            if not nameable:
                self.violate("C08", "unmatched-line-written", "script succeeded with unnameable lines")
            elif verdict != "new":
                self.violate("C08", "success-without-data", "script reported success, then the load gave: %s %s (faults %s)" % (
                    verdict, why, [p for p, f in zip(op["faults"], fired) if f]))
        else:
            if not faulted and not tr.fired and not peer.failed and nameable:
                self.violate("C08", "unexpected-failure", "script failed without a fault: %s %s" % (exc, code))
            if verdict == "wrong" or (verdict == "new" and not nameable):
                self.violate("C08", "partial-file-loads", "script failed (%s), yet the output loads with wrong content: %s" % (exc or code, why))
        if self.mine() or not nameable:
            return
        if op["crashes"]:
            ops = crashfs.ops_of(log)
            final = crashfs.apply(init, ops)
            disk = crashfs.initial(self.root)
            if final != disk:
                raise RuntimeError("crash model disagrees with the disk: %s vs %s" % (sorted((k, len(v)) for k, v in final.items()), sorted((k, len(v)) for k, v in disk.items())))
            for c in op["crashes"]:
                at = int(round(c["at"] * len(ops)))
                if c["kind"] == "kill":
                    state = crashfs.process_crash(init, ops, at, c["torn"])
                else:
                    nd, _ = crashfs.n_dir_ops(ops, at)
                    state = crashfs.power_loss(init, ops, at, int(round(c["meta"] * nd)), random.Random(c["seed"]), c["lose"])
                self.count("evaluations")
                self.count("fault:crash-" + c["kind"])
                shutil.rmtree(self.crash)
                os.makedirs(self.crash)
                q = os.path.join(self.crash, "f.h5")
                v, why = "raises", "absent"
                if path in state:
                    with open(q, "wb") as f:
                        f.write(state[path])
                    v, why = self.judge(q, peer, spec, op, prior)
                self.count("probe:after-crash-" + v)
                self.event("crash", at, v)
                self.sig("crash", c["kind"], at, len(ops), v, c["torn"], prior is None)
                if v == "wrong":
                    self.violate("C08", "crash-state-loads", "%s after %d of %d disk operations (%s): the output loads, but %s" % (
                        c["kind"], at, len(ops), ops[at - 1][0] if at else "start", why))
                    return
                if at == len(ops) and c["kind"] == "kill" and v != "new" and not failed:
                    self.violate("C08", "success-without-data", "complete write does not load as new")
                    return
