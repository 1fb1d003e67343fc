"""FSPS world: retrieve_ssp_data_from_fsps against a simulated FSPS peer that may fail (C07)."""

import os
import sys

import fakefsps
import numpy as np
import simlib
from worlds import Hang, World
from world_io import EXCS, sanitise

TABLE = os.path.join(simlib.REPO, "dsps", "data", "emlines_info.dat")
OPTS = [dict(), dict(), dict(gas_logz=-0.5), dict(gas_logu=-3.0), dict(gas_logz=0.0, gas_logu=-2.5), dict(imf_type=1),
        dict(imf_type=0, logzsol=0.3), dict(sfh=0, dust1=0.2)]


def table():
    rows = []
    with open(TABLE) as f:
        for line in f:
            a, b = line.strip().split(",")
            rows.append((float(a), sanitise(b)))
    return rows


def gen_lines(rng, rows, bad_ok=True):
    """(wavelengths, names or None if some line cannot be named)"""
    mode = rng.choice(["all", "subset", "subset", "shuffled", "few", "bad" if bad_ok else "few", "dup" if bad_ok else "few"])
    idx = list(range(len(rows)))
    if mode == "shuffled":
        rng.shuffle(idx)
        idx = idx[: rng.randint(3, len(rows))]
    elif mode != "all":
        idx = sorted(rng.sample(idx, rng.randint(1, 12)))
    waves, names = [], []
    for i in idx:
        off = rng.choice([0, 0, 3e-7, -3e-7, 6e-8])
        waves.append(rows[i][0] * (1 + off))
        names.append(rows[i][1])
    if mode == "bad":
        j = rng.randint(0, len(idx) - 1)
        near = [w for w, n in rows]
        while True:
            w = rng.choice([rows[idx[j]][0] * (1 + rng.choice([-1, 1]) * rng.choice([3e-6, 1e-5, 1e-4, 1e-3, 0.1])), rng.uniform(900, 1e6)])
            if all(abs(w - x) > 2.5e-6 * x for x in near):
                break
        waves[j] = w
        names = None
    elif mode == "dup":
        j = rng.randint(0, len(idx) - 1)
        waves.insert(rng.randint(0, len(waves)), waves[j])
        names = None
    return waves, names


class FspsWorld(World):
    def setup(self):
        self.shim = simlib.Shim()
        self.shim.watch(os.path.join(simlib.REPO, "dsps"), os.environ["TMPDIR"], os.getcwd())
        self.rows = table()

    def gen_cfg(self, rng):
        return dict(pf=rng.choice([0, 0.5, 0.8]), pi=rng.choice([0, 0.2]), pio=rng.choice([0, 0, 0.4]),
                    hint=30)

    def n_ops(self, rng, cfg):
        return rng.randint(2, 12)

    def begin(self, cfg):
        # a neutral fsps so that dsps believes python-fsps is installed; every call gets its own peer
        self.current = fakefsps.make_module(fakefsps.Peer(dict(seed=0, nz=1, na=1, nw=2, lines=None)))
        self.current.StellarPopulation = lambda **k: (_ for _ in ()).throw(RuntimeError("no peer"))
        sys.modules["fsps"] = self.current
        (dl,) = simlib.fresh("dsps.data_loaders")
        self.fn = dl.retrieve_ssp_data_from_fsps
        self.last_lines, self.last_sites = 80, 60
        self.held = []
        self.had = False

    def cleanup(self):
        self.shim.lib.sim_disarm()
        sys.settrace(None)
        sys.modules.pop("fsps", None)

    def gen_op(self, rng):
        r = rng.random()
        if r < 0.25:
            lines, names = None, None
        else:
            lines, names = gen_lines(rng, self.rows)
        nz = rng.randint(1, 6)
        spec = dict(seed=rng.randint(0, 2 ** 31), nz=nz, na=rng.randint(1, 6), nw=rng.randint(2, 8), lines=lines, fail=None)
        if rng.random() < self.cfg["pf"]:
            # requests: legend instance 3, then per metallicity 2-4
            spec["fail"] = dict(at=rng.randint(0, 3 + nz * (2 if lines is None else 5)),
                                exc=rng.choice(["RuntimeError", "RuntimeError", "MemoryError", "KeyboardInterrupt",
                                                "OSError", "ValueError", "SystemError"]))
        op = dict(op="retrieve", spec=spec, names=names, opts=rng.choice(OPTS), neb=rng.choice([None, True, False]),
                  intr=None, faults=[], mutate=rng.random() < 0.3)
        if lines is None:
            op["names"] = None
        if rng.random() < self.cfg["pi"]:
            op["intr"] = simlib.gen_intr(rng, self.last_lines, self.last_sites)
        if rng.random() < self.cfg["pio"]:
            import errno as E
            if rng.random() < 0.5:
                op["faults"].append(dict(cls=simlib.CLS["READ"], nth=rng.randint(0, 2), count=1, act="SHORT", arg=rng.choice([1, 100, 1000])))
            else:
                op["faults"].append(dict(cls=simlib.ANY, nth=rng.randint(0, 6), count=1, act="ERR",
                                         arg=rng.choice([E.EIO, E.EINTR, E.EMFILE, E.ENOENT])))
        return op

    def do(self, op):
        spec = op["spec"]
        peer = fakefsps.Peer(spec)
        mod = fakefsps.make_module(peer)
        self.current.StellarPopulation = mod.StellarPopulation
        kw = dict(op["opts"])
        if op["neb"] is not None:
            kw["add_neb_emission"] = op["neb"]
        before = repr(sorted(kw.items()))
        res = exc = None
        tr = simlib.Interrupter.of(op["intr"], EXCS)
        self.shim.start(op["faults"])
        try:
            with tr:
                res = self.fn(**kw)
        except Hang:
            raise
        except BaseException as e:
            exc = simlib.describe_exc(e)
        fired, nops, counts = self.shim.stop()
        mods = self.shim.modifications()
        self.current.StellarPopulation = lambda **k: (_ for _ in ()).throw(RuntimeError("no peer"))
        if not tr.fired:
            self.last_lines, self.last_sites = tr.n, tr.nd
        self.count("ops")
        self.count("evaluations")
        self.count("steps", peer.steps + tr.n + nops)
        faulted = peer.failed or tr.fired or any(f > 0 for f in fired)
        if peer.failed:
            self.count("fault:fsps-%s" % spec["fail"]["exc"])
        if tr.fired:
            self.count("fault:interrupt-%s" % op["intr"]["exc"])
        for p, f in zip(op["faults"], fired):
            if f > 0:
                self.count("fault:table-%s" % ("short" if p["act"] == "SHORT" else simlib.errname(p["arg"])), f)
        out = "ok" if exc is None else exc.split(":")[0]
        self.event(out, peer.steps, nops, fired, tr.n)
        self.sig(out, spec["nz"], spec["na"], spec["lines"] is None, op["names"] is None, spec["fail"], op["opts"],
                 op["neb"], op["intr"] if tr.fired else None, self.had)
        if len(self.samples) < 2:
            self.samples.append(dict(op={k: v for k, v in op.items() if k != "names"}, outcome=out, requests=peer.steps))
        nameable = spec["lines"] is None or op["names"] is not None
        if mods:
            self.violate("C07", "disk-changed", "retrieve changed the disk: %s" % mods[:3])
        if repr(sorted(kw.items())) != before:
            self.violate("C07", "options-changed", "the caller's options were changed")
        if exc is not None:
            if nameable and not faulted:
                self.violate("C07", "unexpected-exception", "%s (earlier faults: %s)" % (exc, self.had))
        else:
            if peer.failed or tr.fired:
                self.violate("C07", "error-swallowed", "returned although FSPS failed or the call was interrupted (%s, %s)" % (spec["fail"], op["intr"]))
            if not nameable:
                self.violate("C07", "unmatched-line-accepted", "returned data with fields %s for wavelengths %s" % (
                    getattr(res.ssp_emline_wave, "_fields", None), spec["lines"][:5]))
            else:
                bad = self.compare(res, peer, spec, op)
                if bad:
                    self.violate("C07", "wrong-data", bad)
            want = dict(op["opts"])
            for q in peer.requests:
                if q.get("zcontinuous") != 0:
                    self.violate("C07", "wrong-request", "request without zcontinuous=0: %s" % q)
                for k, v in want.items():
                    if q.get(k, "absent") != v:
                        self.violate("C07", "wrong-request", "option %s=%r missing from request %s" % (k, v, q))
                        break
            # results of earlier calls must not be affected by this one
            for r, pr, sp, o in self.held:
                bad = self.compare(r, pr, sp, o)
                if bad:
                    self.violate("C07", "held-result-changed", "an earlier result changed: %s" % bad)
            if op["mutate"]:
                for a in (res.ssp_flux, res.ssp_lgmet, res.ssp_lg_age_gyr, res.ssp_wave, res.ssp_emline_luminosity):
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = -1
            elif nameable and not self.mine():
                self.held = (self.held + [(res, peer, spec, op)])[-3:]
        self.had |= faulted

    def compare(self, res, peer, spec, op):
        def close(a, b, what):
            a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
            if a.shape != b.shape:
                return "%s has shape %s, not %s" % (what, a.shape, b.shape)
            if not np.allclose(a, b, rtol=1e-12, atol=0 if "age" not in what else 1e-12):
                return "%s differs from what FSPS reported" % what
            return None

        neb = True if op["neb"] is None else op["neb"]
        flux, lum = [], []
        for z in range(1, spec["nz"] + 1):
            f, l = peer.data(dict(op["opts"], zmet=z, add_neb_emission=neb, zcontinuous=0))
            flux.append(f)
            lum.append(l)
        bad = (close(res.ssp_lgmet, np.log10(peer.zlegend), "ssp_lgmet") or close(res.ssp_lg_age_gyr, peer.log_age - 9, "ssp_lg_age_gyr")
               or close(res.ssp_wave, peer.wave, "ssp_wave") or close(res.ssp_flux, np.array(flux), "ssp_flux"))
        if bad:
            return bad
        if spec["lines"] is None:
            if res.ssp_emline_wave is not None or res.ssp_emline_luminosity is not None:
                return "line fields are not None"
            return None
        if res.ssp_emline_wave is None or res.ssp_emline_luminosity is None:
            return "line fields are None"
        if list(res.ssp_emline_wave._fields) != op["names"]:
            return "lines misnamed: %s, not %s" % (list(res.ssp_emline_wave._fields)[:6], op["names"][:6])
        return close(np.array([float(x) for x in res.ssp_emline_wave]), peer.lines, "ssp_emline_wave") or \
            close(res.ssp_emline_luminosity, np.array(lum), "ssp_emline_luminosity")
