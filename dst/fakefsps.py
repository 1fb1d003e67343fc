"""A simulated FSPS: the stateful Fortran peer behind python-fsps, with a ledger and failure points."""

import hashlib
import types

import numpy as np

DEFAULTS = dict(gas_logz=0.0, gas_logu=-2.0, add_neb_emission=False, zmet=1, zcontinuous=0, sfh=0, imf_type=2,
                dust1=0.0, logzsol=0.0)


def _key(params):
    p = dict(DEFAULTS)
    p.update(params)
    return repr(sorted((k, v) for k, v in p.items() if k != "compute_vega_mags"))


class Peer:
    """What the installed FSPS computes.  spec: dict(seed, nz, na, nw, lines=[wave,...] or None, fail=None|dict)."""

    def __init__(self, spec):
        self.spec = spec
        rs = np.random.RandomState(spec["seed"])
        self.zlegend = np.sort(10 ** rs.uniform(-4, -1.3, spec["nz"]))
        self.log_age = np.linspace(5.5, 10.15, spec["na"])
        self.wave = np.sort(rs.uniform(91, 1e6, spec["nw"]))
        self.lines = None if spec["lines"] is None else np.array(spec["lines"], dtype="f8")
        self.requests = []      # constructor arguments, in order
        self.steps = 0
        self.fail = spec.get("fail")
        self.failed = False

    def data(self, params):
        h = int.from_bytes(hashlib.sha256((repr(self.spec["seed"]) + _key(params)).encode()).digest()[:4], "big")
        rs = np.random.RandomState(h)
        flux = 10 ** rs.uniform(-20, -10, (self.spec["na"], self.spec["nw"]))
        lum = None
        if self.lines is not None:
            lum = 10 ** rs.uniform(-30, 0, (self.spec["na"], len(self.lines)))
        return flux, lum

    def step(self, what):
        """One request to FSPS, which may fail here."""
        n = self.steps
        self.steps += 1
        if self.fail and self.fail["at"] == n:
            self.failed = True
            exc = dict(RuntimeError=RuntimeError, MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
                       OSError=OSError, ValueError=ValueError, SystemError=SystemError)[self.fail["exc"]]
            raise exc("simulated FSPS failure in %s (request %d)" % (what, n))


def make_module(peer):
    """A module object to stand for python-fsps."""

    class Params(dict):
        pass

    class Base:
        def __init__(self, compute_vega_mags=False, vactoair_flag=False, zcontinuous=0, add_neb_emission=None, **kw):
            kw["zcontinuous"] = zcontinuous
            if add_neb_emission is not None:
                kw["add_neb_emission"] = add_neb_emission
            peer.requests.append(dict(kw))
            peer.step("StellarPopulation()")
            self.params = Params(DEFAULTS)
            self.params.update(kw)

        @property
        def zlegend(self):
            peer.step("zlegend")
            return peer.zlegend.copy()

        @property
        def log_age(self):
            peer.step("log_age")
            return peer.log_age.copy()

        ssp_ages = log_age

        @property
        def wavelengths(self):
            return peer.wave.copy()

        def get_spectrum(self, zmet=None, tage=0.0, peraa=False):
            peer.step("get_spectrum")
            if zmet is not None:
                self.params["zmet"] = zmet
            return peer.wave.copy(), peer.data(self.params)[0]

    class WithLines(Base):
        @property
        def emline_wavelengths(self):
            peer.step("emline_wavelengths")
            return peer.lines.copy()

        @property
        def emline_luminosity(self):
            peer.step("emline_luminosity")
            return peer.data(self.params)[1]

    m = types.ModuleType("fsps")
    m.__version__ = "0.4.7"
    m.StellarPopulation = WithLines if peer.lines is not None else Base
    m.StellarPopulation.__name__ = "StellarPopulation"
    return m
