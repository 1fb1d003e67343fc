"""Disk world: the data loaders on a simulated, failing, concurrently changing disk (C01-C06)."""

import copy
import errno
import fcntl
import fnmatch
import gc
import os
import pathlib
import shutil
import sys

import h5py
import numpy as np
import simlib
from worlds import World

L_SUN = 3.828e33
SSP_KEYS = ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")
SSP_BN = "ssp_data_fsps_v3.2_lgmet_age.h5"
DIRS = ["d0", "d1", "d[12]x", "d1x", "d*z", "dyz", "d?5", "d55", "sp ace", "d\u00e9", "rel", "~", "$HOME", "d ", "%d", "{d0}",
        "lnk", "deep/t", "deep/u", "u"]
FSTEMS = ["lsst_u", "lsst_r", "lsst_r2", "Lsst_r", "suprimecam_b", "f[1]", "x"]
FPATS = ["lsst_u*", "lsst_r*", "lsst_r_*", "lsst_?_*", "suprimecam_b*", "*", "*.h5", "nothing*", "x*",
         "lsst_[ur]_*", "*_transmission.h5", "lsst_u_transmission.h5", "[!l]*"]
# other files people keep next to a filter curve; a pattern that matches one of them as well is ambiguous
FSUFF = ["_transmission.h5"] * 8 + ["_transmission.hdf5", "_transmission.h5.bak", "_transmission.h5~", "_transmission", ".h5", "_transmission.H5"]
FPRE = [""] * 12 + [".", "._"]
E = errno
OPEN_ERR = [E.EIO, E.EMFILE, E.ENFILE, E.EACCES, E.ENOENT, E.ENOMEM, E.EINTR, E.ESTALE, E.ENXIO]
READ_ERR = [E.EIO, E.EIO, E.EIO, E.EINTR, E.ESTALE, E.ENOMEM, E.EBADF]
STAT_ERR = [E.EIO, E.ENOENT, E.EACCES, E.ESTALE, E.ENOMEM]
LOCK_ERR = [E.EAGAIN, E.EWOULDBLOCK, E.ENOLCK, E.EIO, E.EINTR, E.ENOSYS]
EXCS = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, OSError=OSError)


def sanitise(n):
    for a, b in (("-", "_"), (" ", "_"), (".", "p"), ("[", ""), ("]", "")):
        n = n.replace(a, b)
    return n


# ------------------------------------------------------------------- contents

def content(spec):
    """The values a well-formed data file of this description stores."""
    rs = np.random.RandomState(spec["seed"])
    if spec["kind"] == "ssp":
        dt = spec["dt"]
        nm, na, nw, nl = spec["nm"], spec["na"], spec["nw"], spec["nl"]
        c = {}
        c["ssp_lgmet"] = np.sort(rs.uniform(-4, -1, nm)).astype(dt)
        c["ssp_lg_age_gyr"] = np.sort(rs.uniform(-4, 1.2, na)).astype(dt)
        c["ssp_wave"] = np.sort(rs.uniform(90, 1e5, nw)).astype(dt)
        c["ssp_flux"] = (10 ** rs.uniform(-20, -3, (nm, na, nw))).astype(dt)
        for k in spec.get("shuf", ()):
            c[k] = c[k][rs.permutation(c[k].size)]
        if spec.get("odd"):
            c["ssp_flux"].flat[rs.randint(0, c["ssp_flux"].size)] = {"nan": np.nan, "inf": np.inf, "neg": -1.0}[spec["odd"]]
        if spec.get("zeros"):
            c["ssp_flux"][rs.uniform(size=(nm, na, nw)) < 0.3] = 0
        if nl >= 0:
            letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
            names = []
            rn = np.random.RandomState(spec["nseed"]) if "nseed" in spec else rs
            while len(names) < nl:
                n = "".join(letters[i] for i in rn.randint(0, 26, 2)) + "_%d" % rn.randint(100, 99999)
                if rn.randint(0, 4) == 0:
                    n += "p%d" % rn.randint(0, 99)
                if n not in names:
                    names.append(n)
            c["names"] = names
            c["ssp_emline_wave"] = rs.uniform(900, 1e6, nl).astype(dt)
            c["ssp_emline_luminosity"] = (10 ** rs.uniform(-30 if dt == "f4" else -60, 2, (nm, na, nl))).astype(dt)
        return c
    if spec["kind"] == "filt":
        n = spec["n"]
        w = np.sort(rs.uniform(500, 30000, n)).astype(spec["dt"] if spec["dt"] in ("f8", "f4", ">f8") else "f8")
        if spec.get("wave") == "down":
            w = w[::-1].copy()
        elif spec.get("wave") == "any":
            w = w[rs.permutation(n)]
        elif spec.get("wave") == "twin":
            w[n // 2:] = w[(n - 1) // 2]
        t = rs.uniform(0, 1, n)
        t = (t > 0.5).astype(spec["dt"]) if spec["dt"] in ("i8", "u1") else t.astype(spec["dt"])
        t[rs.uniform(size=n) < 0.3] = 0.0
        for i, v in spec.get("over", []):  # out-of-range values
            if t.dtype.kind in "iu":
                t[int(i) % n] = int(v) if not isinstance(v, str) and 0 <= v <= 100 else 2
                continue
            t[int(i) % n] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}.get(v, v) if isinstance(v, str) else v
        for i, b in spec.get("flips", []):  # damaged bits of the stored transmission
            raw = t.view(np.uint8)
            raw[int(i) % raw.size] ^= 1 << b
        return dict(wave=w, transmission=t)
    if spec["kind"] == "tab":
        rows, seen = [], set()
        el = ["H", "He II", "[O III]", "C IV", "Ly-alpha", "[Ne III]", "Blnd", "Fe-X"]
        rn = np.random.RandomState(spec["nseed"]) if "nseed" in spec else rs
        while len(rows) < spec["n"]:
            name = "%s %s" % (el[rn.randint(0, len(el))], repr(round(rn.uniform(900, 99999), rn.randint(0, 4))))
            if rn.randint(0, 3) == 0:
                name += "A"
            if sanitise(name) in seen:
                continue
            seen.add(sanitise(name))
            rows.append((repr(round(float(rs.uniform(900, 1e6)), int(rs.randint(0, 5)))), name))
        return dict(rows=rows)
    raise ValueError(spec)


def write_file(path, spec):
    c = content(spec)
    if spec["kind"] == "tab":
        with open(path, "w") as f:
            for w, n in c["rows"]:
                f.write("%s,%s%s" % (w, n, spec.get("eol", "\n")))
        return
    kw = dict(libver="latest") if spec.get("latest") else {}
    with h5py.File(path, "w", **kw) as f:
        lay = spec["lay"]

        def put(k, a):
            a = np.asarray(a)
            if lay == "chunk" and a.size > 4:
                f.create_dataset(k, data=a, chunks=tuple(max(1, (s + 1) // 2) for s in a.shape))
            elif lay == "gzip" and a.size > 4:
                f.create_dataset(k, data=a, compression="gzip", shuffle=True, fletcher32=True,
                                 chunks=tuple(max(1, (s + 2) // 3) for s in a.shape))
            else:
                f.create_dataset(k, data=a)

        for i in range(spec.get("extra", 0)):
            f["aux_%d" % i] = np.arange(3.0) + i
        if spec["kind"] == "filt":
            put("wave", c["wave"])
            put("transmission", c["transmission"])
            return
        drop = spec.get("drop")
        for k in SSP_KEYS:
            if k != drop:
                put(k, c[k])
        if spec["nl"] >= 0:
            if drop != "ssp_emline_name":
                if spec.get("vlen"):
                    f.create_dataset("ssp_emline_name", data=c["names"], dtype=h5py.string_dtype())
                else:
                    f.create_dataset("ssp_emline_name", data=np.array(c["names"], dtype="S"))
            for k in ("ssp_emline_wave", "ssp_emline_luminosity"):
                if k != drop:
                    put(k, c[k])
        if spec.get("extra"):
            f.attrs["note"] = "x" * 100


def same_layout(a, b):
    keys = ("kind", "nm", "na", "nw", "nl", "n", "dt", "lay", "latest", "vlen", "extra", "drop")
    return all(a.get(k) == b.get(k) for k in keys) and a["kind"] != "tab"


def overwrite_in_place(path, spec):
    """Rewrite the values inside the existing file (same size, same inode)."""
    c = content(spec)
    with h5py.File(path, "r+") as f:
        for k in list(f.keys()):
            if k == "ssp_emline_name":
                if spec.get("vlen"):
                    f[k][...] = np.array(c["names"], dtype=object)
                else:
                    a = np.array(c["names"], dtype="S")
                    if a.dtype.itemsize > f[k].dtype.itemsize:
                        return False
                    f[k][...] = a
            elif k in c:
                f[k][...] = c[k]
    return True


def valid_filter(c):
    t = c["transmission"].astype("f8")
    if not np.all(np.isfinite(t)) or not np.all(np.isfinite(c["wave"])):
        return False
    if t.min() < -0.01 or t.max() > 1.01:
        return False
    return True


def borderline(c):
    t = c["transmission"].astype("f8")
    t = t[np.isfinite(t)]
    eps = 2e-3 if c["transmission"].dtype.itemsize == 2 else 1e-6
    return bool(np.any(np.abs(t - 1.01) < eps) or np.any(np.abs(t + 0.01) < eps))


def arr_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def arr_close(a, b, rtol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b)))


def matches(api, res, spec):
    """None if res is exactly what a file of this description must load as, else why not."""
    c = content(spec)
    if api == "ssp":
        if spec["kind"] != "ssp":
            return "loaded a %s file as SSP data" % spec["kind"]
        if spec.get("drop"):
            return "loaded although %s is not in the file" % spec["drop"]
        for k in SSP_KEYS:
            if not arr_equal(getattr(res, k), c[k]):
                return "field %s differs" % k
        if spec["nl"] < 0:
            if res.ssp_emline_wave is not None or res.ssp_emline_luminosity is not None:
                return "emission lines appeared"
            return None
        if res.ssp_emline_wave is None or res.ssp_emline_luminosity is None:
            return "emission lines are missing"
        if list(res.ssp_emline_wave._fields) != c["names"]:
            return "line names differ"
        if [float(x) for x in res.ssp_emline_wave] != [float(x) for x in c["ssp_emline_wave"]]:
            return "line wavelengths differ"
        lum = c["ssp_emline_luminosity"]
        if not arr_close(np.asarray(res.ssp_emline_luminosity, dtype="f8") / L_SUN, lum.astype("f8"),
                         1e-12 if lum.dtype == np.float64 else 1e-5):
            return "line luminosities differ"
        return None
    if api == "filt":
        if spec["kind"] != "filt":
            return "loaded a %s file as a filter" % spec["kind"]
        if not valid_filter(c):
            return "invalid curve was accepted"
        if not arr_equal(res.wave, c["wave"]):
            return "wave differs"
        if not arr_equal(res.transmission, np.clip(c["transmission"], 0.0, 1.0)):
            return "transmission differs"
        return None
    if spec["kind"] != "tab":
        return "loaded a %s file as a line table" % spec["kind"]
    want = {sanitise(n): float(w) for w, n in c["rows"]}
    if isinstance(res, tuple):
        res, arr = res
        if not arr_equal(arr, np.array([float(w) for w, n in c["rows"]])):
            return "wavelength array differs"
    if dict(res) != want:
        return "table differs"
    if list(res) != list(want):
        return "table order differs"
    return None


def freeze(res):
    """Deep private copy of a result for later comparison."""
    if res is None:
        return None
    if isinstance(res, dict):
        return ("dict", list(res.items()))
    if hasattr(res, "_fields"):
        return ("nt", tuple(res._fields), tuple(freeze(getattr(res, f)) for f in res._fields))
    if isinstance(res, (tuple, list)):
        return ("seq", tuple(freeze(x) for x in res))
    if isinstance(res, (int, float, str, bytes)):
        return ("v", res)
    a = np.array(res, copy=True)
    return ("a", a)


def frozen_equal(f, res):
    g = freeze(res)

    def eq(a, b):
        if a is None or b is None:
            return a is b
        if a[0] != b[0]:
            return False
        if a[0] == "a":
            return arr_equal(a[1], b[1])
        if a[0] in ("nt",):
            return a[1] == b[1] and all(eq(x, y) for x, y in zip(a[2], b[2]))
        if a[0] == "seq":
            return len(a[1]) == len(b[1]) and all(eq(x, y) for x, y in zip(a[1], b[1]))
        return a[1] == b[1]

    return eq(f, g)


# ------------------------------------------------------------------- the world

WEIGHTS = {
    # put rm mv env chdir load mutate trunc
    "C01": dict(put=3, rm=0.3, mv=0.2, env=0.5, chdir=0.1, load=14, mutate=0.2, trunc=0.8),
    "C02": dict(put=2, rm=0.3, mv=0.1, env=0.3, chdir=0.1, load=12, mutate=0.1, trunc=0.1),
    "C03": dict(put=2.5, rm=0.5, mv=0.3, env=0.4, chdir=0.3, load=14, mutate=0.3, trunc=0.5),
    "C04": dict(put=5, rm=2, mv=1.5, env=2.5, chdir=1.2, load=14, mutate=0.2, trunc=0.1),
    "C05": dict(put=5, rm=0.8, mv=0.8, env=0.5, chdir=0.2, load=10, mutate=5, trunc=0.2),
    "C06": dict(put=8, rm=0.3, mv=0.3, env=0.2, chdir=0.1, load=12, mutate=0.5, trunc=0.2),
}


class IOWorld(World):
    def setup(self):
        self.shim = simlib.Shim()
        self.root = os.path.join(self.scratch, "fs")
        self.home = os.getcwd()
        self.env0 = dict(os.environ)

    # ---------------------------------------------------------------- run control

    def gen_cfg(self, rng):
        p = self.prop
        cfg = dict(
            big=rng.random() < 0.06,
            pf=dict(C01=0.75, C03=0.5).get(p, 0.0) * rng.choice([0, 1, 1]) if p in ("C01", "C03") else 0.4 * (p == "C02" and rng.random() < 0.3),
            pi=dict(C03=0.4, C01=0.12).get(p, 0.0),
            pa=0.8 if p == "C02" else 0.0,
            kinds=rng.choice([["ssp"], ["filt"], ["tab"], ["ssp", "filt", "tab"], ["ssp", "filt", "tab"], ["ssp", "filt"]])
            if p != "C06" else ["filt"],
            ndirs=rng.randint(1, 4), nfiles=rng.randint(1, 3),
            fclasses=rng.choice([["READ"], ["OPEN", "STAT", "READ", "LOCK"], ["READ", "SHORT"], ["ANY"]]),
            multi=rng.random() < 0.25, persist=rng.random() < 0.15,
            dirseed=rng.randint(0, 2 ** 31), others=rng.random() < (0.2 if p == "C04" else 0.5),
        )
        if p == "C04":
            cfg["kinds"] = rng.choice([["ssp", "filt"], ["filt"], ["ssp"]])
            cfg["ndirs"], cfg["nfiles"] = rng.randint(2, 5), rng.randint(2, 5)
        dirs = DIRS[:]
        rng.shuffle(dirs)
        if p == "C04" and rng.random() < 0.5:
            pair = rng.choice([["d[12]x", "d1x"], ["d*z", "dyz"], ["d?5", "d55"]])
            dirs = pair + [d for d in dirs if d not in pair]
        if p == "C04" and rng.random() < 0.15:
            dirs = ["lnk", "deep/u", "u"] + [d for d in dirs if d not in ("lnk", "deep/u", "u")]
            cfg["ndirs"] = max(3, cfg["ndirs"])
        cfg["dirs"] = dirs[: cfg["ndirs"]]
        return cfg

    def n_ops(self, rng, cfg):
        return rng.choice([6, 15, 40, 40]) if self.tier == "quick" else rng.choice([6, 15, 40, 80])

    def begin(self, cfg):
        os.chdir(self.home)
        for k in set(os.environ) - set(self.env0):
            del os.environ[k]
        os.environ.update(self.env0)
        os.environ.pop("DSPS_DRN", None)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        (self.dsps, dl, el, fk) = simlib.fresh(
            "dsps", "dsps.data_loaders", "dsps.data_loaders.load_emline_info",
            "dsps.data_loaders.retrieve_fake_fsps_data")
        self.api = dict(ssp=dl.load_ssp_templates, filt=dl.load_transmission_curve,
                        tab=el.read_emlines_info_fsps)
        self.shim.watch(self.root, os.path.join(simlib.REPO, "dsps"), os.environ["HOME"], os.environ["TMPDIR"])
        self.shim.dirseed(cfg["dirseed"] + 1)
        self.model = {}     # relative path -> spec, or "broken"
        self.cwd = ""       # relative to root
        self.held = []
        self.last_load = None
        self.had_fault = False
        self.mutated = False
        self.opcount = {}
        for d in cfg["dirs"]:
            if d != "lnk":
                os.makedirs(os.path.join(self.root, d, "filters"), exist_ok=True)
        if cfg["others"]:  # files of other programs, some of them left behind by crashed ones
            for d in cfg["dirs"]:
                if d != "lnk":
                    for n in ("old.h5.4242.tmp", "a.h5.lock", ".old.swp", "notes.txt", "filters/old_transmission.h5.77.tmp", "empty.h5", "core.1234"):
                        with open(os.path.join(self.root, d, n), "w") as f:
                            f.write("" if n == "empty.h5" else "something\n" * 20)
        if "lnk" in cfg["dirs"]:  # a link to a directory elsewhere; lnk/.. is not where it seems to be
            os.makedirs(os.path.join(self.root, "deep", "t", "filters"), exist_ok=True)
            os.symlink(os.path.join("deep", "t"), os.path.join(self.root, "lnk"))
        os.chdir(self.root)
        self.stage = 0
        self.tree = simlib.snapshot(self.root)

    def cleanup(self):
        self.shim.lib.sim_disarm()
        sys.settrace(None)
        self.held = []
        os.chdir(self.home)
        shutil.rmtree(self.root, ignore_errors=True)

    # ---------------------------------------------------------------- generation

    def gen_spec(self, rng, kind):
        seed = rng.randint(0, 2 ** 31)
        if kind == "ssp":
            big = self.cfg["big"] and rng.random() < 0.5
            s = dict(kind="ssp", seed=seed, dt=rng.choice(["f8", "f8", "f8", "f4"]), nm=rng.randint(1, 4),
                     na=rng.randint(1, 5), nw=rng.randint(2, 9) if not big else rng.randint(800, 4000),
                     nl=rng.choice([-1, -1, 1, 2, 5, 12, 60]), lay=rng.choice(["contig", "contig", "chunk", "gzip"]))
            if rng.random() < 0.15:
                s["zeros"] = True
            if rng.random() < 0.15:
                s["shuf"] = rng.sample(["ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave"], rng.randint(1, 3))
            if rng.random() < 0.08:
                s["odd"] = rng.choice(["nan", "inf", "neg"])
            if rng.random() < 0.1 and not big:
                s["dt"] = ">f8"
            if s["nl"] > 0 and rng.random() < 0.6:
                s["nseed"] = rng.randint(0, 1)  # several files and versions with the same line names
            if s["nl"] > 0 and rng.random() < 0.3:
                s["vlen"] = True
            if rng.random() < 0.3:
                s["latest"] = True
            if rng.random() < 0.2:
                s["extra"] = rng.choice([1, 3, 12, 40])
            if rng.random() < 0.08:
                s["drop"] = rng.choice(SSP_KEYS + (("ssp_emline_wave", "ssp_emline_luminosity") if s["nl"] > 0 else ()))
            return s
        if kind == "filt":
            s = dict(kind="filt", seed=seed, dt=rng.choice(["f8", "f8", "f8", "f8", "f4", "f4", ">f8", "f2", "i8", "u1"]),
                     n=rng.randint(2, 30) if not self.cfg["big"] else rng.randint(500, 20000),
                     lay=rng.choice(["contig", "contig", "chunk", "gzip"]))
            if rng.random() < 0.3:
                s["latest"] = True
            if rng.random() < 0.15:
                s["extra"] = rng.choice([1, 12])
            if rng.random() < 0.25:
                s["wave"] = rng.choice(["down", "any", "twin"])
            if rng.random() < (0.75 if self.prop == "C06" else 0.2 if self.prop == "C03" else 0.04):
                s["over"], s["flips"] = [], []
                mode = rng.choice(["one", "one", "few", "flip", "flips", "edge", "mild"])
                pick = [-0.02, -1.0, -1e30, 1.02, 1.5, 2.0, 100.0, 1e30, "nan", "inf", "-inf", -0.0101, 1.0101]
                mild = [-0.009, -1e-6, -1e-300, 1.009, 1 + 1e-6, -0.0, 1.0, 0.0]
                if mode == "one":
                    s["over"] = [[rng.randint(0, s["n"] - 1), rng.choice(pick)]]
                elif mode == "few":
                    s["over"] = [[rng.randint(0, s["n"] - 1), rng.choice(pick + mild)] for _ in range(rng.randint(2, 6))]
                elif mode == "mild":
                    s["over"] = [[rng.randint(0, s["n"] - 1), rng.choice(mild)] for _ in range(rng.randint(1, 6))]
                elif mode == "edge":
                    s["over"] = [[0 if rng.random() < 0.5 else s["n"] - 1, rng.choice(pick)]]
                else:
                    s["flips"] = [[rng.randint(0, s["n"] * (8 if s["dt"] == "f8" else 4) - 1), rng.randint(0, 7)]
                                  for _ in range(1 if mode == "flip" else rng.randint(2, 20))]
                if s["over"]:
                    # every value replaced: the whole curve out of range
                    if rng.random() < 0.1:
                        v = rng.choice(pick)
                        s["over"] = [[i, v] for i in range(min(s["n"], 64))]
            return s
        return dict(kind="tab", seed=seed, n=rng.choice([1, 2, 10, 60, 400, 1500]),
                    **({"eol": "\r\n"} if rng.random() < 0.1 else {}),
                    **({"nseed": rng.randint(0, 1)} if rng.random() < 0.5 else {}))

    def gen_path(self, rng, kind):
        d = rng.choice(self.cfg["dirs"])
        nf = self.cfg["nfiles"]
        if kind == "ssp":
            bn = rng.choice([SSP_BN, "a.h5", "b.h5"][: max(1, nf)])
            return os.path.join(d, bn)
        if kind == "filt":
            bn = rng.choice(FSTEMS[: max(1, nf + 1)]) + "_transmission.h5"
            if self.prop == "C04":
                bn = rng.choice(FPRE) + bn[:-len("_transmission.h5")] + rng.choice(FSUFF)
            return os.path.join(d, rng.choice(["filters", "filters", ""]), bn)
        return os.path.join(d, rng.choice(["lines.dat", "l2.dat"][: max(1, nf)]))

    def gen_op(self, rng):
        w = WEIGHTS[self.prop]
        if not self.model and rng.random() < 0.8:
            kind = rng.choice(self.cfg["kinds"])
            return self.gen_put(rng, kind)
        k = rng.choices(list(w), list(w.values()))[0]
        if k == "put":
            return self.gen_put(rng, rng.choice(self.cfg["kinds"]))
        if k in ("rm", "trunc", "mv"):
            if not self.model:
                return self.gen_put(rng, rng.choice(self.cfg["kinds"]))
            p = rng.choice(sorted(self.model))
            if k == "rm":
                return dict(op="rm", path=p)
            if k == "trunc":
                return dict(op="trunc", path=p, frac=round(rng.random(), 3))
            spec = self.model[p]
            kind = spec["kind"] if isinstance(spec, dict) else "filt"
            return dict(op="mv", path=p, to=self.gen_path(rng, kind))
        if k == "env":
            v = rng.choice([None] + self.cfg["dirs"] * 2 + ["missing"])
            rel = rng.random() < 0.15
            return dict(op="env", val=v, rel=rel)
        if k == "chdir":
            return dict(op="chdir", to=rng.choice([""] + self.cfg["dirs"]))
        if k == "mutate":
            return dict(op="mutate", i=rng.randint(0, 11), how=rng.choice(["fill", "first", "scale", "sort", "clear"]))
        return self.gen_load(rng)

    def gen_put(self, rng, kind):
        path = self.gen_path(rng, kind)
        spec = self.gen_spec(rng, kind)
        how = rng.choice(["new", "replace", "replace", "recreate", "inplace"])
        old = self.model.get(path)
        keep = False
        if isinstance(old, dict) and old["kind"] == spec["kind"]:
            r = rng.random()
            if r < 0.55 and kind != "tab":
                # near-miss: same layout and size, other values
                seed = spec["seed"]
                extra = {k: spec[k] for k in ("over", "flips") if k in spec}
                spec = dict({k: v for k, v in old.items() if k not in ("over", "flips")}, seed=seed, **extra)
            keep = rng.random() < 0.5
        op = dict(op="put", path=path, spec=spec, how=how, keep=keep)
        if rng.random() < 0.3:
            op["mtime"] = rng.choice([0, 1.0e9, 1.5e9, 2.2e9, 4.5e9])
        if rng.random() < 0.15:
            op["mode"] = rng.choice([0o444, 0o400, 0o755])
        return op

    def gen_load(self, rng):
        op = self.last_load
        if op is not None and (op["faults"] or op["intr"]) and rng.random() < 0.5:
            # straight after the fault: the same load once more, on a disk that works again
            self.last_load = op = dict(copy.deepcopy(op), faults=[], actors=[], intr=None)
            return op
        self.last_load = self.gen_load1(rng)
        return self.last_load

    def gen_load1(self, rng):
        kind = rng.choice(self.cfg["kinds"])
        have = [p for p in sorted(self.model) if isinstance(self.model[p], dict) and self.model[p]["kind"] == kind]
        target = rng.choice(have) if have and rng.random() < 0.9 else self.gen_path(rng, kind)
        op = dict(op="load", api=kind)
        r = rng.random()
        loc = self.prop == "C04"
        if kind == "tab":
            via = "fn"
        elif loc:
            via = rng.choice(["fn", "drn", "drn", "env", "env", "env", "fn+drn", "none"])
        else:
            via = rng.choice(["fn", "fn", "fn", "drn", "env", "fn+drn"])
        op["via"] = via
        op["path"] = target
        op["rel"] = rng.random() < (0.25 if loc else 0.05)
        if via != "fn":
            d, bn = os.path.split(target)
            if kind == "filt":
                top = d[: -len("filters")].rstrip("/") if d.endswith("filters") else d
                if via == "env":
                    d = top
                op["drn"] = d if rng.random() < 0.9 else rng.choice(self.cfg["dirs"])
                st = bn.rsplit("_", 1)[0]
                op["pat"] = rng.choice([bn, st + "_*", st + "*", bn.replace("[", "[[]")]
                                       + ([rng.choice(FPATS)] if loc else []))
            else:
                op["drn"] = d if rng.random() < 0.9 else rng.choice(self.cfg["dirs"])
                op["bn"] = bn if rng.random() < 0.85 else rng.choice([SSP_BN, "a.h5", "none.h5"])
                op["dflt"] = bn == SSP_BN and rng.random() < 0.6
            if via == "env":
                # most of the time point the variable at the right place first
                op["setenv"] = rng.random() < (0.4 if loc else 0.95)
            op["slash"] = rng.random() < 0.15
            op["obj"] = loc and rng.random() < 0.1
            op["dots"] = loc and rng.random() < 0.6
            op["empty"] = rng.choice(["fn", "drn", "drn", "env"]) if loc and rng.random() < 0.06 else None
        if self.prop == "C03" and rng.random() < 0.04:
            op["api"] = "dummy"
        op["test"] = kind == "tab" and rng.random() < 0.3
        op["faults"], op["actors"], op["intr"] = [], [], None
        key = (op["api"], target)
        hint = self.opcount.get(key) or self.opcount.get(op["api"]) or [28, 20, 40, 30]
        if rng.random() < self.cfg["pf"]:
            for _ in range(rng.randint(2, 4) if self.cfg["multi"] else 1):
                op["faults"].append(self.gen_fault(rng, hint, op["api"]))
        elif rng.random() < self.cfg["pi"]:
            op["intr"] = simlib.gen_intr(rng, max(1, hint[2] - 1), max(1, hint[3] - 1))
        if rng.random() < self.cfg["pa"]:
            for _ in range(1 if rng.random() < 0.7 else rng.randint(2, 3)):
                a = dict(nth=rng.randint(0, max(0, hint[0])))
                if rng.random() < 0.2:
                    a["kind"] = "unlink"
                else:
                    a["kind"] = "rename"
                    old = self.model.get(target)
                    spec = self.gen_spec(rng, kind)
                    spec.pop("drop", None)
                    if isinstance(old, dict) and old["kind"] == spec["kind"] and rng.random() < 0.5:
                        spec = dict(old, seed=spec["seed"])
                    a["spec"] = spec
                op["actors"].append(a)
            op["actors"].sort(key=lambda a: a["nth"])
        return op

    def gen_fault(self, rng, hint, api):
        kind = rng.choice(self.cfg["fclasses"])
        n = max(1, hint[0])
        cnt = -1 if self.cfg["persist"] and rng.random() < 0.5 else rng.choice([1, 1, 1, 2, 3])
        nth = rng.randint(0, n - 1)
        if kind == "ANY":
            e = rng.choice([E.EIO, E.EINTR, E.ENOMEM])
            return dict(cls=simlib.ANY, nth=nth, count=abs(cnt) if e == E.EINTR else cnt, act="ERR", arg=e)
        if kind == "SHORT":
            return dict(cls=simlib.CLS["READ"], nth=rng.randint(0, max(0, hint[1] - 1)), count=cnt, act="SHORT",
                        arg=rng.choice([1, 7, 100, 0]))
        if kind == "READ":
            e = rng.choice(READ_ERR)
            if e == E.EINTR:
                cnt = abs(cnt)   # an endless EINTR is no fault a system produces
            return dict(cls=simlib.CLS["READ"], nth=rng.randint(0, max(0, hint[1] - 1)), count=cnt, act="ERR",
                        arg=e)
        c = simlib.CLS[kind]
        e = rng.choice(dict(OPEN=OPEN_ERR, STAT=STAT_ERR, LOCK=LOCK_ERR)[kind])
        return dict(cls=c, nth=rng.randint(0, 2), count=abs(cnt) if e == E.EINTR else cnt, act="ERR", arg=e)

    # ---------------------------------------------------------------- execution

    def ab(self, rel):
        return os.path.join(self.root, rel)

    def canon(self, rel):
        """The one name of a file in the model: no links on the way."""
        d, b = os.path.split(self.ab(rel))
        return os.path.relpath(os.path.join(os.path.realpath(d), b), os.path.realpath(self.root))

    def do(self, op):
        self.count("ops")
        getattr(self, "do_" + op["op"])(op)

    def do_put(self, op):
        path, spec = self.canon(op["path"]), op["spec"]
        p = self.ab(path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        st = os.stat(p) if os.path.exists(p) else None
        how = op["how"]
        old = self.model.get(path)
        done = False
        if how == "inplace" and st is not None and isinstance(old, dict) and old["kind"] == spec["kind"]:
            if spec["kind"] == "tab":
                write_file(p, spec)
                done = True
            elif same_layout(old, spec):
                done = overwrite_in_place(p, spec)
                self.count("probe:inplace-rewrite", int(done))
        if not done:
            if how == "recreate" and st is not None:
                os.unlink(p)
                write_file(p, spec)
            else:
                self.stage += 1
                tmp = os.path.join(self.scratch, "stage%d" % self.stage)
                write_file(tmp, spec)
                os.replace(tmp, p)
        if op["keep"] and st is not None:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            if os.stat(p).st_size == st.st_size:
                self.count("probe:same-size-and-mtime")
            if os.stat(p).st_ino == st.st_ino:
                self.count("probe:same-inode")
        elif op.get("mtime") is not None:
            os.utime(p, (op["mtime"], op["mtime"]))
        os.chmod(p, op.get("mode", 0o644))
        self.model[path] = spec
        self.event("put", path, spec)

    def do_rm(self, op):
        if op["path"] in self.model:
            os.unlink(self.ab(op["path"]))
            del self.model[op["path"]]

    def do_mv(self, op):
        a, b = op["path"], self.canon(op["to"])
        if a in self.model and a != b:
            os.makedirs(os.path.dirname(self.ab(b)), exist_ok=True)
            os.replace(self.ab(a), self.ab(b))
            self.model[b] = self.model.pop(a)

    def do_trunc(self, op):
        p = op["path"]
        spec = self.model.get(p)
        if isinstance(spec, dict) and spec["kind"] != "tab":
            size = os.path.getsize(self.ab(p))
            n = min(size - 1, int(size * op["frac"]))
            # not in place: results loaded earlier would be another property
            os.truncate(self.ab(p), n)
            self.model[p] = "broken"
            self.count("fault:truncated-file")

    def do_env(self, op):
        if op["val"] is None:
            os.environ.pop("DSPS_DRN", None)
        else:
            os.environ["DSPS_DRN"] = op["val"] if op["rel"] else self.ab(op["val"])

    def do_chdir(self, op):
        os.chdir(self.ab(op["to"]))
        self.cwd = os.path.relpath(os.getcwd(), os.path.realpath(self.root))

    def do_mutate(self, op):
        if not self.held:
            return
        h = self.held[op["i"] % len(self.held)]
        res = h["res"]
        self.event("mutate", op["i"], op["how"])
        if isinstance(res, tuple) and not hasattr(res, "_fields"):
            res = res[0]
        if isinstance(res, dict):
            if op["how"] == "clear":
                res.clear()
            else:
                for k in list(res)[:3]:
                    res[k] = -1.0
                res["injected"] = 1.0
            did = True
        else:
            did = False
            for a in res:
                if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                    did = True
                    if op["how"] == "fill" or op["how"] == "clear":
                        a[...] = -7
                    elif op["how"] == "first":
                        a.flat[0] = 12345
                    elif op["how"] == "scale":
                        a *= 3
                    else:
                        a[...] = a[..., ::-1].copy()
        if did:
            self.mutated = True
            self.count("mutations")
        h["frozen"] = freeze(h["res"])
        self.recheck("mutation of another result")

    def recheck(self, after):
        for h in self.held:
            if not frozen_equal(h["frozen"], h["res"]):
                self.violate("C05", "held-result-changed", "a result loaded from %s changed after %s" % (h["path"], after))
                h["frozen"] = freeze(h["res"])

    # location model ----------------------------------------------------------

    def norm(self, p):
        """Path of a loader argument relative to the root, or None."""
        q = os.path.realpath(os.path.join(self.root, self.cwd, p))
        return os.path.relpath(q, os.path.realpath(self.root))

    def resolve(self, api, kw):
        """(relative path or None, why)"""
        if kw.get("fn") is not None:
            return self.norm(kw["fn"]), "fn"
        drn = kw.get("drn")
        if drn is None:
            drn = os.environ.get("DSPS_DRN")
            if drn is None:
                return None, "DSPS_DRN is unset"
            if api == "filt":
                drn = os.path.join(drn, "filters")
        d = self.norm(drn)
        if api == "ssp":
            return self.canon(os.path.join(d, kw.get("bn", SSP_BN))), "drn/bn"
        if not os.path.isdir(self.ab(d)):
            return None, "no such directory"
        pat = kw["bn_pat"]
        hit = [n for n in sorted(os.listdir(self.ab(d)))
               if fnmatch.fnmatchcase(n, pat) and not (n.startswith(".") and not pat.startswith("."))]
        if len(hit) != 1:
            return None, "%d files match %r" % (len(hit), pat)
        return os.path.normpath(os.path.join(d, hit[0])), "pattern"

    def kwargs(self, op):
        api, via = op["api"], op["via"]
        kw = {}

        def spell(rel):
            if op.get("dots") and rel.startswith("deep/") and os.path.islink(self.ab("lnk")):
                rel = "lnk" + rel[6:] if rel.startswith("deep/t") else "lnk/../" + rel[5:]  # leaves the link's target, not the link
                return os.path.join(os.path.relpath(self.root, self.ab(self.cwd)), rel) if op.get("rel") else self.ab(rel)
            if op.get("rel"):
                return os.path.relpath(self.ab(rel), self.ab(self.cwd))
            return self.ab(rel)

        if via in ("fn", "fn+drn"):
            kw["fn"] = spell(op["path"])
        if via in ("drn", "fn+drn"):
            kw["drn"] = spell(op["drn"]) + ("/" if op.get("slash") else "")
        if via in ("drn", "env", "fn+drn", "none"):
            if api == "filt":
                kw["bn_pat"] = op["pat"]
            elif not op.get("dflt"):
                kw["bn"] = op["bn"]
        if via == "env" and op.get("setenv"):
            os.environ["DSPS_DRN"] = spell(op["drn"])
        e = op.get("empty")  # an empty string is a value like any other: the working directory, or no file
        if e == "fn":
            kw["fn"] = ""
        elif e == "drn" and api != "tab":
            kw["drn"] = ""
        elif e == "env":
            os.environ["DSPS_DRN"] = ""
        if op.get("obj"):
            kw = {k: pathlib.Path(v) if k in ("fn", "drn") and v else v for k, v in kw.items()}
        return kw

    def do_load(self, op):
        api = op["api"]
        if api == "dummy":
            return self.do_dummy(op)
        kw = self.kwargs(op)
        if kw.get("fn") is None and api == "tab":
            return
        path, why = self.resolve(api, kw)
        spec = self.model.get(path) if path is not None else None
        if path is not None and spec is None:
            why = "no file at %s" % path
        if isinstance(spec, dict) and spec["kind"] == "filt" and borderline(content(spec)):
            return
        fn = self.api[api]
        args = ()
        if api == "tab":
            args = (kw.pop("fn"),)
            if op.get("test"):
                kw["testmode"] = True
        # other programs
        versions = [spec]
        plans, acts = [], []
        for f in op["faults"]:
            plans.append(f)
        if op["actors"] and path is not None:
            for a in op["actors"]:
                if a["kind"] == "unlink":
                    plans.append(dict(cls=simlib.ANY, nth=a["nth"], count=1, act="UNLINK", s1=self.ab(path)))
                    acts.append((len(plans) - 1, None))
                else:
                    self.stage += 1
                    tmp = os.path.join(self.scratch, "stage%d" % self.stage)
                    write_file(tmp, a["spec"])
                    plans.append(dict(cls=simlib.ANY, nth=a["nth"], count=1, act="RENAME", s1=tmp, s2=self.ab(path)))
                    acts.append((len(plans) - 1, a["spec"]))
        self.call(op, api, fn, args, kw, path, spec, why, plans, acts, versions)

    def do_dummy(self, op):
        if self.cfg["pf"] == 0 and op["faults"]:
            op = dict(op, faults=[])
        self.call(op, "dummy", lambda: self.api["ssp"](dummy=True), (), {}, None, "dummy", "", op["faults"], [], [])

    def call(self, op, api, fn, args, kw, path, spec, why, plans, acts, versions):
        before = simlib.snapshot(self.root)
        env0, cwd0 = dict(os.environ), os.getcwd()
        res, exc = None, None
        it = op["intr"]
        # reads of a fault that would hit close() of an HDF5 file corrupt libhdf5 itself: see DESIGN
        self.shim.start([p for p in plans])
        lines = 0
        if it:
            tr = simlib.Interrupter.of(it, EXCS)
            try:
                with tr:
                    res = fn(*args, **kw)
            except BaseException as e:
                from worlds import Hang
                if isinstance(e, Hang):
                    raise
                exc = e
            interrupted = tr.fired
        else:
            interrupted = False
            tr = None
            if self.cfg["pi"]:
                tr = simlib.Interrupter(None)
            try:
                if tr:
                    with tr:
                        res = fn(*args, **kw)
                else:
                    res = fn(*args, **kw)
            except BaseException as e:
                from worlds import Hang
                if isinstance(e, Hang):
                    raise
                exc = e
        fired, nops, counts = self.shim.stop()
        mods = self.shim.modifications()
        self.opcount[(api, op.get("path"))] = self.opcount[api] = [
            max(1, nops - counts[simlib.CLS["CLOSE"]]) if api != "tab" else max(1, nops),
            counts[simlib.CLS["READ"]], *((tr.n, tr.nd) if tr and not interrupted else self.opcount.get(api, [0, 0, 40, 30])[2:])]
        self.count("evaluations")
        self.count("steps", nops + (tr.n if tr else 0))
        nf = len(op["faults"])
        faulted = any(f > 0 for f in fired[:nf])
        for p, f in zip(plans[:nf], fired[:nf]):
            if f > 0:
                c = "ANY" if p.get("cls", -1) < 0 else simlib.CLASSES[p["cls"]]
                self.count("fault:%s-%s" % (c.lower(), "short" if p["act"] == "SHORT" else simlib.errname(p["arg"])), f)
        if interrupted:
            self.count("fault:interrupt-%s" % it["exc"])
        # replay the other programs' actions on the model, in the order they happened
        acted = False
        order = sorted((plans[i]["nth"], i, s) for i, s in acts if fired[i] > 0)
        for _, i, s in order:
            acted = True
            self.count("fault:concurrent-%s" % plans[i]["act"].lower())
            versions.append(s)
            if s is None:
                self.model.pop(path, None)
            else:
                self.model[path] = s
        out = "ok" if exc is None else type(exc).__name__
        self.event("load", api, kw.get("bn_pat"), path, out, fired, nops)
        self.sig(api, op["via"], out, spec if isinstance(spec, str) else spec and (spec["kind"], spec.get("lay"), spec.get("nl", 0) > 0,
                 spec.get("latest", 0)), [(p.get("cls"), p["nth"], p["act"], p.get("arg")) for p, f in zip(plans, fired) if f],
                 it and interrupted and (it["k"], it["exc"]), self.had_fault, self.mutated)
        if len(self.samples) < 2 and (faulted or acted or self.prop in ("C04", "C05", "C06")):
            self.samples.append(dict(op={k: v for k, v in op.items()}, outcome=out, faults_fired=fired, syscalls=nops))

        why_exc = simlib.describe_exc(exc) if exc is not None else ""

        # --- C03: nothing left behind
        if exc is not None and not interrupted:
            left = simlib.open_handles(self.root)
            if left and not self.hdf5_leak_ok(plans, fired):
                self.violate("C03", "handle-left-open", "%s raised %s and holds %s" % (api, why_exc, left))
        if exc is not None:
            exc.__traceback__ = None
            e2 = exc
            while e2.__context__ is not None:
                e2.__context__.__traceback__ = None
                e2 = e2.__context__
        exc_was = exc is not None
        exc_type = type(exc)
        del exc
        left = simlib.open_handles(self.root)
        if left:
            gc.collect()
            if not exc_was or not interrupted:
                pass
            left = simlib.open_handles(self.root)
        if left and not self.hdf5_leak_ok(plans, fired):
            self.violate("C03", "handle-left-open", "%s left %s open" % (api, left))
        if mods:
            self.violate("C03", "disk-changed", "%s did %s" % (api, mods[:4]))
        after = simlib.snapshot(self.root)
        if not acted and after != before:
            d = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            self.violate("C03", "disk-changed", "%s changed %s" % (api, d[:5]))
        if dict(os.environ) != env0:
            self.violate(["C03", "C12"], "environment-changed", "%s changed the environment" % api)
            os.environ.clear()
            os.environ.update(env0)
        if os.getcwd() != cwd0:
            self.violate(["C03", "C12"], "cwd-changed", "%s changed the working directory" % api)
            os.chdir(cwd0)
        if self.prop == "C03" and path in self.model and isinstance(self.model[path], dict) \
                and self.model[path]["kind"] != "tab" and not self.hdf5_leak_ok(plans, fired):
            try:
                with open(self.ab(path), "rb") as f:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                if self.at % 3 == 0:  # not always: this alters the time stamps of the file
                    with h5py.File(self.ab(path), "r+"):
                        pass
            except Exception as e:
                self.violate("C03", "file-still-locked", "after %s: %s" % (api, simlib.describe_exc(e)))

        # --- results
        props = []
        if api == "dummy":
            if not exc_was and not faulted and not interrupted:
                if res is None or len(res) != 6 or res.ssp_flux.ndim != 3:
                    self.violate("C03", "bad-dummy", "dummy data malformed")
            elif exc_was and not faulted and not interrupted:
                self.violate(["C03"] if self.had_fault else ["C01", "C03"], "unexpected-exception", why_exc)
            self.had_fault |= faulted or interrupted
            return
        good_spec = isinstance(spec, dict)
        loc = ["C04"] if op["via"] != "fn" or op.get("rel") else []
        if acted:
            # other programs were active: any single version that was there, or an error
            if not exc_was:
                vs = [v for v in versions if isinstance(v, dict)]
                bad = [matches(api, res, v) for v in vs]
                if not vs or all(b is not None for b in bad):
                    self.violate(["C02"] + (["C01"] if faulted else []), "mixed-or-wrong-version", "loaded %s while it was replaced: %s" % (path, bad))
                else:
                    self.count("probe:version-%s" % ("old" if bad[0] is None else "new"))
        elif exc_was:
            intact = good_spec and not spec.get("drop") and spec["kind"] == api and \
                (api != "filt" or valid_filter(content(spec)))
            if intact and not faulted and not interrupted:
                props = ["C01", "C02", "C05"] + loc + (["C03"] if self.had_fault else [])
                if api == "filt":
                    props.append("C06")
                self.violate(props, "unexpected-exception", "loading intact %s (%s) raised %s" % (path, op["via"], why_exc))
            if good_spec and api == "filt" and spec["kind"] == "filt" and not faulted and not interrupted \
                    and not valid_filter(content(spec)) and exc_type is not ValueError \
                    and not issubclass(exc_type, ValueError):
                if not np.all(np.isfinite(content(spec)["wave"])):
                    pass
                else:
                    self.violate("C06", "not-a-ValueError", "invalid curve raised %s" % why_exc)
            if good_spec and spec["kind"] == "filt" and not valid_filter(content(spec)):
                self.count("probe:invalid-rejected")
        else:
            if spec is None:
                other = [p for p, s in self.model.items() if isinstance(s, dict) and matches(api, res, s) is None]
                self.violate(["C04"] + (["C01"] if faulted else []) + (["C05"] if path is not None else []),
                             "no-exception", "load (%s) returned data of %s although %s" % (op["via"], other[:1] or "nothing on disk", why))
            elif spec == "broken":
                self.violate(["C01", "C05"], "truncated-file-accepted", "loaded truncated %s" % path)
            else:
                bad = matches(api, res, spec)
                if bad is not None:
                    props = ["C01"]
                    if not faulted and not interrupted:
                        props += ["C05", "C02"] + loc + (["C03"] if self.had_fault else [])
                        if self.other_match(api, res, path):
                            props.append("C04")
                    if api == "filt" and not faulted and not interrupted:
                        props.append("C06")
                    cls = "missing-lines" if "missing" in bad else "accepted-invalid" if "invalid" in bad else "wrong-data"
                    self.violate(props, cls, "%s (%s): %s%s" % (path, op["via"], bad, " after faults %s" % plans if faulted else ""))
        if api == "filt" and not exc_was:
            t = np.asarray(res.transmission, dtype="f8")
            if t.size and not (np.all(np.isfinite(t)) and t.min() >= 0 and t.max() <= 1):
                self.violate(["C06"] + (["C01"] if faulted else []), "invalid-curve", "returned transmission in [%r, %r]" % (t.min(), t.max()))
        self.had_fault |= faulted or interrupted
        if not exc_was:
            self.held.append(dict(res=res, frozen=freeze(res), path=path))
            if len(self.held) > 12:
                self.held.pop(0)
        if self.prop == "C05" or self.at % 7 == 0:
            self.recheck("a later load")

    def hdf5_leak_ok(self, plans, fired):
        """close() itself was made to fail: libhdf5 keeps its own record of the file."""
        return any(f > 0 and p.get("cls") == simlib.CLS["CLOSE"] for p, f in zip(plans, fired))

    def other_match(self, api, res, path):
        return any(p != path and isinstance(s, dict) and matches(api, res, s) is None for p, s in self.model.items())

    def end(self):
        self.recheck("the end of the run")
