"""Seams shared by all worlds: the disk/OS shim, the interrupter, fresh instances of dsps."""

import ctypes
import dis
import errno
import gc
import hashlib
import importlib
import os
import shutil
import subprocess
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "scripts") + os.sep
PKG = os.path.join(REPO, "dsps") + os.sep
SHIM = os.path.join(ROOT, "build", "libsimio.so")

CLASSES = "OPEN READ WRITE TRUNC SYNC CLOSE STAT RENAME UNLINK DIR LOCK MKDIR SEEK LINK".split()
CLS = {n: i for i, n in enumerate(CLASSES)}
ANY = -1
ACT = dict(ERR=1, SHORT=2, RENAME=3, UNLINK=4, TRUNC=5, TORN=6, MODERR=7)


def build_shim(force=False):
    src = os.path.join(HERE, "shim", "simio.c")
    if not force and os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    tmp = SHIM + ".%d.tmp" % os.getpid()
    subprocess.run(
        ["gcc", "-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin", "-fPIC",
         "-shared", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
    os.replace(tmp, SHIM)


def build_mpl():
    """Matplotlib's font cache, built once and copied into each worker's own MPLCONFIGDIR."""
    d = os.path.join(os.path.dirname(SHIM), "mpl")
    if not os.path.isdir(d):
        os.makedirs(os.path.dirname(d), exist_ok=True)
        tmp = "%s.%d.tmp" % (d, os.getpid())
        os.makedirs(tmp, exist_ok=True)
        py = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
        subprocess.run([py, "-c", "import matplotlib.font_manager"], check=True, cwd="/",
                       env=dict(os.environ, MPLCONFIGDIR=tmp, MPLBACKEND="Agg"))
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


class Rec(ctypes.Structure):
    _fields_ = [("seq", ctypes.c_long), ("cls", ctypes.c_int), ("err", ctypes.c_int),
                ("ret", ctypes.c_long), ("ino", ctypes.c_uint64), ("off", ctypes.c_long),
                ("len", ctypes.c_long), ("data", ctypes.c_long), ("flags", ctypes.c_int),
                ("path", ctypes.c_int), ("path2", ctypes.c_int)]


class Shim:
    """ctypes view of the preloaded library."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            lib.sim_version
        except AttributeError:
            raise RuntimeError("simio shim is not preloaded")
        lib.sim_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int,
                                 ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p]
        for n in ("sim_ops", "sim_nrec", "sim_count", "sim_total"):
            getattr(lib, n).restype = ctypes.c_long
        lib.sim_rec.restype = ctypes.POINTER(Rec)
        lib.sim_rec.argtypes = [ctypes.c_long]
        lib.sim_data.restype = ctypes.c_void_p
        lib.sim_paths.restype = ctypes.c_void_p
        lib.sim_dirseed.argtypes = [ctypes.c_uint64]
        lib.sim_add_prefix.argtypes = [ctypes.c_char_p]
        self.lib = lib

    def watch(self, *prefixes):
        self.lib.sim_clear_prefixes()
        for p in prefixes:
            self.lib.sim_add_prefix(os.fsencode(p))

    def dirseed(self, s):
        self.lib.sim_dirseed(s)

    def start(self, plans=(), data=False):
        self.lib.sim_reset()
        for p in plans:
            s1 = os.fsencode(p["s1"]) if p.get("s1") else None
            s2 = os.fsencode(p["s2"]) if p.get("s2") else None
            self.lib.sim_plan(p.get("cls", ANY), p["nth"], p.get("count", 1), ACT[p["act"]],
                              p.get("arg", 0), s1, s2)
        self.nplans = len(plans)
        self.lib.sim_arm(1 if data else 0)

    def stop(self):
        self.lib.sim_disarm()
        fired = [self.lib.sim_fired(i) for i in range(self.nplans)]
        return fired, self.lib.sim_ops(), [self.lib.sim_count(i) for i in range(len(CLASSES))]

    def log(self, data=False):
        out = []
        pp = self.lib.sim_paths()
        dp = self.lib.sim_data()
        for i in range(self.lib.sim_nrec()):
            r = self.lib.sim_rec(i).contents
            d = dict(seq=r.seq, cls=CLASSES[r.cls], err=r.err, ret=r.ret, ino=r.ino, off=r.off,
                     len=r.len, flags=r.flags)
            if r.path >= 0:
                d["path"] = os.fsdecode(ctypes.string_at(pp + r.path))
            if r.path2 >= 0:
                d["path2"] = os.fsdecode(ctypes.string_at(pp + r.path2))
            if data and r.data >= 0:
                d["data"] = ctypes.string_at(dp + r.data, r.len)
            out.append(d)
        return out

    def modifications(self):
        """Operations of the last armed section that changed (or tried to change) the disk."""
        bad = []
        for r in self.log():
            if r["cls"] in ("WRITE", "TRUNC", "RENAME", "UNLINK", "MKDIR", "LINK"):
                bad.append((r["cls"], r.get("path", "")))
            elif r["cls"] == "OPEN" and r["ret"] >= 0 and (r["flags"] & (os.O_CREAT | os.O_TRUNC)):
                bad.append(("OPEN-CREATE", r["path"]))
        return bad


# ---------------------------------------------------------------- fresh dsps instances

def ensure_version():
    """dsps._version is generated at build time and git-ignored; stand in if it is absent."""
    if not os.path.exists(os.path.join(PKG, "_version.py")):
        m = types.ModuleType("dsps._version")
        m.__version__ = "0"
        m.version = "0"
        sys.modules["dsps._version"] = m


def purge():
    for m in [m for m in sys.modules if m == "dsps" or m.startswith("dsps.")]:
        del sys.modules[m]
    ensure_version()


def fresh(*mods):
    """Forget dsps and import it again: a restarted process as far as dsps state goes."""
    purge()
    importlib.invalidate_caches()
    out = [importlib.import_module(m) for m in mods]
    f = sys.modules["dsps"].__file__
    if not f.startswith(PKG):
        raise RuntimeError("dsps was imported from %s, not from %s" % (f, PKG))
    return out


def in_pkg(filename):
    return filename.startswith(PKG) or filename.startswith(SCRIPTS)


_HANDLER = {dis.opmap[n] for n in ("PUSH_EXC_INFO", "WITH_EXCEPT_START") if n in dis.opmap}


def entering_handler(frame):
    """CPython leaks the pending exception (and with it every frame it passed through) if a
    trace function raises on the entry of an exception handler; interrupt one line later."""
    return frame.f_code.co_code[frame.f_lasti] in _HANDLER


class Interrupter:
    """Raises exc at the k-th executed line of dsps code (k None: only counts lines).

    With first, only lines executed for the first time count, so that each line of
    the source is as likely a place as any other, however often loops run."""

    def __init__(self, k=None, exc=KeyboardInterrupt, first=False):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False
        self.first, self.seen = first, set()

    @classmethod
    def of(cls, intr, excs):
        return cls(intr["k"], excs[intr["exc"]], intr.get("first", False)) if intr else cls()

    @property
    def nd(self):
        return len(self.seen)

    def _line(self, frame, event, arg):
        if event == "line":
            site = (frame.f_code.co_filename, frame.f_lineno)
            new = site not in self.seen
            if self.k is not None and not self.fired and ((len(self.seen) >= self.k and new) if self.first else self.n >= self.k) \
                    and not entering_handler(frame):
                self.n += 1
                self.fired = True
                raise self.exc("injected at dsps line %d" % self.k)
            self.n += 1
            self.seen.add(site)
        return self._line

    def _call(self, frame, event, arg):
        if in_pkg(frame.f_code.co_filename):
            return self._line
        return None

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def gen_intr(rng, n, nd, p=0.4):
    """An exception at one of n executed lines, or (with probability p) at one of nd lines of the source."""
    first = rng.random() < p
    it = dict(k=rng.randint(0, max(1, nd if first else n)), exc=rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"]))
    if first:
        it["first"] = True
    return it


def open_handles(root):
    """Paths below root that this process has open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(root):
            out.append(p)
    return sorted(out)


def snapshot(root):
    """{relative path: (kind, size, mtime_ns, inode, mode)} of a directory tree."""
    out = {}
    stack = [root]
    while stack:
        d = stack.pop()
        with os.scandir(d) as it:
            for e in it:
                st = e.stat(follow_symlinks=False)
                isdir = e.is_dir(follow_symlinks=False)
                out[os.path.relpath(e.path, root)] = (
                    "d" if isdir else "f", 0 if isdir else st.st_size, st.st_mtime_ns, st.st_ino, st.st_mode)
                if isdir:
                    stack.append(e.path)
    return out


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


def errname(e):
    return errno.errorcode.get(e, str(e))


def describe_exc(e):
    return "%s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:160])
