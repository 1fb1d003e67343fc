"""Base class of the simulated worlds and the list of them."""

import hashlib
import importlib
import json
import os
import random
import signal
import time


class Hang(BaseException):
    pass


class World:
    """One kind of run.  A run is a configuration plus a list of explicit operations; every
    operation carries all its own choices, so cfg and ops alone replay the run."""

    OP_SECONDS = 100  # only a call that makes no progress at all comes near this

    def __init__(self, env):
        self.env = env
        self.prop = env["prop"]
        self.tier = env["tier"]
        self.scratch = env["scratch"]
        self.progress = None
        self.setup()

    # -- to be overridden
    def setup(self):
        pass

    def gen_cfg(self, rng):
        return {}

    def n_ops(self, rng, cfg):
        return 40

    def begin(self, cfg):
        pass

    def gen_op(self, rng):
        raise NotImplementedError

    def do(self, op):
        raise NotImplementedError

    def end(self):
        pass

    def cleanup(self):
        pass

    # -- helpers for subclasses
    def violate(self, props, cls, detail):
        if isinstance(props, str):
            props = [props]
        self.viol.append(dict(props=sorted(set(props)), cls=cls, detail=str(detail)[:600], at=self.at))

    def event(self, *a):
        self._digest.update(repr(a).encode())

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def sig(self, *a):
        self.sigs.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])

    # -- runner
    def _reset(self, cfg):
        self.cfg = cfg
        self.viol, self.stats, self.sigs, self.at = [], {}, set(), -1
        self._digest = hashlib.sha1()
        self.samples = []

    def _alarm(self, *a):
        raise Hang("operation made no progress for %d s" % self.OP_SECONDS)

    def _exec(self, op):
        signal.signal(signal.SIGALRM, self._alarm)
        signal.alarm(self.OP_SECONDS)
        try:
            self.do(op)
        except Hang as e:
            import sys
            sys.settrace(None)
            self.hang(op, e)
        finally:
            signal.alarm(0)

    def hang(self, op, e):
        self.violate([self.prop], "hang", "%s in %s" % (e, json.dumps(op)[:300]))

    def mine(self):
        return [v for v in self.viol if self.prop in v["props"]]

    def _drive(self, cfg, source):
        self._reset(cfg)
        ops = []
        t0 = time.perf_counter()
        if self.progress is not None:
            os.ftruncate(self.progress, 0)
            os.lseek(self.progress, 0, os.SEEK_SET)
            os.write(self.progress, (json.dumps(dict(cfg=cfg)) + "\n").encode())
        self.begin(cfg)
        try:
            for op in source:
                self.at = len(ops)
                ops.append(op)
                if self.progress is not None:
                    os.write(self.progress, (json.dumps(op) + "\n").encode())
                self._exec(op)
                if self.mine():
                    break
            else:
                self.at = len(ops)
                self.end()
        finally:
            self.cleanup()
        return dict(cfg=cfg, ops=ops, viol=self.viol, stats=self.stats, sigs=sorted(self.sigs),
                    samples=self.samples, digest=self._digest.hexdigest()[:16],
                    wall=time.perf_counter() - t0)

    def run(self, seed):
        rng = random.Random(seed)
        cfg = self.gen_cfg(rng)
        n = self.n_ops(rng, cfg)

        def source():
            for _ in range(n):
                yield self.gen_op(rng)

        r = self._drive(cfg, source())
        r["seed"] = seed
        return r

    def replay(self, cfg, ops):
        return self._drive(cfg, iter(ops))


REGISTRY = {
    "io": ("world_io", "IOWorld"),
    "fsps": ("world_fsps", "FspsWorld"),
    "writer": ("world_writer", "WriterWorld"),
    "plot": ("world_plot", "PlotWorld"),
    "hist": ("world_hist", "HistWorld"),
    "threads": ("world_threads", "ThreadWorld"),
    "rng": ("world_rng", "RngWorld"),
    "imports": ("world_imports", "ImportWorld"),
}


def load(name):
    mod, cls = REGISTRY[name]
    return getattr(importlib.import_module(mod), cls)
