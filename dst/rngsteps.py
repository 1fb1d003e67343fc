"""Steps of the random-number world, run by the world under test and by the reference processes alike.

As a program: a reference process.  It reads pickled requests and answers each one from a pristine dsps."""

import hashlib
import os
import pickle
import random
import struct
import sys

import numpy as np

FAKE, RTC = "data_loaders.retrieve_fake_fsps_data", "data_loaders.load_filter_data"


def seed_state(s):
    """A seed is a number, or the number of a poor but legal generator state that repeats itself for long stretches."""
    if s["poor"] is None:
        random.seed(s["py"])
        np.random.seed(s["np"])
    else:
        k = s["poor"]
        w = [0] * 624
        w[k % 623 + 1] = 1 + s["py"] % 1000
        w[0] = 0x80000000
        random.setstate((3, tuple(w) + (624,), None))
        np.random.seed(s["np"])


def make_key(jax, k):
    r = jax.random
    if k["how"] == "raw":
        return jax.numpy.array(k["w"], dtype="uint32")
    if k["how"] == "prng":
        return r.PRNGKey(k["w"][1])
    if k["how"] == "typed":
        return r.key(k["w"][1])
    if k["how"] == "wrap":
        return r.wrap_key_data(jax.numpy.array(k["w"], dtype="uint32"))
    if k["how"] == "fold":
        return r.fold_in(r.PRNGKey(k["w"][0]), k["w"][1])
    return r.split(r.key(k["w"][0]), 3)[k["w"][1] % 3]


def key_words(jax, key):
    return np.array(jax.random.key_data(key) if jax.dtypes.issubdtype(key.dtype, jax.dtypes.prng_key) else key).tolist()


def keyed(jax, I, s):
    """(function, arguments, keywords, key) of a keyed call."""
    key = make_key(jax, s["key"])
    rs = np.random.RandomState(77 + s["a"])
    if s["fn"] == "powerlaw":
        n = [5, 6, 40][s["a"] % 3]
        a, b, g = rs.uniform(0.5, 1, n), rs.uniform(2, 5, n), rs.uniform(0.5, 3, n)
        if s["a"] % 4 == 3:
            a = a * (1 + 1e-6)
        return I["utils"].powerlaw_rvs, (key, a, b, g), {}, key
    if s["fn"] == "t0":
        f = I["metallicity.umzr"].get_ran_t0_params
        if s["a"] % 3 == 0:
            return f, (key,), {}, key
        d = {k: (v[0] + 0.01 * s["a"], v[1] + 0.02 * s["a"]) for k, v in I["metallicity.umzr"].MZR_T0_PBDICT.items()}
        return f, (key,), dict(bounds_pdict=d), key
    kw = [dict(), dict(wave_range=(3000, 9000)), dict(scale=200), dict(wave_range=(2000, 8000), scale=100)][s["a"] % 4]
    return I[RTC].load_random_transmission_curve, (key,), kw, key


def call_keyed(jax, f, a, kw, mode):
    import world_hist
    if mode == "jit" and f.__name__ != "load_random_transmission_curve":
        r = jax.jit(lambda *x: f(*x, **kw))(*a)
    elif mode == "vmap" and f.__name__ != "load_random_transmission_curve":
        r = jax.vmap(lambda k: f(k, *a[1:], **kw))(jax.numpy.stack([a[0], a[0]]))
        r = jax.tree_util.tree_map(lambda x: x[0], r)
    elif mode == "pos" and not kw:
        r = f(*a)
    else:
        r = f(*a, **kw)
    return reduced(world_hist.canon(jax.block_until_ready(r)))


def unkeyed(jax, I, s):
    import world_hist
    if s["k"] == "fake":
        m = I["data_loaders"] if s.get("via") and hasattr(I["data_loaders"], "load_fake_ssp_data") else I[FAKE]
        r = m.load_fake_ssp_data(n_line=s["n"]) if s["n"] is not None else m.load_fake_ssp_data()
        return r, reduced(world_hist.canon(r))
    kw = [dict(), dict(wave_range=(3000, 9000)), dict(ran_key=None, scale=200), dict(tcurve_center=5000.0)][s["a"] % 4]
    r = (I["data_loaders"] if s.get("via") else I[RTC]).load_random_transmission_curve(**kw)
    return r, reduced(world_hist.canon(r))


def draw(s):
    if s["g"] == "py":
        return [random.random(), random.getrandbits(32)]
    return [float(np.random.uniform()), int(np.random.randint(1 << 30))]


def reduced(c):
    """Large arrays as digests."""
    if c[0] == "a":
        if c[2].size > 20000:
            return ("a", c[1], np.frombuffer(hashlib.sha1(np.ascontiguousarray(c[2]).tobytes()).digest()[:8], "u4").astype("i8"))
        return c
    if c[0] == "v":
        return c
    return c[:-1] + ([reduced(v) for v in c[-1]],)


def state():
    n = np.random.get_state()
    return hashlib.sha1(repr(random.getstate()).encode() + n[1].tobytes() + repr(n[2:]).encode()).hexdigest()[:16]


def halves():
    n = np.random.get_state()
    return (hashlib.sha1(repr(random.getstate()).encode()).hexdigest()[:16],
            hashlib.sha1(n[1].tobytes() + repr(n[2:]).encode()).hexdigest()[:16])


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    import kernels
    import simlib
    import world_hist
    jax = world_hist.jax_setup(sys.argv[1])
    while True:
        h = sys.stdin.buffer.read(4)
        if len(h) < 4:
            return
        steps = pickle.loads(sys.stdin.buffer.read(struct.unpack("<I", h)[0]))
        simlib.purge()
        I = kernels.Inst()
        res = []
        for s in steps:
            try:
                if s["k"] == "seed":
                    seed_state(s)
                    r = None
                elif s["k"] == "draw":
                    r = draw(s)
                elif s["k"] == "keyed":
                    f, a, kw, key = keyed(jax, I, s)
                    r = call_keyed(jax, f, a, kw, "pos")
                else:
                    r = unkeyed(jax, I, s)[1]
                res.append(("ok", r))
            except Exception as e:
                res.append(("exc", simlib.describe_exc(e)))
        b = pickle.dumps(res)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
