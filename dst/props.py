"""What each check runs, and how its evidence is described."""

COMMON_REAL = ["dsps", "CPython", "NumPy", "libhdf5 2.0 / h5py", "JAX/XLA"]
IO = dict(
    world="io",
    measure="distinct (function, way of locating, file layout, faults and positions that fired, outcome, prior "
            "faults/mutations) tuples",
    real=COMMON_REAL + ["Linux file system (tmpfs/overlay) below the shim"],
    stub=["operating-system faults and other programs' renames/unlinks (dst/shim/simio.c)"],
    assumptions=["close() of an HDF5 file never fails (libhdf5 itself does not survive that)",
                 "data files are well formed apart from the injected damage"],
)


def io(rule, **kw):
    d = dict(IO, rule=rule, technique="real HDF5/text loaders on a simulated failing disk, seeded faults and histories, "
             "executable model of the directory", note="Sampled search: every seeded run held. Trusts the fault model of "
             "the system-call shim and the file model in dst/world_io.py; faults strike at system calls and at lines of "
             "dsps code, not inside libhdf5.")
    d["quick"] = dict(runs=900, seconds=70, min_runs=40)
    d["thorough"] = dict(runs=40000, seconds=700, min_runs=200)
    d.update(kw)
    return d


PROPS = {
    "C01": io("A case is one load call in a generated history; non-trivial cases are distinct by function, file "
              "layout, the fault kinds and positions that fired, and the outcome."),
    "C02": io("A case is one load call; other programs rename a new version over, or unlink, the file before the "
              "n-th system call of the load; distinct by function, layout, position, kind and outcome."),
    "C03": io("A case is one load call, possibly with system-call faults or an exception at the k-th line, followed "
              "by handle, lock, disk, cwd and environment checks; distinct by fault, position, outcome, history flag."),
    "C04": io("A case is one load call after a history of environment, directory and file changes; distinct by "
              "function, way of locating, file kind and outcome."),
    "C05": io("A case is one load call in a history of rewrites (same size, inode, mtime), removals and in-place "
              "mutations of results; distinct by function, layout, outcome and mutation flag."),
    "C06": io("A case is one load of a filter file with damaged or out-of-range values; distinct by layout, "
              "outcome and way of locating."),
}

PROPS["C07"] = dict(
    world="fsps", technique="real retrieval code against a simulated, failing FSPS peer with a ledger",
    note="Sampled search over peers, options, failing requests and interruption points. Trusts that the simulated peer "
         "behaves like python-fsps on the interface dsps uses.",
    rule="A case is one retrieval call; distinct by grid size, line list kind, options, failing request, interruption "
         "and outcome.",
    measure="distinct (grid, lines, options, failing request, interruption point, outcome) tuples",
    real=["dsps", "NumPy", "CPython", "bundled line table on the real file system below the shim"],
    stub=["python-fsps / FSPS (dst/fakefsps.py)"],
    assumptions=["FSPS reports failures as exceptions other than AttributeError",
                 "wavelengths within 3e-7 (relative) are the same line; beyond 2.5e-6 they are different"],
    quick=dict(runs=1500, seconds=50, min_runs=40), thorough=dict(runs=60000, seconds=700, min_runs=200),
)

PROPS["C08"] = dict(
    world="writer", technique="real writer script on a simulated disk; write faults, interruptions, kill and power-loss "
    "states rebuilt from the system-call log and loaded with the real loader",
    note="Sampled search over write faults, interruption lines, crash points and lost-write subsets. Trusts the crash model "
         "(directory operations survive as a prefix, unsynced writes as any subset) and the simulated FSPS peer.",
    rule="A case is one script execution or one crash state loaded afterwards; distinct by crash kind and point, number of "
         "disk operations, fault kind and position, prior content and outcome of the load.",
    measure="distinct (crash kind, crash point, operations, fault, outcome) tuples",
    real=["scripts/write_fsps_data_to_disk.py", "dsps loaders", "libhdf5/h5py", "CPython"],
    stub=["python-fsps / FSPS (dst/fakefsps.py)", "disk faults and crash states (dst/shim/simio.c, dst/crashfs.py)"],
    assumptions=["the disk keeps what fsync acknowledged", "directory operations become durable in order"],
    quick=dict(runs=1200, seconds=60, min_runs=40), thorough=dict(runs=50000, seconds=700, min_runs=200),
)

PROPS["C09"] = dict(
    world="plot", mpl=True, technique="real plotting helper, matplotlib and Pillow on a simulated failing disk among other open figures",
    note="Sampled search over system-call faults, interruption lines and call histories.",
    rule="A case is one plot call in a history with other figures and rcParams changes; distinct by output kind, parameters, "
         "fault and position, interruption, outcome and history flag.",
    measure="distinct (output kind, parameters, faults that fired, interruption, outcome, other figures) tuples",
    real=["dsps", "matplotlib (Agg, pdf, svg)", "Pillow", "NumPy", "JAX/XLA", "CPython"],
    stub=["disk faults (dst/shim/simio.c)"],
    assumptions=["matplotlib's own fonts and style files are readable",
                 "JPEG output is left out: Pillow itself ignores short writes there"],
    quick=dict(runs=400, seconds=75, min_runs=16), thorough=dict(runs=20000, seconds=700, min_runs=50),
)

HIST = dict(
    world="hist", real=COMMON_REAL,
    measure="distinct (previous call and outcome, function, context, argument container, base values, near-miss changes, outcome, preceding eviction) tuples",
    assumptions=["results may differ by rounding (1e-9 relative, 2e-4 for single precision inputs) between a compiled pristine reference and the call",
                 "a restarted process is represented by a freshly imported dsps in the same interpreter"],
    quick=dict(runs=900, seconds=60, min_runs=16), thorough=dict(runs=60000, seconds=700, min_runs=100),
)
PROPS["C10"] = dict(
    HIST, technique="real numerical kernels under seeded call histories with interruptions, evictions, in-place argument changes; "
    "each call compared with the same call in a pristine instance",
    note="Sampled search over histories. The reference is the same code without history, so it judges history dependence only, not "
         "the value itself.",
    rule="A case is one call in a history; distinct by the call before it, function, calling context, container, base values, near-miss "
         "changes of the arguments, and outcome.",
    stub=["interruptions and evictions (dst/simlib.py, dst/world_hist.py)"],
)
PROPS["C12"] = dict(
    HIST, technique="real functions and loaders under seeded call histories with interruptions and failing calls; deep fingerprints of "
    "arguments and process state around each call",
    note="Sampled search over histories. Functions that draw unkeyed random numbers may advance the global generators.",
    rule="A case is one call in a history, with a fingerprint of its arguments, dsps's public constants, random generators, environment, "
         "directory, NumPy error state and JAX configuration before and after; distinct by call, context, outcome and interruption.",
    stub=["interruptions (dst/simlib.py)", "python-fsps / FSPS (dst/fakefsps.py)"],
)
PROPS["C11"] = dict(
    world="threads", technique="real functions and loaders in several real threads under a seeded baton scheduler that switches at "
    "lines or instructions of dsps code; each result compared with the call alone in a pristine instance",
    note="Sampled search over interleavings. Threads are switched at lines (or instructions) of dsps code and at call boundaries, not "
         "inside JAX, NumPy or HDF5.",
    rule="A case is one call made in some interleaving; distinct cases are distinct (calls of all threads, sequence of baton moves).",
    measure="distinct (calls of all threads, exact sequence of (step, thread) baton moves) tuples",
    real=COMMON_REAL, stub=["choice of the running thread (dst/sched.py)", "interruptions"],
    assumptions=["JAX, NumPy and h5py are themselves safe to call from several threads",
                 "in most runs JAX runs in its eager mode (jax_disable_jit) so that dsps's own lines execute on every call"],
    quick=dict(runs=1500, seconds=60, min_runs=24), thorough=dict(runs=100000, seconds=700, min_runs=100),
)

RNG = dict(
    world="rng", real=COMMON_REAL,
    measure="distinct (preceding step, function, mode, arguments, key words) and distinct sequences of unkeyed steps with their seed",
    assumptions=["jax.random itself is a function of its key", "two different keys give different draws up to a negligible chance"],
    quick=dict(runs=3000, seconds=60, min_runs=24), thorough=dict(runs=100000, seconds=700, min_runs=100),
)
PROPS["C13"] = dict(
    RNG, technique="keyed draws under seeded histories of reseedings, draws, interruptions, threads and re-imports; each compared with a "
    "reference process that has another hash seed and no history; global generator state compared around each call",
    note="Sampled search over histories, keys and interleavings.",
    rule="A case is one keyed call in a history; distinct by preceding step, function, calling mode, arguments and key.",
    stub=["choice of the running thread (dst/sched.py)", "interruptions", "global generator states"],
)
PROPS["C14"] = dict(
    RNG, technique="unkeyed draws under seeded histories of reseedings (also to degenerate generator states), interruptions and keyed calls; "
    "each seeded segment compared with a reference process that has another hash seed",
    note="Sampled search over generator states, line counts and histories.",
    rule="A case is one unkeyed draw in a seeded segment; distinct by seed and sequence of steps of the segment.",
    stub=["choice of the running thread (dst/sched.py)", "interruptions", "global generator states"],
)

IMPORTS = dict(
    world="imports", mpl=True, real=COMMON_REAL,
    measure="distinct (module, form of import, fault and its position, precision preset, optional packages, modules loaded before) and thread schedules",
    assumptions=["a new process is represented by forgetting all dsps modules and resetting JAX's precision switch",
                 "JAX, NumPy and h5py are already imported and sound"],
    stub=["python-fsps and the absence of optional packages (an import hook at the head of sys.meta_path)", "interruptions", "disk faults (dst/shim/simio.c)",
          "choice of the running thread (dst/sched.py)"],
    quick=dict(runs=2000, seconds=60, min_runs=24), thorough=dict(runs=60000, seconds=700, min_runs=100),
)
PROPS["C15"] = dict(
    IMPORTS, technique="real imports in seeded orders, forms and thread interleavings with interruptions and read errors followed by retries; names, "
    "values and global state compared with a plain import",
    note="Sampled search over orders, interruption points and configurations.",
    rule="A case is one import attempt; distinct by module, form, fault and its position, configuration and modules loaded before.",
)
PROPS["C16"] = dict(
    IMPORTS, technique="real imports under every simulated state of fsps and matplotlib (present, absent, failing, interrupted half-way) in seeded orders "
    "with faults and retries; then calls of the dependent and of other functions",
    note="Sampled search over configurations and orders.",
    rule="A case is one import attempt or dependent call; distinct by module, form, fault, and state of the optional packages.",
)
