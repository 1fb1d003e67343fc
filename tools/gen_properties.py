"""Writes /verif/properties.jsonl (the text lives here so it can be reviewed as code)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

LD = "dsps/data_loaders/"
prop("C01", "Data loads are exact or fail under I/O faults",
 "Whatever I/O errors, short reads, interrupted system calls, failed allocations, interruptions or truncated HDF5 files a load meets, load_ssp_templates, load_transmission_curve and the emission-line table reader (read_emlines_info_fsps) either raise or return exactly what the file stores, with every field complete and line luminosities converted from Lsun to erg/s. "
 "A read fault never turns into missing emission lines, a shortened, zero-filled or substituted array, or dummy data. "
 "When no fault occurs, an intact file always loads exactly.",
 ["fault_sequences", "inputs"], "every position of every read-side system-call fault in every load of every well-formed data file (any layout, with or without emission lines)",
 "The tests never load a real data file here (they are skipped without DSPS_DRN) and never meet an I/O fault; they cannot reach an error at the n-th system call of a load.",
 [LD+"load_ssp_data.py", LD+"load_filter_data.py", LD+"load_emline_info.py"],
 [("reads every dataset inside one open file, no error swallowing", LD+"load_ssp_data.py:load_ssp_templates"), ("reads wave and transmission inside one open file", LD+"load_filter_data.py:load_transmission_curve")],
 observe=["value or exception of each load"])
prop("C02", "A load racing a file replacement returns one whole version",
 "If another process atomically replaces, or removes, a data file at any instant while load_ssp_templates, load_transmission_curve or read_emlines_info_fsps is reading it, the load returns the complete content of a single version that was at that path during the call, or raises. "
 "It never mixes fields or rows of two versions.",
 ["schedules"], "every instant (between any two system calls of the load) at which the replacement or removal may land",
 "Needs a second actor acting between two system calls of a load; tests have one actor and no control of timing.",
 [LD+"load_ssp_data.py", LD+"load_filter_data.py", LD+"load_emline_info.py"],
 [("one open handle per load", LD+"load_ssp_data.py:load_ssp_templates"), ("one open handle per load", LD+"load_filter_data.py:load_transmission_curve")],
 observe=["value or exception of each load"])
prop("C03", "Loads leave nothing behind and recover once faults stop",
 "Whether a load (SSP templates, filter curve, emission-line table, dummy data) returns, raises or is interrupted at any point, it afterwards holds no open handle or lock on any data file, so that another program can rewrite the file at once. "
 "It creates, changes and removes no file or directory, and changes neither the working directory nor the environment. "
 "Once faults stop, the very next load of an intact file succeeds with the exact content.",
 ["fault_sequences", "crash_points", "histories"], "every sequence of loads in which each load may meet a system-call fault, or an exception raised at any line of the loader",
 "Leaks and stuck state only appear after a load that failed half way; the tests exercise no failing load.",
 [LD+"load_ssp_data.py", LD+"load_filter_data.py", LD+"load_emline_info.py", LD+"retrieve_fake_fsps_data.py"],
 [("with h5py.File(...)", LD+"load_ssp_data.py:load_ssp_templates"), ("with h5py.File(...)", LD+"load_filter_data.py:load_transmission_curve"), ("with open(...)", LD+"load_emline_info.py:read_emlines_info_fsps")],
 observe=["open descriptors and directory tree after each load", "rewriting the file after each load", "next fault-free load"])
prop("C04", "Data location follows fn, then drn, then DSPS_DRN at call time",
 "An explicit fn always decides which file is loaded; without it the drn argument (with bn, or bn_pat for filter curves) does; without both the DSPS_DRN environment variable as it stands at the time of the call does (its filters subdirectory for filter curves). "
 "A filter pattern must match exactly one file of that directory, taken literally: with no match, several matches, a missing file or an unset variable the load raises instead of picking another file. "
 "This holds after any history of environment changes, working-directory changes and file creations, renames and removals, and for any order in which the operating system lists a directory.",
 ["histories", "configurations"], "every history of environment, directory and file changes between loads, every directory listing order, and directory names with special characters",
 "The tests that use DSPS_DRN are skipped in this environment and use one fixed directory; none changes the environment or the directory between loads.",
 [LD+"load_ssp_data.py", LD+"load_filter_data.py"],
 [("environment lookup inside the call", LD+"load_ssp_data.py:load_ssp_templates"), ("environment lookup and glob uniqueness assertions", LD+"load_filter_data.py:load_transmission_curve")],
 observe=["value or exception of each load"])
prop("C05", "Loads are fresh and their results isolated",
 "Every load of SSP templates, a filter curve or the emission-line table reflects the file as it is at the time of the call, even when the same path was loaded before and the new content kept the old size, inode or timestamps. "
 "Data returned earlier stays intact in memory and never changes because of later loads, later rewriting or removal of the file, or a caller modifying another result in place. "
 "Modifying a returned array (or dictionary) never changes what a later load returns.",
 ["histories"], "every history of loads, file rewrites, removals and in-place modifications of results",
 "Each test loads once and looks at the result at once; stale caches and shared buffers need a multi-step history.",
 [LD+"load_ssp_data.py", LD+"load_filter_data.py", LD+"load_emline_info.py", LD+"retrieve_fake_fsps_data.py"],
 [("datasets copied to memory with [...] on every call, no cache", LD+"load_ssp_data.py:load_ssp_templates")],
 observe=["every result against the model at load time and again at the end of the history"])
prop("C06", "A loaded transmission curve is a valid one, whatever the disk holds",
 "Whatever values a filter file stores, including values damaged by flipped bits, load_transmission_curve raises or returns transmissions that are all finite and within [0, 1]. "
 "It raises a ValueError when a stored value is not finite or lies outside [0, 1] by more than 0.01; otherwise it returns the stored values, changed only where clipping to [0, 1] requires it, with the stored wavelengths.",
 ["fault_sequences", "inputs"], "every pattern of flipped stored bits and out-of-range stored values",
 "No test loads a filter file in this environment, and none stores a damaged or out-of-range curve.",
 [LD+"load_filter_data.py"], [("range check and clip", LD+"load_filter_data.py:load_transmission_curve")],
 observe=["value or exception of each load"])
prop("C07", "SSP data built from FSPS matches what FSPS reported, or the call fails",
 "retrieve_ssp_data_from_fsps returns, for every metallicity FSPS lists, exactly the spectrum and line luminosities FSPS computed for that metallicity under the caller's options (which reach every FSPS request, with zcontinuous=0), the reported wavelengths and ages (as log10 Gyr), and lines named after the entry of the bundled table with the same wavelength (to within a part in a million). "
 "With an FSPS that offers no emission lines both line fields are None. "
 "If FSPS fails at any step or reports a line that matches no single table entry, the call raises; it never returns partial, misaligned or misnamed data, and a later call is unaffected.",
 ["fault_sequences", "histories"], "every FSPS peer (grid sizes, line lists, with or without lines) and every step at which it may fail, over histories of several calls",
 "python-fsps is not installed, so no test runs this code at all.",
 [LD+"retrieve_fsps_data.py", "dsps/data/emlines_info.dat"],
 [("one StellarPopulation per metallicity, collected in order", LD+"retrieve_fsps_data.py:retrieve_ssp_data_from_fsps"), ("wavelength matching with rtol 1e-6, unmatched lines get an invalid name", LD+"retrieve_fsps_data.py:_get_matched_emline_name")],
 observe=["returned SSPData against the simulated peer's ledger", "requests the peer received"])
prop("C08", "The SSP file writer is complete on success and safe on any crash",
 "When scripts/write_fsps_data_to_disk.py finishes successfully, load_ssp_templates reads the output path back as exactly the data that FSPS generates under the options given on the command line (line luminosities converted from Lsun to erg/s; no line fields if FSPS offers none). "
 "If the script is killed, interrupted, loses power, runs out of space or meets an I/O error at any point, loading the output path afterwards raises, or returns exactly the previous content or the complete new data, never anything else. "
 "An error is never reported as success.",
 ["crash_points", "fault_sequences"], "every system call and every script line at which a crash, power loss (losing any subset of unsynced writes), exception or write error may strike",
 "No test runs the script, and crash points between its writes cannot be reached by a unit test.",
 ["scripts/write_fsps_data_to_disk.py", LD+"load_ssp_data.py", LD+"retrieve_fsps_data.py"],
 [("data gathered before the output file is touched", "scripts/write_fsps_data_to_disk.py"), ("line fields read only if present", LD+"load_ssp_data.py:load_ssp_templates")],
 observe=["load of the output path from every crash state", "exit status of the script"])
prop("C09", "A mass-metallicity plot call writes a complete image or fails cleanly",
 "If make_mzr_comparison_plot(fname=...) returns, a complete, decodable image of the figure is at fname; if reading its bundled data or writing the image fails, it raises. "
 "Apart from the new figure it leaves plotting state alone: matplotlib's rcParams and every other open figure are unchanged, also when it fails, and a call after failures have stopped succeeds.",
 ["fault_sequences", "histories"], "every system-call fault during the plot call, over histories of several plot calls mixed with other open figures",
 "The single test calls it once, without faults, and checks only that a file exists.",
 ["dsps/metallicity/diagnostics/plot_mzr.py"], [("figure drawn through its own Axes and saved with fig.savefig", "dsps/metallicity/diagnostics/plot_mzr.py:make_mzr_comparison_plot")],
 observe=["the file at fname", "rcParams and other figures before and after"])
NUM = ["dsps/utils.py", "dsps/cosmology/flat_wcdm.py", "dsps/sed/stellar_age_weights.py", "dsps/sed/metallicity_weights.py", "dsps/sed/ssp_weights.py", "dsps/sed/stellar_sed.py", "dsps/photometry/photometry_kernels.py", "dsps/photometry/photpop.py", "dsps/photometry/utils.py", "dsps/em_lines/equivalent_width.py", "dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py", "dsps/sfh/diffburst.py", "dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py", "dsps/dust/att_curves.py", "dsps/dust/blackbody.py", "dsps/dust/utils.py", "dsps/data_loaders/load_emline_info.py"]
prop("C10", "Numerical results do not depend on call history",
 "The value (and gradient) returned by any numerical function of dsps is determined by the arguments of that call alone: it is the same as in a fresh process, whatever calls were made before with whatever shapes and values, and whether or not earlier calls failed or were interrupted, arguments were modified in place between calls, compiled code was evicted, or arrays were garbage-collected. "
 "A call that succeeds in a fresh process never fails because of the history before it.",
 ["histories", "fault_sequences"], "every history of calls to the public numerical functions, with near-identical and re-used arguments, interrupted calls and cache evictions",
 "Each test makes a handful of calls in one fixed order with unrelated arguments; a stale or polluted cache shows only for particular pairs of calls.",
 NUM, [("pure jitted kernels without module-level mutable state", "dsps/**")], observe=["each call against the same call in a pristine instance"])
prop("C11", "Concurrent callers get the results they would get alone",
 "When several threads of one process call dsps functions (numerical kernels and data loaders) at the same time on their own arguments, each call returns what it returns when executed alone, under every interleaving of the threads. "
 "No interleaving makes a call raise, deadlock or fail to finish.",
 ["schedules"], "every interleaving of several caller threads, switched at any line of dsps code",
 "All tests are single-threaded.",
 NUM + [LD+"load_ssp_data.py", LD+"load_filter_data.py", LD+"load_emline_info.py"], [("no shared mutable state between calls", "dsps/**")], observe=["each call's result against its solo execution", "scheduler progress"])
prop("C12", "Calls have no side effects on arguments or process state",
 "A call to any numerical function or data loader of dsps leaves its array arguments, dsps's public default constants and parameter tables, NumPy's and Python's global random state (except functions documented to draw random numbers when given no key), the environment, the working directory, NumPy's error state, JAX's configuration and the interpreter's settings (umask, sys.path, warning filters, print options, signal handlers, logging levels, recursion limit, garbage collector) as they were. "
 "This holds also when the call raises or is interrupted at any point.",
 ["histories", "crash_points"], "every call in every history, including calls cut short by an exception at any line",
 "Tests look at return values only, and never at the arguments or the process state after a call, let alone after a failed one.",
 NUM, [("functional style; arrays are copied or immutable", "dsps/**")], observe=["deep fingerprint of arguments and process state around each call"])
prop("C13", "Randomness with an explicit key depends on that key only",
 "powerlaw_rvs, get_ran_t0_params and load_random_transmission_curve called with a random key return a result that depends only on the key and the other arguments: the same in every process, thread interleaving and hash seed, before or after any other call, whatever the state of NumPy's and Python's global generators. "
 "Such calls neither read, advance nor reseed the global generators, do not change the key, and different keys give different draws.",
 ["histories", "schedules", "configurations"], "every history and interleaving of keyed calls, reseedings and draws by the application, and every hash seed",
 "Tests draw once per key and never compare repeated draws, processes or global generator state.",
 ["dsps/utils.py", "dsps/metallicity/umzr.py", LD+"load_filter_data.py"], [("jax.random keys passed explicitly", "dsps/utils.py:powerlaw_rvs")],
 observe=["draws against a pristine process", "global generator state around each call"])
prop("C14", "Unkeyed random data is reproducible from the global seeds and well formed",
 "load_random_transmission_curve without a key and load_fake_ssp_data take their randomness only from Python's and NumPy's global generators, so that seeding those reproduces the result in any process, whatever the hash seed and earlier calls, and an unseeded sequence of calls gives fresh draws. "
 "They never reset those generators, always terminate, and the dummy SSP data always has the requested number of distinct line names (one of them XXX), finite wavelengths, and luminosities of shape (n_met, n_age, n_line).",
 ["histories", "configurations", "fault_sequences"], "every global generator state, hash seed, number of lines, and run of colliding draws from the generator",
 "Tests draw once with whatever state the process has; no test seeds, repeats, or compares processes with different hash seeds.",
 [LD+"load_filter_data.py", LD+"retrieve_fake_fsps_data.py"], [("random and numpy.random module-level generators", LD+"retrieve_fake_fsps_data.py")],
 observe=["results across processes", "global generator state"])
prop("C15", "Importing dsps works in any order and after interruption, in double precision",
 "Whichever dsps modules are imported, in whatever order and from whatever threads (each importing a package before its submodules, as CPython itself requires of racing imports), with JAX double precision preset or not, and even if a previous import attempt was interrupted at any point by an exception or a transient read error and then retried, the same public names become available with the same values, and dsps computes in 64-bit precision. "
 "Importing changes no other global state: it writes no file, prints nothing, and leaves the environment, the working directory and the global random generators alone.",
 ["schedules", "fault_sequences", "crash_points", "configurations"], "every import order, thread interleaving, and point of interruption of an import followed by a retry",
 "Tests import once, in one order, without faults.",
 ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/cosmology/defaults.py", "dsps/dust/blackbody.py", "dsps/data_loaders/__init__.py"], [("jax_enable_x64 set at import", "dsps/sed/__init__.py")],
 state=[("jax_enable_x64", "process-wide precision switch", "jax.config")], observe=["public names and values against a pristine import", "dtype of results"])
prop("C16", "Optional dependencies never break the rest of dsps",
 "If python-fsps is absent, broken or not configured (its import raises ImportError or RuntimeError), or matplotlib is absent, every dsps module still imports and everything that does not need the missing package behaves as usual. "
 "The functions that do need it (retrieve_ssp_data_from_fsps, make_mzr_comparison_plot) raise an error when called and never return data; with the packages present they work.",
 ["configurations", "fault_sequences"], "every combination of present, absent, failing and half-imported optional packages, at any import order",
 "Tests run in one environment, without fsps and with matplotlib.",
 [LD+"retrieve_fsps_data.py", "dsps/metallicity/diagnostics/plot_mzr.py"], [("try/except around the optional import, HAS_FSPS and HAS_MATPLOTLIB flags", LD+"retrieve_fsps_data.py")],
 observe=["import outcome", "outcome of the dependent functions"])

def pure(id, title, statement, qtext, why, files, mech):
    prop(id, title, statement, ["inputs"], qtext, why, files, mech)
pure("C20", "Stellar-age weights are a probability distribution",
 "For every increasing time table, non-negative star-formation history and SSP age grid, the age weights are finite, non-negative, sum to one, and give no weight to ages before the galaxy began forming stars.",
 "every valid SFH, age grid and observation time", "Tests sample constant, linear and a few random histories.", ["dsps/sed/stellar_age_weights.py"], [("difference of interpolated cumulative mass", "dsps/sed/stellar_age_weights.py:_calc_age_weights_from_logsm_table")])
pure("C21", "Metallicity weights are a probability distribution",
 "For every metallicity, scatter and SSP metallicity grid the metallicity weights are finite, non-negative and normalised (per galaxy for the lognormal model, over the whole matrix for the table model), and lie on the nearest edge bin when the metallicity is off the grid.",
 "every metallicity, scatter and grid", "Tests sample a few values.", ["dsps/sed/metallicity_weights.py", "dsps/utils.py"], [("triweight histogram with empty-bin fill", "dsps/utils.py:_fill_empty_weights_singlepoint")])
pure("C22", "Joint SSP weights are consistent with their marginals",
 "The joint (metallicity, age) weights are non-negative, sum to one, and marginalise to the age weights returned with them.",
 "every valid galaxy and SSP grid", "Tests check one galaxy.", ["dsps/sed/ssp_weights.py"], [("outer product and normalisation", "dsps/sed/ssp_weights.py")])
pure("C23", "The composite SED is the mass-weighted sum of the templates",
 "The rest-frame SED equals the stellar mass formed by t_obs times the weighted sum of SSP spectra: it is linear in the templates, scales with the star-formation rate, and is non-negative for non-negative templates.",
 "every galaxy and template block", "Tests compare two models on one galaxy.", ["dsps/sed/stellar_sed.py"], [("weighted sum over templates", "dsps/sed/stellar_sed.py")])
pure("C24", "Cumulative stellar mass is the integral of the SFH",
 "Cumulative stellar mass formed equals the trapezoidal integral of the star-formation history from the birth epoch, in solar masses, and never decreases.",
 "every increasing time table and SFH", "One random table is sampled.", ["dsps/utils.py"], [("cumtrapz over the padded table", "dsps/utils.py:cumulative_mstar_formed")])
pure("C25", "Magnitudes obey the AB system and tables agree with single calls",
 "Magnitudes change by -2.5 log10 of a flux factor, do not depend on the normalisation of the filter curve, agree between observed frame at z=0 and rest frame apart from dimming, and the precomputed SSP tables equal the single-spectrum functions entry by entry.",
 "every spectrum, filter, redshift and cosmology", "Tests sample the LSST bands and two FSPS spectra.", ["dsps/photometry/photometry_kernels.py", "dsps/photometry/photpop.py"], [("AB-normalised photon-counting integral", "dsps/photometry/photometry_kernels.py")])
pure("C26", "Cosmological distances and times obey their defining relations",
 "Comoving distance grows with redshift, luminosity and angular-diameter distances differ by (1+z)^2, lookback time plus age is constant, the distance modulus and volume element follow from the distances, and all agree with direct numerical integration.",
 "every redshift and flat w0-wa cosmology", "Tests compare a few cosmologies with tabulated values.", ["dsps/cosmology/flat_wcdm.py"], [("trapezoidal integrals on fixed grids", "dsps/cosmology/flat_wcdm.py")])
pure("C27", "Dust transmits a fraction of the light",
 "Attenuation curves are non-negative and vanish at Av=0, and the transmitted fraction lies between the floor and one and falls with Av, for all curves and wavelengths in their range.",
 "every wavelength, Av, bump, slope and floor", "Tests compare tabulated curves.", ["dsps/dust/att_curves.py"], [("clipping and exponential of the curve", "dsps/dust/att_curves.py")])
pure("C28", "Burst age weights are a distribution with bounded support",
 "Burst weights are non-negative, normalised and vanish outside the burst's age window, and adding a burst of fraction f keeps the total weight and gives exactly f to the burst.",
 "every burst parameter and age grid", "Tests sample random parameters on one grid.", ["dsps/sfh/diffburst.py"], [("triweight kernel with safe normalisation", "dsps/sfh/diffburst.py")])
pure("C29", "Bounded and unbounded parameters are inverse and in range",
 "The unbounded-to-bounded maps of the burst and mass-metallicity models always land within the documented bounds and are inverted by the reverse maps.",
 "every parameter vector", "Tests sample random vectors.", ["dsps/sfh/diffburst.py", "dsps/metallicity/umzr.py"], [("sigmoid and inverse sigmoid", "dsps/utils.py")])
pure("C30", "The mass-metallicity relation is monotonic in mass and time",
 "For parameters within bounds metallicity does not decrease with stellar mass at z=0, and is never raised by going back in time.",
 "every parameter vector, mass and time", "One parameter set and a few masses are sampled.", ["dsps/metallicity/umzr.py", "dsps/metallicity/mzr.py"], [("sigmoid slope model", "dsps/metallicity/umzr.py")])
pure("C31", "Equivalent widths recover injected lines",
 "A line added to a quadratic continuum is recovered with its flux and equivalent width, and a pure continuum gives zero.",
 "every continuum, line and window", "Tests use one line.", ["dsps/em_lines/equivalent_width.py"], [("weighted quadratic fit", "dsps/em_lines/equivalent_width.py")])
pure("C32", "Blackbody densities agree with Planck's law in both forms",
 "Frequency and wavelength densities are positive, related by the Jacobian, and agree with Planck's law over the physical range.",
 "every frequency and temperature", "Tests compare a few temperatures with astropy.", ["dsps/dust/blackbody.py"], [("Planck function in log space", "dsps/dust/blackbody.py")])
pure("C33", "Surviving and remnant mass fractions are fractions",
 "The surviving and remnant mass fractions lie in [0, 1]; the surviving fraction does not increase, for all IMFs, over stellar ages.",
 "every age and IMF", "Tests compare with tabulated ages.", ["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py"], [("sigmoid slope fits", "dsps/imf/surviving_mstar.py")])
pure("C34", "Filter interpolation keeps each curve on its own range",
 "interpolate_filter_trans_curves returns curves of one common length that span each filter's own wavelength range and agree with linear interpolation of it.",
 "every collection of filters", "No dedicated test.", ["dsps/photometry/utils.py"], [("np.interp per filter", "dsps/photometry/utils.py")])
pure("C35", "Line subsets keep names, wavelengths and luminosities together",
 "get_subset_emline_data returns, in the requested order, exactly the named lines with their own wavelength and luminosity columns, and leaves other fields alone.",
 "every line list and selection", "The test is unable to run without the data file.", [LD+"load_emline_info.py"], [("index lookup by field name", LD+"load_emline_info.py:get_subset_emline_data")])
pure("C36", "Gradients are finite wherever values are",
 "Gradients of SEDs, magnitudes, weights and parameter maps with respect to galaxy and model parameters are finite for all valid inputs.",
 "every valid input", "Tests hardly compute gradients.", ["dsps/utils.py", "dsps/sed/stellar_sed.py", "dsps/photometry/photometry_kernels.py"], [("jnp.where guards and floors", "dsps/utils.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
