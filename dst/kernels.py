"""The public numerical functions of dsps with generators of valid arguments.

An argument list is a list of (name, kind, value); kinds:
  inc   increasing float array          arr   float array
  f     float                           tup   named tuple or tuple of floats
  key   random key                      obj   anything else (not perturbed)
"""

import importlib

import numpy as np

SIZES = [dict(nt=12, na=7, nm=4, nw=15, nf=2, nk=8), dict(nt=13, na=8, nm=5, nw=16, nf=3, nk=9),
         dict(nt=12, na=8, nm=4, nw=15, nf=2, nk=9)]


class Inst:
    """The modules of one instance of dsps."""

    def __init__(self):
        self.mods = {}

    def __getitem__(self, m):
        if m not in self.mods:
            self.mods[m] = importlib.import_module("dsps." + m if m else "dsps")
        return self.mods[m]


def inc(rs, lo, hi, n, jit=0.3):
    x = np.linspace(lo, hi, n)
    d = (hi - lo) / (n - 1)
    x = x + jit * d * rs.uniform(-0.5, 0.5, n)
    return x


def T(rs, z):
    return ("gal_t_table", "inc", inc(rs, 0.2, 13.7, z["nt"]))


def SFR(rs, z, n="gal_sfr_table"):
    return (n, "arr", 10 ** rs.uniform(-1, 1.5, z["nt"]))


def ZTAB(rs, z):
    return ("gal_lgmet_table", "arr", rs.uniform(-2.7, -1.5, z["nt"]))


def F(n, rs, lo, hi):
    return (n, "f", float(rs.uniform(lo, hi)))


def SZ(rs, z):
    return ("ssp_lgmet", "inc", inc(rs, -3.5, -1.3, z["nm"]))


def SA(rs, z):
    return ("ssp_lg_age_gyr", "inc", inc(rs, -3.2, 1.1, z["na"]))


def WAVE(rs, z, n="wave"):
    return (n, "inc", inc(rs, 500.0, 15000.0, z["nw"]))


def SFLUX(rs, z, n="ssp_flux"):
    return (n, "arr", 10 ** rs.uniform(-3, 0, (z["nm"], z["na"], z["nw"])))


def LUM(rs, z):
    return ("lum_spec", "arr", 10 ** rs.uniform(-3, 0, z["nw"]))


def FW(rs, z, n="wave_filter"):
    return (n, "inc", inc(rs, rs.uniform(2500, 3500), rs.uniform(6000, 9000), z["nk"]))


def FT(rs, z, n="trans_filter"):
    return (n, "arr", rs.uniform(0.05, 0.9, z["nk"]))


def FWS(rs, z):
    return ("filter_waves", "arr", np.array([inc(rs, rs.uniform(2500, 3500), rs.uniform(6000, 9000), z["nk"])
                                             for _ in range(z["nf"])]))


def FTS(rs, z):
    return ("filter_trans", "arr", rs.uniform(0.05, 0.9, (z["nf"], z["nk"])))


def COSMO(rs):
    return [F("Om0", rs, 0.2, 0.4), F("w0", rs, -1.1, -0.9), F("wa", rs, -0.1, 0.1), F("h", rs, 0.6, 0.8)]


def T1(rs):
    return F("t_obs", rs, 10.0, 13.5)


REG = {}


def reg(mod, attr, gen, grad=(), traceable=True, weight=1.0, tests_only=False):
    REG["%s.%s" % (mod, attr)] = dict(mod=mod, attr=attr, gen=gen, grad=tuple(grad), traceable=traceable, weight=weight)


for _m in ("sed.stellar_age_weights", "sed"):
    reg(_m, "calc_age_weights_from_sfh_table", lambda rs, z, I: [T(rs, z), SFR(rs, z), SA(rs, z), T1(rs)], grad=(1, 3))
reg("sed.stellar_age_weights", "calc_age_weights_from_sfh_table#min",
    lambda rs, z, I: [T(rs, z), SFR(rs, z), SA(rs, z), T1(rs), F("sfr_min", rs, 1e-8, 1e-3)], grad=(1,))
for _m in ("sed.metallicity_weights", "sed"):
    reg(_m, "calc_lgmet_weights_from_lognormal_mdf",
        lambda rs, z, I: [F("gal_lgmet", rs, -3, -1.6), F("gal_lgmet_scatter", rs, 0.1, 0.4), SZ(rs, z)], grad=(0, 1))
reg("sed", "calc_lgmet_weights_from_lgmet_table",
    lambda rs, z, I: [T(rs, z), ZTAB(rs, z), F("gal_lgmet_scatter", rs, 0.1, 0.4), SZ(rs, z), SA(rs, z), T1(rs)], grad=(1, 2))
reg("sed", "calc_ssp_weights_sfh_table_lognormal_mdf",
    lambda rs, z, I: [T(rs, z), SFR(rs, z), F("gal_lgmet", rs, -3, -1.6), F("gal_lgmet_scatter", rs, 0.1, 0.4), SZ(rs, z), SA(rs, z),
                      T1(rs)], grad=(2, 3))
reg("sed", "calc_ssp_weights_sfh_table_met_table",
    lambda rs, z, I: [T(rs, z), SFR(rs, z), ZTAB(rs, z), F("gal_lgmet_scatter", rs, 0.1, 0.4), SZ(rs, z), SA(rs, z), T1(rs)],
    grad=(2,))
reg("", "calc_rest_sed_sfh_table_lognormal_mdf",
    lambda rs, z, I: [T(rs, z), SFR(rs, z), F("gal_lgmet", rs, -3, -1.6), F("gal_lgmet_scatter", rs, 0.1, 0.4), SZ(rs, z), SA(rs, z),
                      SFLUX(rs, z), T1(rs)], grad=(1, 2), weight=2)
reg("", "calc_rest_sed_sfh_table_met_table",
    lambda rs, z, I: [T(rs, z), SFR(rs, z), ZTAB(rs, z), F("gal_lgmet_scatter", rs, 0.1, 0.4), SZ(rs, z), SA(rs, z),
                      SFLUX(rs, z), T1(rs)], grad=(1, 2), weight=2)
reg("", "calc_obs_mag", lambda rs, z, I: [WAVE(rs, z, "wave_spec_rest"), LUM(rs, z), FW(rs, z), FT(rs, z), F("redshift", rs, 0.05, 0.5)]
    + COSMO(rs), grad=(1, 4), weight=2)
reg("", "calc_rest_mag", lambda rs, z, I: [WAVE(rs, z, "wave_spec_rest"), LUM(rs, z), FW(rs, z), FT(rs, z)], grad=(1,))
reg("photometry.photometry_kernels", "calc_rest_flux",
    lambda rs, z, I: [WAVE(rs, z, "wave_spec_rest"), LUM(rs, z), FW(rs, z), FT(rs, z)], grad=(1,))
reg("photometry.photpop", "precompute_ssp_obsmags_on_z_table",
    lambda rs, z, I: [WAVE(rs, z, "ssp_wave"), SFLUX(rs, z, "ssp_fluxes"), FWS(rs, z), FTS(rs, z), ("z_table", "inc", inc(rs, 0.05, 0.5, 3))]
    + COSMO(rs), grad=(1,))
reg("photometry.photpop", "precompute_ssp_restmags", lambda rs, z, I: [WAVE(rs, z, "ssp_wave"), SFLUX(rs, z, "ssp_fluxes"), FWS(rs, z), FTS(rs, z)],
    grad=(1,))
reg("photometry.photpop", "precompute_ssp_restmags_z_kcorrect",
    lambda rs, z, I: [WAVE(rs, z, "ssp_wave"), SFLUX(rs, z, "ssp_fluxes"), FWS(rs, z), FTS(rs, z), F("z_kcorrect", rs, 0.05, 0.5)], grad=(1, 4))
reg("photometry.utils", "interpolate_filter_trans_curves",
    lambda rs, z, I: [("wave_filters", "list", [FW(rs, z)[2] for _ in range(z["nf"])]), ("trans_filters", "list", [FT(rs, z)[2] for _ in range(z["nf"])])],
    traceable=False, weight=3)
reg("photometry.utils", "interpolate_filter_trans_curves#n",
    lambda rs, z, I: [("wave_filters", "list", [FW(rs, z)[2] for _ in range(z["nf"])]), ("trans_filters", "list", [FT(rs, z)[2] for _ in range(z["nf"])]),
                      ("n", "int", int(rs.randint(5, 12)))], traceable=False)


def _emdata(rs, z, I):
    names = ["L%s" % "".join(c) for c in rs.choice(list("ABCDEFGH"), (40, 2))]
    names = list(dict.fromkeys(names))[:6]
    from collections import namedtuple
    EW = namedtuple("EmLineWave", names)
    w = EW(*[float(x) for x in np.sort(rs.uniform(1000, 9000, 6))])
    s = I["data_loaders.defaults"].SSPData(SZ(rs, z)[2], SA(rs, z)[2], WAVE(rs, z)[2], SFLUX(rs, z)[2], w,
                                           10 ** rs.uniform(-3, 2, (z["nm"], z["na"], 6)))
    sel = [names[i] for i in rs.permutation(6)[:rs.randint(1, 5)]]
    return [("ssp_data", "ssp", s), ("emline_names", "obj", sel)]


reg("data_loaders.load_emline_info", "get_subset_emline_data", _emdata, traceable=False, weight=3)

for _a in ("comoving_distance", "luminosity_distance", "angular_diameter_distance", "distance_modulus", "lookback_time", "age_at_z",
           "differential_comoving_volume"):
    reg("cosmology", _a, lambda rs, z, I: [("redshift", "inc", inc(rs, 0.1, 2.0, z["nf"]))] + COSMO(rs), grad=(0, 1))
for _a in ("comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z", "lookback_to_z", "rho_crit",
           "virial_dynamical_time", "differential_comoving_volume_at_z"):
    reg("cosmology.flat_wcdm", _a, lambda rs, z, I: [F("redshift", rs, 0.1, 2.0)] + COSMO(rs), grad=(0, 1), weight=0.7)
reg("cosmology", "age_at_z0", lambda rs, z, I: COSMO(rs), grad=(0, 3))
reg("cosmology", "hubble_distance_mpc", lambda rs, z, I: COSMO(rs)[3:], grad=(0,))
reg("cosmology.flat_wcdm", "age_at_z", lambda rs, z, I: [F("redshift", rs, 0.1, 2.0)] + COSMO(rs), grad=(0,))

WM = lambda rs, z: ("wave_micron", "inc", inc(rs, 0.1, 2.0, z["nw"]))
BUMP = lambda rs: [F("uv_bump_ampl", rs, 0, 3), F("plaw_slope", rs, -0.5, 0.3)]
for _a in ("noll09_k_lambda", "sbl18_k_lambda"):
    reg("dust.att_curves", _a, lambda rs, z, I: [WM(rs, z)] + BUMP(rs), grad=(1, 2))
    reg("dust.att_curves", _a + "#all", lambda rs, z, I: [WM(rs, z)] + BUMP(rs) + [F("uv_bump", rs, 0.21, 0.23), F("uv_bump_width", rs, 0.03, 0.04)],
        grad=(2,), weight=0.5)
for _a in ("noll09_k_att_curve", "sbl18_k_att_curve"):
    reg("dust.att_curves", _a, lambda rs, z, I: [WM(rs, z), F("av", rs, 0.1, 1.5)] + BUMP(rs), grad=(1, 2))
for _a in ("calzetti00_att_curve", "leitherer02_att_curve"):
    reg("dust.att_curves", _a, lambda rs, z, I: [WM(rs, z), F("av", rs, 0.1, 1.5)], grad=(1,))
for _a in ("calzetti00_k_lambda", "leitherer02_k_lambda", "triweight_k_lambda"):
    reg("dust.att_curves", _a, lambda rs, z, I: [WM(rs, z)], grad=(0,), weight=0.7)
reg("dust.att_curves", "power_law_vband_norm", lambda rs, z, I: [WM(rs, z), F("plaw_slope", rs, -1, 0.5)], grad=(1,))
reg("dust.att_curves", "_frac_transmission_from_k_lambda",
    lambda rs, z, I: [("k_lambda", "arr", rs.uniform(1, 10, z["nw"])), F("av", rs, 0.1, 1.5), F("ftrans_floor", rs, 0.0, 0.3)], grad=(1,))
reg("dust", "blackbody_freq_density", lambda rs, z, I: [("freq_hz", "inc", inc(rs, 1e13, 1e15, z["nw"])), F("temp_kelvin", rs, 3e3, 1e4)], grad=(1,))
reg("dust", "blackbody_wave_density", lambda rs, z, I: [("wave_aa", "inc", inc(rs, 1e3, 2e4, z["nw"])), F("temp_kelvin", rs, 3e3, 1e4)], grad=(1,))
reg("dust.utils", "get_filter_effective_wavelength", lambda rs, z, I: [FW(rs, z), FT(rs, z), F("redshift", rs, 0, 1)], grad=(1, 2))

LSM = lambda rs, z: ("logsm", "inc", inc(rs, 8.0, 11.5, z["nk"]))


def _mzr(I, n0=0):
    m = I["metallicity.umzr"]
    return list(m.DEFAULT_MZR_PARAMS._asdict().items())


def _jp(rs, items):
    return [(k, "f", float(v) * (1 + 0.05 * rs.uniform(-1, 1))) for k, v in items]


reg("metallicity.umzr", "mzr_model", lambda rs, z, I: [LSM(rs, z), F("t", rs, 2, 13)] + _jp(rs, _mzr(I)), grad=(1, 3))
reg("metallicity.umzr", "mzr_model_t0", lambda rs, z, I: [LSM(rs, z)] + _jp(rs, list(I["metallicity.umzr"].MZR_T0_PDICT.items())), grad=(1,))
reg("metallicity.umzr", "mzr_evolution_model",
    lambda rs, z, I: [LSM(rs, z), F("cosmic_time", rs, 2, 13)] + _jp(rs, list(I["metallicity.umzr"].MZR_TEVOL_PDICT.items())), grad=(1,))
reg("metallicity.umzr", "get_bounded_mzr_params",
    lambda rs, z, I: [("u_params", "tup", type(I["metallicity.umzr"].DEFAULT_MZR_U_PARAMS)(*[float(x) for x in rs.uniform(-1, 1, len(_mzr(I)))]))], grad=(0,))
reg("metallicity.umzr", "get_unbounded_mzr_params",
    lambda rs, z, I: [("params", "tup", type(I["metallicity.umzr"].DEFAULT_MZR_PARAMS)(*[float(v) * (1 + 0.03 * rs.uniform(-1, 1)) for _, v in _mzr(I)]))],
    grad=(0,))
reg("metallicity.umzr", "get_ran_t0_params", lambda rs, z, I: [("ran_key", "key", int(rs.randint(0, 1000)))], traceable=True)
reg("metallicity.mzr", "mzr_model",
    lambda rs, z, I: [LSM(rs, z), F("t", rs, 2, 13)] + _jp(rs, list(I["metallicity.mzr"].MZR_T0_PDICT.items()) + list(I["metallicity.mzr"].MZR_VS_T_PDICT.items())),
    grad=(1,))
reg("metallicity.mzr", "mzr_model_t0", lambda rs, z, I: [LSM(rs, z)] + _jp(rs, list(I["metallicity.mzr"].MZR_T0_PDICT.items())), grad=(1,), weight=0.7)
reg("metallicity.mzr", "maiolino08_metallicity_evolution", lambda rs, z, I: [LSM(rs, z), F("logm0", rs, 11, 13), F("k0", rs, 8, 10)], grad=(1,), weight=0.5)

W01 = lambda rs, z: ("smooth_age_weights", "arr", (lambda w: w / w.sum())(rs.uniform(0.1, 1, z["na"])))
reg("sfh.diffburst", "calc_bursty_age_weights",
    lambda rs, z, I: [("burst_params", "tup", I["sfh.diffburst"].BurstParams(float(rs.uniform(-5, -1.5)), float(rs.uniform(5.2, 6)), float(rs.uniform(7.2, 8.5)))),
                      W01(rs, z), SA(rs, z)], grad=(0, 1))
reg("sfh.diffburst", "calc_bursty_age_weights_from_u_params",
    lambda rs, z, I: [("u_burst_params", "tup", I["sfh.diffburst"].BurstUParams(*[float(x) for x in rs.uniform(-5, 5, 3)])), W01(rs, z), SA(rs, z)], grad=(0,))
reg("sfh.diffburst", "_get_params_from_u_params", lambda rs, z, I: [("u_params", "tup", I["sfh.diffburst"].BurstUParams(*[float(x) for x in rs.uniform(-5, 5, 3)]))],
    grad=(0,), weight=0.6)
reg("sfh.diffburst", "_get_u_params_from_params",
    lambda rs, z, I: [("params", "tup", I["sfh.diffburst"].BurstParams(float(rs.uniform(-5, -2)), float(rs.uniform(5.2, 6)), float(rs.uniform(7.2, 8.5))))],
    grad=(0,), weight=0.6)

LGA = lambda rs, z: ("lg_age_yr", "inc", inc(rs, 6.0, 10.1, z["na"]))
reg("imf.surviving_mstar", "surviving_mstar", lambda rs, z, I: [LGA(rs, z)], grad=(0,), weight=0.7)
reg("imf.surviving_mstar", "surviving_mstar#p",
    lambda rs, z, I: [LGA(rs, z)] + _jp(rs, list(getattr(I["imf.surviving_mstar"], rs.choice(["SALPETER_PARAMS", "KROUPA_PARAMS", "VAN_DOKKUM_PARAMS"])).items())),
    grad=(1,))
reg("imf.remnant_mass", "remnant_mass", lambda rs, z, I: [LGA(rs, z)], grad=(0,), weight=0.7)
reg("imf.remnant_mass", "remnant_mass#p",
    lambda rs, z, I: [LGA(rs, z)] + _jp(rs, list(getattr(I["imf.remnant_mass"], rs.choice(["SALPETER_PARAMS", "KROUPA_PARAMS", "VAN_DOKKUM_PARAMS"])).items())),
    grad=(1,))


def _ew(rs, z, I):
    w = inc(rs, 6400, 6700, z["nw"] + 15)
    fl = 1 + 0.001 * (w - 6500) + rs.uniform(0, 0.1, w.size)
    return [("wave", "inc", w), ("flux", "arr", fl)] + [F(n, rs, a, a + 5) for n, a in (
        ("line_lo", 6530), ("line_mid", 6560), ("line_hi", 6590), ("cont_lo_lo", 6405), ("cont_lo_hi", 6505), ("cont_hi_lo", 6605), ("cont_hi_hi", 6690))]


reg("em_lines.equivalent_width", "_ew_kernel", _ew, grad=(1,))
reg("em_lines.equivalent_width", "_continuum_line_decomp_kern", _ew, grad=(1,), weight=0.5)

XY = lambda rs, z: [("xarr", "inc", inc(rs, 0, 5, z["nt"])), ("yarr", "arr", rs.uniform(0.1, 2, z["nt"]))]
reg("utils", "trapz", lambda rs, z, I: XY(rs, z), grad=(1,))
reg("utils", "cumtrapz", lambda rs, z, I: XY(rs, z), grad=(1,))
reg("", "cumulative_mstar_formed", lambda rs, z, I: [("t_table",) + T(rs, z)[1:], SFR(rs, z, "sfh_table")], grad=(1,), weight=1.5)
reg("utils", "triweighted_histogram", lambda rs, z, I: [F("x", rs, -1, 1), F("sig", rs, 0.3, 1), ("xbins", "inc", inc(rs, -2, 2, z["nk"]))], grad=(0,))
reg("utils", "triweight_gaussian", lambda rs, z, I: [("x", "inc", inc(rs, -2, 2, z["nk"])), F("m", rs, -0.5, 0.5), F("h", rs, 0.3, 1)], grad=(1, 2))
reg("utils", "powerlaw_pdf", lambda rs, z, I: [("x", "inc", inc(rs, 1.5, 4, z["nk"])), F("a", rs, 1, 1.4), F("b", rs, 4.5, 6), F("g", rs, 1, 3)], grad=(3,))
reg("utils", "powerlaw_rvs", lambda rs, z, I: [("ran_key", "key", int(rs.randint(0, 1000))), F("a", rs, 1, 1.4), F("b", rs, 4.5, 6), ("g", "arr", rs.uniform(1, 3, z["nk"]))],
    grad=(3,))
reg("utils", "_get_triweights_singlepoint", lambda rs, z, I: [F("x", rs, -1, 1), F("sig", rs, 0.3, 1), ("bin_edges", "inc", inc(rs, -2, 2, z["nk"]))],
    grad=(0,), weight=0.5)
reg("utils", "_jax_get_dt_array", lambda rs, z, I: [("t", "inc", inc(rs, 0.1, 13, z["nt"]))], grad=(0,), weight=0.5)
reg("utils", "_get_bin_edges", lambda rs, z, I: [("bin_mids", "inc", inc(rs, -2, 2, z["nk"])), F("lowest_bin_edge", rs, -9, -5), F("highest_bin_edge", rs, 5, 9)],
    grad=(0,), weight=0.5)
reg("data_loaders.load_filter_data", "load_random_transmission_curve", lambda rs, z, I: [("ran_key", "key", int(rs.randint(0, 1000)))], traceable=False)
reg("data_loaders.load_filter_data", "load_random_transmission_curve#c",
    lambda rs, z, I: [("ran_key", "key", int(rs.randint(0, 1000))), F("tcurve_center", rs, 2500, 8500)], traceable=False, weight=0.5)
reg("data_loaders.retrieve_fake_fsps_data", "load_fake_filter_transmission_curves", lambda rs, z, I: [], traceable=False, weight=0.5)

# functions that share helpers or callers, so that one run stresses related state
GROUPS = {}
for _k, _e in REG.items():
    GROUPS.setdefault(_e["mod"].split(".")[0] or "sed", []).append(_k)
GROUPS["chain"] = [".calc_rest_sed_sfh_table_lognormal_mdf", ".calc_rest_sed_sfh_table_met_table", "sed.calc_age_weights_from_sfh_table",
                   "sed.calc_ssp_weights_sfh_table_met_table", "sfh.diffburst.calc_bursty_age_weights", ".cumulative_mstar_formed"]
GROUPS["phot"] = [".calc_obs_mag", ".calc_rest_mag", "photometry.photpop.precompute_ssp_obsmags_on_z_table", "photometry.utils.interpolate_filter_trans_curves",
                  "cosmology.distance_modulus", "dust.utils.get_filter_effective_wavelength"]


def available(I):
    """Names of the registered functions this version of dsps still has."""
    out = []
    for k, e in REG.items():
        try:
            if callable(getattr(I[e["mod"]], e["attr"].split("#")[0], None)):
                out.append(k)
        except ImportError:
            pass
    return out


def fn(I, name):
    e = REG[name]
    return getattr(I[e["mod"]], e["attr"].split("#")[0])


def args(I, name, seed, size):
    rs = np.random.RandomState(1000 + seed)
    return [list(a) for a in REG[name]["gen"](rs, SIZES[size], I)]


EPS = [0.1, 1e-2, 1e-3, 1e-5, 1e-7]


def perturb(al, p):
    """Apply one near-miss change p = dict(arg, how, pos, eps) to an argument list."""
    if not al:
        return
    if p["how"] == "reverse-all":
        return reverse_partners(al)
    i = p["arg"] % len(al)
    name, kind, v = al[i]
    eps = p["eps"]
    if kind == "f":
        al[i][2] = v * (1 + eps) if abs(v) > 1e-3 else v + eps
    elif kind == "tup":
        j = p["pos"] % len(v)
        al[i][2] = v._replace(**{v._fields[j]: v[j] * (1 + eps * 0.3) + eps * 1e-3})
    elif kind == "key":
        al[i][2] = v + 1
    elif kind == "int":
        al[i][2] = v + 1
    elif kind in ("arr", "inc"):
        al[i][2] = _parr(v, kind, p)
    elif kind == "list":
        j = p["pos"] % len(v)
        v = list(v)
        v[j] = _parr(v[j], "inc" if "wave" in name else "arr", dict(p, pos=p["pos"] // len(v)))
        al[i][2] = v
    elif kind == "ssp":
        if p["how"] == "swap":
            f = list(v.ssp_emline_wave._fields)
            f[0], f[-1] = f[-1], f[0]
            from collections import namedtuple
            al[i][2] = v._replace(ssp_emline_wave=namedtuple("EmLineWave", f)(*v.ssp_emline_wave))
        elif p["how"] == "scale":
            w = type(v.ssp_emline_wave)(*[x * (1 + eps) for x in v.ssp_emline_wave])
            al[i][2] = v._replace(ssp_emline_wave=w)
        else:
            al[i][2] = v._replace(ssp_emline_luminosity=_parr(v.ssp_emline_luminosity, "arr", p))
    elif kind == "obj" and name == "emline_names":
        al[i][2] = list(reversed(v)) if p["how"] == "swap" else v[:-1] or v


ODD = ["reverse", "shuffle", "zero", "nan", "inf", "neg", "dup", "const", "huge", "tiny"]


def _odd(v, flat, how, pos):
    """Unusual but legal input: what a function quietly repairs, it must not repair in the caller's arrays."""
    if how == "reverse":
        return v[..., ::-1].copy()
    if how == "shuffle":
        flat[:] = flat[np.random.RandomState(pos).permutation(flat.size)]
    elif how == "const":
        flat[:] = flat[pos]
    elif how == "dup":
        flat[pos] = flat[pos - 1]
    else:
        flat[pos] = {"zero": 0.0, "nan": np.nan, "inf": np.inf, "neg": -abs(flat[pos]) - 1e-3, "huge": 1e30, "tiny": 1e-300}[how]
    return v


def reverse_partners(al):
    """Every array of an argument list reversed along its last axis, so that tables stay consistent."""
    for a in al:
        if a[1] in ("arr", "inc"):
            a[2] = np.array(a[2], dtype="f8")[..., ::-1].copy()
        elif a[1] == "list":
            a[2] = [np.array(x, dtype="f8")[::-1].copy() for x in a[2]]


def _parr(v, kind, p):
    v = np.array(v, dtype="f8")
    eps = p["eps"]
    n = v.size
    flat = v.reshape(-1)
    pos = p["pos"] % n
    if p["how"] in ODD:
        return _odd(v, flat, p["how"], pos)
    if p["how"] == "scale":
        return v * (1 + eps)
    if kind == "inc":
        if n < 3:
            flat[pos] *= 1 + eps
            return v
        gap = np.diff(flat)
        if p["how"] == "swap":  # same ends, same sum, same order
            a, b = 1 + pos % (n - 2), 1 + (pos + 1) % (n - 2)
            d = 0.3 * eps * gap.min()
            flat[a] += d
            flat[b] -= d
        elif pos in (0, n - 1):
            flat[pos] += (-1 if pos == 0 else 1) * 0.5 * eps * abs(gap).mean()
        else:
            flat[pos] += 0.5 * eps * min(gap[pos - 1], gap[pos])
    else:
        if p["how"] == "swap" and n > 1:  # same sum
            b = (pos + 1) % n
            d = 0.5 * eps * flat[pos]
            flat[pos] += d
            flat[b] -= d
        else:
            flat[pos] *= 1 - 0.5 * eps
    return v
