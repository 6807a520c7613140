"""
Every population model of the package in representative configurations, with its
reference value, the hyperparameters it must declare, and a hyperparameter lattice.
Used by C02 (backends agree), C09 (history independence) and C19 (declared names).
"""
import itertools

import numpy as np

from mc import oracle as O
from mc import smoothed as S

# points inside, at the edge of and outside the support of the models; the same
# field names for every model
DATA = {
    "A": dict(
        mass_1=[12.0, 35.0, 7.7, 48.0, 3.1, 120.0],
        mass_ratio=[0.9, 0.7, 1.0, 0.35, 0.99, 0.5],
        mass_2=[8.0, 30.0, 7.7, 40.0, 2.0, 5.0],
        a_1=[0.1, 0.5, 0.77, 0.99, 0.3, 1.2],
        a_2=[0.2, 0.45, 0.6, 0.05, 0.9, 0.4],
        cos_tilt_1=[0.9, -0.5, 0.0, 0.3, -1.0, 1.0],
        cos_tilt_2=[-0.9, 0.5, 0.25, 1.0, -0.3, 0.6],
        chi_eff=[0.1, -0.2, 0.0, 0.9, -1.0, 1.3],
        chi_p=[0.3, 0.6, 0.05, 1.0, 0.9, -0.2],
        redshift=[0.05, 0.3, 0.9, 1.4, 0.01, 3.0],
    ),
    "B": dict(
        mass_1=[35.0, 12.0, 20.0, 9.0, 80.0, 6.3],
        mass_ratio=[0.5, 0.8, 0.6, 0.95, 0.3, 1.0],
        mass_2=[20.0, 12.5, 11.0, 9.0, 50.0, 6.3],
        a_1=[0.6, 0.15, 0.33, 0.8, 0.02, 0.7],
        a_2=[0.9, 0.25, 0.5, 0.1, 1.3, 0.65],
        cos_tilt_1=[0.1, 0.2, -0.7, 0.8, 0.95, -0.2],
        cos_tilt_2=[0.3, -0.6, 0.9, 0.0, 0.15, 1.0],
        chi_eff=[-0.4, 0.3, 0.05, 0.5, -0.1, 0.2],
        chi_p=[0.2, 0.1, 0.8, 0.4, 0.55, 0.7],
        redshift=[0.6, 0.2, 1.9, 0.1, 0.45, 1.0],
    ),
    "C": dict(
        mass_1=[30.0, 8.0, 15.0, 60.0],
        mass_ratio=[0.85, 0.9, 0.4, 0.6],
        mass_2=[28.0, 7.0, 16.0, 30.0],
        a_1=[0.4, 0.2, 0.95, 0.5],
        a_2=[0.3, 0.8, 0.1, 0.55],
        cos_tilt_1=[0.4, 0.6, -0.9, 0.7],
        cos_tilt_2=[0.7, -0.2, 0.5, 0.1],
        chi_eff=[0.2, -0.6, 0.4, 0.0],
        chi_p=[0.5, 0.3, 0.15, 0.9],
        redshift=[0.7, 1.2, 0.25, 2.2],
    ),
}
DATA["D"] = {k: v[1:2] for k, v in DATA["C"].items()}
DATA["E"] = {k: np.reshape(v, (2, 3)) for k, v in DATA["B"].items()}
DATA["F"] = {k: np.reshape(v[:4], (2, 1, 2)) for k, v in DATA["A"].items()}
# variants of A that share part of its content
DATA["A-reversed"] = {k: v[::-1] for k, v in DATA["A"].items()}
DATA["A-inner"] = {k: v[:1] + DATA["B"][k][1:5] + v[5:] for k, v in DATA["A"].items()}
DATA["A-first"] = {k: DATA["B"][k][:1] + v[1:] for k, v in DATA["A"].items()}
DATA["A-last"] = {k: v[:5] + DATA["B"][k][5:] for k, v in DATA["A"].items()}


def dataset(name):
    return {k: np.array(v, dtype=float) for k, v in DATA[name].items()}


class Entry:
    def __init__(self, name, make, names, params, oracle, lattice=(), field=None,
                 rtol=1e-7, optional=(), alt=None, family="function"):
        self.name = name
        self.make = make  # api -> callable
        self.names = set(names)
        self.params = list(params)  # at least three points
        self.oracle = oracle  # (dataset, params) -> array
        self.lattice = list(lattice) or self.params
        self.field = field  # functions of one array rather than of a dataset
        self.rtol = rtol  # agreement with the oracle
        self.optional = set(optional)  # names with a default in the signature
        # a second configuration of the same class: (api -> callable, oracle)
        self.alt = alt or (make, oracle)
        self.family = family  # "function" for plain functions, which have no state

    def call(self, model, data, params):
        if self.field:
            return model(data[self.field], **params)
        return model(data, **params)


def grid(**axes):
    keys = list(axes)
    return [dict(zip(keys, v)) for v in itertools.product(*axes.values())]


ENTRIES = {}


def add(name, *args, **kw):
    ENTRIES[name] = Entry(name, *args, **kw)


def mass_function(name):
    return lambda api: getattr(api.mass, name)


# ------------------------------------------------------------------ mass, analytic
POW = [dict(alpha=2.5, mmin=5, mmax=50), dict(alpha=1, mmin=3.0, mmax=90.0), dict(alpha=-1.5, mmin=6, mmax=40)]
POW_L = grid(alpha=[-3, -1, 0, 1, 1.004, 1.5, 2, 6], mmin=[2, 7.5], mmax=[40, 100.0])
BPL = [dict(alpha_1=1.5, alpha_2=4, mmin=5, mmax=60, break_fraction=0.3),
       dict(alpha_1=-1, alpha_2=1, mmin=3.0, mmax=90, break_fraction=0.6),
       dict(alpha_1=1, alpha_2=7, mmin=6, mmax=50, break_fraction=0.5)]
BPL_L = grid(alpha_1=[-1, 1, 2.5], alpha_2=[1, 0, 5.5], mmin=[2, 7.5], mmax=[60], break_fraction=[0.2, 0.9])
PK = [dict(lam=0.2, mpp=35, sigpp=4), dict(lam=0.7, mpp=10.0, sigpp=1.5), dict(lam=0, mpp=30, sigpp=1)]
PK_L = grid(lam=[0, 0.3, 1], mpp=[30, 8.0], sigpp=[1, 6.0])
PK2 = [dict(lam=0.2, lam_1=0.4, mpp_1=10, sigpp_1=2, mpp_2=35, sigpp_2=5.0),
       dict(lam=0.8, lam_1=1, mpp_1=20, sigpp_1=2.5, mpp_2=60, sigpp_2=3),
       dict(lam=1, lam_1=0.1, mpp_1=8, sigpp_1=1, mpp_2=30, sigpp_2=9)]


def mix(*lists):
    return [dict(sum((list(d.items()) for d in ds), [])) for ds in zip(*lists)]


def cross(*lists):
    return [dict(sum((list(d.items()) for d in ds), [])) for ds in itertools.product(*lists)]


B3 = [dict(beta=1.2), dict(beta=-1), dict(beta=0)]
NP, NB, NK = {"alpha", "mmin", "mmax"}, set(BPL[0]), set(PK[0])
NK2 = set(PK2[0])
GMM = {"gaussian_mass_maximum"}

add("power_law_mass", mass_function("power_law_mass"), NP, POW,
    lambda d, p: O.power_law_mass(d["mass_1"], **p), POW_L, field="mass_1")
add("double_power_law_primary_mass", mass_function("double_power_law_primary_mass"), NB, BPL,
    lambda d, p: O.bpl(d["mass_1"], **p), BPL_L, field="mass_1")
add("double_power_law_peak_primary_mass", mass_function("double_power_law_peak_primary_mass"), NB | NK | GMM,
    mix(BPL, PK, [dict(gaussian_mass_maximum=g) for g in (100, 60, 80)]), lambda d, p: O.bpl_peak(d["mass_1"], **p),
    cross(BPL, PK_L), field="mass_1", optional=GMM)
add("two_component_single", mass_function("two_component_single"), NP | NK | GMM,
    mix(POW, PK, [dict(gaussian_mass_maximum=g) for g in (100, 60, 80)]),
    lambda d, p: O.two_component(d["mass_1"], **p), cross(POW, PK_L), field="mass_1", optional=GMM)
add("three_component_single", mass_function("three_component_single"), NP | NK2 | GMM,
    mix(POW, PK2, [dict(gaussian_mass_maximum=g) for g in (100, 60, 80)]),
    lambda d, p: O.three_component(d["mass_1"], **p), cross(POW, PK2), field="mass_1", optional=GMM)


def ratio(f):
    def oracle(d, p):
        p = dict(p)
        beta = p.pop("beta")
        return f(d["mass_1"], **p) * O.p_q(d["mass_1"], d["mass_ratio"], beta, p["mmin"])

    return oracle


def secondary(d, p):
    p = dict(p)
    beta = p.pop("beta", p["alpha"])
    one = O.power_law_mass(d["mass_1"], **p)
    two = O.power_law_mass(d["mass_2"], **dict(p, alpha=beta))
    return 2 * one * two * (O.A(d["mass_1"]) >= O.A(d["mass_2"]))


def secondary_peak(d, p):
    rest = p["mmin"], p["mmax"], p["lam"], p["mpp"], p["sigpp"], p.get("gaussian_mass_maximum", 100)
    one = O.two_component(d["mass_1"], p["alpha"], *rest)
    two = O.two_component(d["mass_2"], p.get("beta", p["alpha"]), *rest)
    return 2 * one * two * (O.A(d["mass_1"]) >= O.A(d["mass_2"]))


BETA_L = [dict(beta=b) for b in (-2, -1, 0, 3.5)]
add("power_law_primary_mass_ratio", mass_function("power_law_primary_mass_ratio"), NP | {"beta"}, mix(POW, B3),
    ratio(O.power_law_mass), cross(POW_L[::2], BETA_L))
add("double_power_law_primary_power_law_mass_ratio", mass_function("double_power_law_primary_power_law_mass_ratio"),
    NB | {"beta"}, mix(BPL, B3), ratio(O.bpl), cross(BPL_L[::3], BETA_L))
add("two_component_primary_mass_ratio", mass_function("two_component_primary_mass_ratio"),
    NP | NK | {"beta"} | GMM, mix(POW, PK, B3, [dict(gaussian_mass_maximum=g) for g in (100, 60, 80)]),
    ratio(O.two_component), cross(POW, PK_L[::2], BETA_L[1:3]), optional=GMM)
add("power_law_primary_secondary_independent", mass_function("power_law_primary_secondary_independent"),
    NP | {"beta"}, mix(POW, B3), secondary, cross(POW_L[::2], BETA_L))
add("power_law_primary_secondary_identical", mass_function("power_law_primary_secondary_identical"),
    NP, POW, secondary, POW_L)
add("two_component_primary_secondary_independent", mass_function("two_component_primary_secondary_independent"),
    NP | NK | {"beta"} | GMM, mix(POW, PK, B3, [dict(gaussian_mass_maximum=g) for g in (100, 60, 80)]), secondary_peak,
    cross(POW, PK_L[::2], BETA_L[1:3]), optional=GMM)
add("two_component_primary_secondary_identical", mass_function("two_component_primary_secondary_identical"),
    NP | NK | GMM, mix(POW, PK, [dict(gaussian_mass_maximum=g) for g in (100, 60, 80)]), secondary_peak,
    cross(POW, PK_L), optional=GMM)

# ------------------------------------------------------------------ mass, smoothed
GRID = dict(mmin=2, mmax=100, normalization_shape=(41, 30))
SM = [dict(delta_m=4.0), dict(delta_m=0), dict(delta_m=0.5)]
SM_L = [dict(delta_m=d) for d in (0, 0.01, 3, 20.0)]


def smoothed(name, config, base, names, lattice, tag=""):
    kw = dict(config)
    shape = kw["normalization_shape"]
    other = dict(kw, mmin=1, mmax=160, normalization_shape=(37, 26))
    add(name + tag, lambda api: S.make(api, name, **kw), names | {"beta", "delta_m"},
        mix(base, B3, SM), lambda d, p: S.expected(name, d, p, lo=kw["mmin"], hi=kw["mmax"], shape=shape),
        cross(lattice, BETA_L[1::2], SM_L), rtol=1e-6, family="smoothed",
        alt=(lambda api: S.make(api, name, **other),
             lambda d, p: S.expected(name, d, p, lo=1, hi=160, shape=(37, 26))))


smoothed("SinglePeakSmoothedMassDistribution", GRID, mix(POW, PK), NP | NK, cross(POW, PK_L[::5]))
smoothed("SinglePeakSmoothedMassDistribution", dict(GRID, cache=False), mix(POW, PK), NP | NK, cross(POW[:1], PK[:1]),
         tag="-uncached")
smoothed("MultiPeakSmoothedMassDistribution", GRID, mix(POW, PK2), NP | NK2, cross(POW[:2], PK2))
smoothed("BrokenPowerLawSmoothedMassDistribution", GRID, BPL, NB, BPL_L[::5])
smoothed("BrokenPowerLawPeakSmoothedMassDistribution", GRID, mix(BPL, PK), NB | NK, cross(BPL[:2], PK))
smoothed("UserPowerLaw", dict(mmin=1, mmax=150.0, normalization_shape=(50, 33)), POW, NP, POW_L[::4])

# ------------------------------------------------------------------ splines


def spline_params(base, lo, hi, n, values, rms=None, log=False, extra=None):
    xs = np.geomspace(lo, hi, n) if log else np.linspace(lo, hi, n)
    out = {f"{base}{ii}": float(x) for ii, x in enumerate(xs)}
    out[f"{base}{n - 1}"] = float(hi)
    out.update({f"f{base}{ii}": float(v) for ii, v in enumerate(values[:n])})
    if rms is not None:
        out[f"rms{base}"] = rms
    out.update(extra or {})
    return out


V = [[0.3, -1.0, 0.8, 0.1, -0.4, 0.9, -0.2, 0.5], [0.0, 0.0, 2.0, -2.0, 0.5, 1.0, 0.3, -1.0],
     [-1.0, 0.5, 0.25, 1.5, 1.0, -0.7, 0.6, 0.2]]


def spline_oracle(parameters, lo, hi, kind, n, regularize):
    base = parameters[0].strip("_1")

    def oracle(d, p, at=None):
        xs = [p[f"{base}{ii}"] for ii in range(n)]
        fs = [p[f"f{base}{ii}"] for ii in range(n)]
        return O.spline_identical(d, parameters, xs, fs, lo, hi, kind, n,
                                  p[f"rms{base}"] if regularize else None, at=at)

    return oracle


def spline(name, cls, parameters, lo, hi, n, kind, regularize, ranges):
    base = parameters[0].strip("_1")
    names = {f"{base}{ii}" for ii in range(n)} | {f"f{base}{ii}" for ii in range(n)}
    if regularize:
        names |= {f"rms{base}"}
    kw = dict(nodes=n, kind=kind, regularize=regularize)
    params = [spline_params(base, *r, n, v, s if regularize else None) for r, v, s in zip(ranges, V, (1.0, 0.4, 2.5))]

    def make(api, kw=kw, hi=hi):
        if cls == "InterpolatedNoBaseModelIdentical":
            return api.interped.InterpolatedNoBaseModelIdentical(
                parameters=list(parameters), minimum=lo, maximum=hi, **kw)
        return getattr(api.spin, cls)(minimum=lo, maximum=hi, **kw)

    kind2 = dict(cubic="linear", linear="cubic")[kind]
    kw2, hi2 = dict(kw, kind=kind2), 1.25 * hi
    add(name, make, names, params, spline_oracle(parameters, lo, hi, kind, n, regularize), rtol=1e-7, family="spline",
        alt=(lambda api: make(api, kw2, hi2), spline_oracle(parameters, lo, hi2, kind2, n, regularize)),
        lattice=params + [spline_params(base, *r, n, v, 1.5 if regularize else None) for r in ranges for v in V[::-1]])


A12, T12 = ["a_1", "a_2"], ["cos_tilt_1", "cos_tilt_2"]
spline("SplineSpinMagnitudeIdentical", "SplineSpinMagnitudeIdentical", A12, 0, 1, 5, "cubic", False,
       [(0, 1), (0, 1), (0.1, 0.95)])
spline("SplineSpinMagnitudeIdentical-regularized", "SplineSpinMagnitudeIdentical", A12, 0, 1, 4, "cubic", True,
       [(0, 1), (0.1, 0.9), (0, 1)])
spline("SplineSpinTiltIdentical", "SplineSpinTiltIdentical", T12, -1, 1, 5, "cubic", False,
       [(-1, 1), (-1, 1), (-0.8, 0.9)])
spline("SplineSpinTiltIdentical-linear", "SplineSpinTiltIdentical", T12, -1, 1, 6, "linear", True,
       [(-1, 1), (-0.9, 1), (-1, 1)])
spline("InterpolatedNoBaseModelIdentical-redshift", "InterpolatedNoBaseModelIdentical", ["redshift"], 0.0, 2.5, 6,
       "cubic", False, [(0.0, 2.5), (0.0, 2.0), (0.0, 2.5)])
spline("InterpolatedNoBaseModelIdentical-linear", "InterpolatedNoBaseModelIdentical", ["chi_p"], 0.0, 1.0, 4,
       "linear", False, [(0.0, 1.0), (0.0, 1.0), (0.25, 1.0)])


def powerlaw_spline(name, n, kind, regularize):
    lo, hi, shape = 2, 100, (60, 30)
    base = "mass"
    kind2 = dict(cubic="linear", linear="cubic")[kind]
    names = NP | {"beta", "delta_m"} | {f"mass{ii}" for ii in range(n)} | {f"fmass{ii}" for ii in range(n)}
    if regularize:
        names |= {"rmsmass"}

    def points(values, r, extra, s):
        return spline_params(base, *r, n, values, s if regularize else None, log=True, extra=extra)

    params = [points(v, r, e, s) for v, r, e, s in
              zip(V, [(2, 100), (2, 100), (3.0, 90.0)], mix(POW, B3, SM), (1.0, 0.4, 2.5))]

    def oracle(d, p, kind=kind, hi=hi, at=None):
        xs = [p[f"mass{ii}"] for ii in range(n)]
        fs = O.A([p[f"fmass{ii}"] for ii in range(n)])
        if regularize:
            fs = fs * p["rmsmass"] / np.sqrt(np.mean(fs**2))

        def factor(m):
            inside = (m >= xs[0]) & (m <= xs[-1])
            with np.errstate(all="ignore"):
                return np.where(inside, np.exp(O.spline(np.log(at or xs), fs, np.log(m), kind)), 0.0)

        return O.smoothed(d, O.power_law_mass, p["beta"], p["delta_m"], p["mmin"], lo, hi, shape,
                          m1_factor=factor, always_norm=True, alpha=p["alpha"], mmax=p["mmax"])

    add(name, lambda api: api.mass.InterpolatedPowerlaw(
        nodes=n, kind=kind, mmin=lo, mmax=hi, normalization_shape=shape, regularize=regularize),
        names, params, oracle, rtol=1e-6, family="smoothed",
        alt=(lambda api: api.mass.InterpolatedPowerlaw(
            nodes=n, kind=kind2, mmin=lo, mmax=150, normalization_shape=shape, regularize=regularize),
            lambda d, p: oracle(d, p, kind2, 150)),
        lattice=params + [points(v, (2, 100), e, 1.5) for v in V[1:] for e in cross(POW[:2], BETA_L[1:3], SM_L[::2])])


powerlaw_spline("InterpolatedPowerlaw", 6, "cubic", False)
powerlaw_spline("InterpolatedPowerlaw-regularized", 5, "linear", True)

# ------------------------------------------------------------------ spins


def spin_function(name):
    return lambda api: getattr(api.spin, name)


def tilt(d, xi_spin, sigma_1, sigma_2, mu_1=1, mu_2=1):
    return O.spin_tilt(d, xi_spin, sigma_1, sigma_2, mu_1, mu_2)


MAG = [dict(amax=1, alpha_chi=2, beta_chi=3.5), dict(amax=0.8, alpha_chi=1.2, beta_chi=1), dict(amax=1, alpha_chi=4, beta_chi=2)]
MAG_L = grid(amax=[1, 0.7], alpha_chi=[0.6, 1, 1.5, 8], beta_chi=[1, 2, 6.5])
TILT = [dict(xi_spin=0.4, sigma_spin=0.5), dict(xi_spin=1, sigma_spin=2), dict(xi_spin=0, sigma_spin=0.1)]
TILT_L = grid(xi_spin=[0, 0.3, 1], sigma_spin=[0.01, 1, 4.0])


def iid(d, p):
    return O.spin_mag(d, p["alpha_chi"], p["alpha_chi"], p["beta_chi"], p["beta_chi"], p["amax"], p["amax"])


def iid_tilt(d, p):
    mu = p.get("mu_spin", 1)
    return tilt(d, p["xi_spin"], p["sigma_spin"], p["sigma_spin"], mu, mu)


add("iid_spin", spin_function("iid_spin"), set(MAG[0]) | set(TILT[0]), mix(MAG, TILT),
    lambda d, p: iid(d, p) * iid_tilt(d, p), cross(MAG, TILT_L))
add("iid_spin_magnitude_beta", spin_function("iid_spin_magnitude_beta"), set(MAG[0]), MAG, iid, MAG_L,
    optional=set(MAG[0]))
MAG2 = [dict(alpha_chi_1=2, alpha_chi_2=1.5, beta_chi_1=3, beta_chi_2=1, amax_1=1, amax_2=0.8),
        dict(alpha_chi_1=1, alpha_chi_2=2.5, beta_chi_1=1.5, beta_chi_2=4, amax_1=0.9, amax_2=1),
        dict(alpha_chi_1=5, alpha_chi_2=1, beta_chi_1=1, beta_chi_2=2, amax_1=1, amax_2=1)]
add("independent_spin_magnitude_beta", spin_function("independent_spin_magnitude_beta"), set(MAG2[0]), MAG2,
    lambda d, p: O.spin_mag(d, **p))
add("iid_spin_orientation_gaussian_isotropic", spin_function("iid_spin_orientation_gaussian_isotropic"),
    set(TILT[0]) | {"mu_spin"}, mix(TILT, [dict(mu_spin=m) for m in (1, 0.2, -1)]), iid_tilt,
    cross(TILT_L, [dict(), dict(mu_spin=-0.3)]), optional={"mu_spin"})
TILT2 = [dict(xi_spin=0.4, sigma_1=0.5, sigma_2=2, mu_1=0.9, mu_2=-0.2),
         dict(xi_spin=1, sigma_1=0.3, sigma_2=1, mu_1=1, mu_2=1),
         dict(xi_spin=0.8, sigma_1=3, sigma_2=0.2, mu_1=-1, mu_2=0.4)]
add("independent_spin_orientation_gaussian_isotropic",
    spin_function("independent_spin_orientation_gaussian_isotropic"), set(TILT2[0]), TILT2,
    lambda d, p: tilt(d, **p), optional={"mu_1", "mu_2"})
CE = [dict(mu_chi_eff=0.1, sigma_chi_eff=0.2), dict(mu_chi_eff=-0.5, sigma_chi_eff=1), dict(mu_chi_eff=1, sigma_chi_eff=0.4)]
CP = [dict(mu_chi_p=0.3, sigma_chi_p=0.2), dict(mu_chi_p=1, sigma_chi_p=0.6), dict(mu_chi_p=0, sigma_chi_p=1)]
COV = [dict(spin_covariance=c) for c in (0.4, 0, -0.7)]
add("gaussian_chi_eff", spin_function("gaussian_chi_eff"), set(CE[0]), CE,
    lambda d, p: O.truncnorm(d["chi_eff"], p["mu_chi_eff"], p["sigma_chi_eff"], 1, -1),
    grid(mu_chi_eff=[-1, 0, 0.4, 3], sigma_chi_eff=[0.05, 0.5, 2]))
add("gaussian_chi_p", spin_function("gaussian_chi_p"), set(CP[0]), CP,
    lambda d, p: O.truncnorm(d["chi_p"], p["mu_chi_p"], p["sigma_chi_p"], 1, 0),
    grid(mu_chi_p=[-1, 0, 0.4, 3], sigma_chi_p=[0.05, 0.5, 2]))
add("GaussianChiEffChiP", lambda api: api.spin.GaussianChiEffChiP(), set(CE[0]) | set(CP[0]) | set(COV[0]),
    mix(CE, CP, COV), lambda d, p: O.chi_eff_chi_p(d, **p), cross(CE, CP, COV), family="chi")

# ------------------------------------------------------------------ redshift
COSMO = {
    "Planck15": ({}, (67.74, 0.3075, -1.0)),
    "FlatLambdaCDM": (dict(H0=70.0, Om0=0.3), None),
    "FlatwCDM": (dict(H0=65.0, Om0=0.25, w0=-0.8), None),
}


def redshift(cls, cosmo_model, z_max, base, psi, lattice):
    cosmo, _ = COSMO[cosmo_model]
    changes = [dict(cosmo), {k: v * f for (k, v), f in zip(cosmo.items(), (1.2, 0.8, 1.1))}, dict(cosmo)]
    names = set(base[0]) | set(cosmo)

    def oracle(d, p, z_max=z_max):
        c = (p.get("H0", 67.74), p.get("Om0", 0.3075), p.get("w0", -1.0))
        z = O.A(d["redshift"])
        f = lambda z: psi(z, p) * O.dvc_dz(z, *c) / (1 + z)
        zs = np.linspace(1e-6, z_max, 2500)
        return np.where(z <= z_max, f(z) / O.trapz(f(zs), zs), 0.0)

    add(f"{cls}-{cosmo_model}", lambda api: getattr(api.redshift, cls)(z_max=z_max, cosmo_model=cosmo_model),
        names, mix(base, changes), oracle, cross(lattice, changes[:2] if cosmo else [{}]), rtol=3e-5,
        family="redshift",
        alt=(lambda api: getattr(api.redshift, cls)(z_max=z_max + 1, cosmo_model=cosmo_model),
             lambda d, p: oracle(d, p, z_max + 1)))


LAMB = [dict(lamb=2.7), dict(lamb=0), dict(lamb=-3.0)]
MD = [dict(gamma=2.7, kappa=5.6, z_peak=1.9), dict(gamma=0, kappa=-1, z_peak=0.5), dict(gamma=-1.0, kappa=3, z_peak=2)]
for _c, _z in (("Planck15", 2.3), ("FlatLambdaCDM", 1.5), ("FlatwCDM", 2)):
    redshift("PowerLawRedshift", _c, _z, LAMB, lambda z, p: O.psi_powerlaw(z, p["lamb"]),
             [dict(lamb=v) for v in (-8, -1, 0, 1, 4.5)])
    redshift("MadauDickinsonRedshift", _c, _z, MD,
             lambda z, p: O.psi_md(z, p["gamma"], p["kappa"], p["z_peak"]),
             grid(gamma=[-2, 0, 2.7], kappa=[0, 5.6], z_peak=[0.3, 2]))
