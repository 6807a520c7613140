"""C02: numpy and jax backends compute the same numbers."""
import functools

import numpy as np

from mc import catalogue as C
from mc import like as L
from mc.api import Api
from mc.core import Violation, as_numpy, close_mask, explore_dfs

RTOL = 3e-6  # jax's special functions (betaln, log_ndtr) reach about 1e-6
ORDERS = [("numpy", "jax"), ("jax", "numpy"), ("numpy", "jax", "numpy", "jax"), ("jax", "numpy", "jax")]


@functools.lru_cache(None)
def number(kind, value):
    if kind == "float64" and isinstance(value, (int, float)):
        return np.float64(value)
    return value


def same(ch, name, values, rtol=RTOL, atol=1e-290):
    """values: list of (backend, value) in the order of evaluation"""
    reference = next(np.asarray(as_numpy(v), dtype=float) for b, v in values if b == "numpy")
    for backend, value in values:
        ch.equal(f"{name} under {backend}", value, reference, rtol=rtol if backend == "jax" else 1e-12, atol=atol)


def run(group, tier, stats, findings):
    kind, _, shard = group.partition(":")
    th = tier == "thorough"

    if kind == "models":
        names = list(C.ENTRIES)[int(shard)::8]

        def models(ch):
            entry = C.ENTRIES[ch.choose("model", names)]
            order = ch.choose("order", ORDERS)
            numbers = ch.choose("numbers", ["python", "float64", "array"])
            basic = order == ORDERS[0]
            plain = numbers == "python"
            content = ch.choose("dataset", ["A", "B", "C", "D", "E", "F"] if basic and plain else ["E"] if basic or plain or th else ["D"])
            lattice = entry.params + (entry.lattice if (basic and (plain or th)) else entry.lattice[::7])
            values = {}
            for backend in order:
                api = ch.op(f"set_backend {backend}", Api, backend)
                model = ch.op("construct", entry.make, api)
                data = api.data(C.dataset(content))
                for ii, par in enumerate(lattice):
                    if numbers == "array":
                        par = {k: api.arr(v) for k, v in par.items()}
                    else:
                        par = {k: number(numbers, v) for k, v in par.items()}
                    got = ch.op(f"{entry.name} {lattice[ii]}", entry.call, model, data, par)
                    values.setdefault(ii, []).append((backend, got))
                    check_type(ch, api, got)
            for ii, found in values.items():
                same(ch, f"{entry.name} at {lattice[ii]}", found, rtol=max(RTOL, entry.rtol))

        explore_dfs(models, stats, "models", findings)
        return
    if kind == "primitives":
        primitives(th, stats, findings)
    else:
        dict(selection=selection, likelihood=likelihood)[kind](shard, th, stats, findings)


def check_type(ch, api, got):
    """the result belongs to the backend in use"""
    module = type(got).__module__
    ch.check(module.startswith("jax") == (api.backend == "jax"), f"{api.backend} returned {type(got)}")
    if hasattr(got, "dtype"):
        ch.check(str(got.dtype) == "float64", f"{api.backend} returned {got.dtype}")


# ------------------------------------------------------------------ primitives
X = np.array([0.0, 1e-3, 0.3, 0.5, 0.999, 1.0, 1.001, 2.0, 5.0, 20.0, 50.0, -0.5, -3.0])


def lattice_primitives():
    out = []
    for low, high in ((0.3, 5.0), (1, 20), (0, 1), (0.0, 50.0), (5.0, 0.3)):
        for alpha in (-4, -2.5, -1.004, -1, -1.0, -0.99999, -0.997, -0.5, 0, 1e-3, 1, 3.3, 10):
            if low == 0 and alpha <= -1:
                continue
            out.append(("powerlaw", "x", dict(alpha=alpha, high=high, low=low)))
    for mu in (-3.0, 0, 1e-3, 0.5, 20, 400.0):
        for sigma in (1e-2, 1, 7.5):
            for low, high in ((0, 1), (-1.0, 1.0), (2, 50)):
                out.append(("truncnorm", "x", dict(mu=mu, sigma=sigma, high=high, low=low)))
    for a in (0.3, 1, 1.0, 1.003, 1.7, 2, 40):
        for b in (0.5, 1, 3, 12.5):
            for s in (1, 0.5, 1.0, 3):
                out.append(("beta_dist", "x" if a >= 1 and b >= 1 else "inner", dict(alpha=a, beta=b, scale=s)))
    for mu in (-2, 0, 3.1):
        for kappa in (0, 1e-6, 1e-3, 0.05, 1, 4, 50.0, 300, 1e4):
            out.append(("von_mises", "x", dict(mu=mu, kappa=kappa)))
    for rho in (-0.9, 0, 0.3):
        for sx, sy in ((1, 0.2), (0.5, 3), (2.0, 2)):
            out.append(("unnormalized_2d_gaussian", "xy", dict(
                mu_x=0.1, mu_y=-0.4, sigma_x=sx, sigma_y=sy, covariance=rho)))
    return out


ARRAYS = [
    ("powerlaw", dict(alpha=-1.0, high=np.linspace(2, 60, 13), low=np.linspace(0.1, 2, 13))),
    ("powerlaw", dict(alpha=np.linspace(-3, 3, 13), high=20.0, low=0.3)),
    ("powerlaw", dict(alpha=1.5, high=1, low=np.linspace(0.0, 0.9, 13))),
    ("truncnorm", dict(mu=np.linspace(-2, 2, 13), sigma=np.linspace(0.2, 3, 13), high=1.5, low=-1)),
    ("beta_dist", dict(alpha=np.linspace(1, 3, 13), beta=2.0, scale=np.linspace(0.5, 2, 13))),
    ("von_mises", dict(mu=np.linspace(-3, 3, 13), kappa=2.5)),
]


def primitives(th, stats, findings):
    lattice = lattice_primitives()

    def single(ch):
        names = ["powerlaw", "truncnorm", "beta_dist", "von_mises", "unnormalized_2d_gaussian"]
        name = ch.choose("distribution", names)
        order = ch.choose("order", ORDERS if th else ORDERS[:2])
        shape = ch.choose("shape", ["1d", "2d", "scalar"])
        found = {}
        for backend in order:
            api = ch.op(f"set_backend {backend}", Api, backend)
            func = getattr(api.utils, name)
            for ii, (n, points, par) in enumerate(lattice):
                if n != name:
                    continue
                x = X if points != "inner" else np.linspace(0.1, 0.45, 13)
                x = {"1d": x, "2d": x[:12].reshape(3, 4), "scalar": x[3]}[shape]
                args = [api.arr(x) if shape != "scalar" else float(x)]
                if points == "xy":
                    args.append(args[0] * 0.7 - 0.1)
                got = ch.op(f"{name} {par}", func, *args, **par)
                found.setdefault((ii,), []).append((backend, got))
            for ii, (n, par) in enumerate(ARRAYS):
                if n == name and shape == "1d":
                    par = {k: api.arr(v) if np.ndim(v) else v for k, v in par.items()}
                    got = ch.op(f"{name} with arrays", func, api.arr(X), **par)
                    found.setdefault(("array", ii), []).append((backend, got))
        for key, values in found.items():
            what = lattice[key[0]] if len(key) == 1 else ARRAYS[key[1]]
            same(ch, f"{what}", values)

    def other(ch):
        order = ch.choose("order", ORDERS)
        what = ch.choose("function", ["four volume", "beta conversion", "window", "redshift parts", "frames"])
        found = {}
        for backend in order:
            api = ch.op(f"set_backend {backend}", Api, backend)

            def keep(key, value):
                found.setdefault(key, []).append((backend, value))

            if what == "four volume":
                for lamb in (-3, 0, 2.7):
                    for z in (2.3, 0.5):
                        keep((lamb, z), ch.op("total_four_volume", api.redshift.total_four_volume, lamb, 1.5, max_redshift=z))
            elif what == "beta conversion":
                for args in ((2.0, 3.0, 1.0), (1, 1, 0.8), (np.linspace(1, 4, 5), np.linspace(2, 9, 5), 1.0)):
                    args = [api.arr(a) if np.ndim(a) else a for a in args]
                    one = ch.op("alpha_beta_max_to_mu_var_max", api.conversions.alpha_beta_max_to_mu_var_max, *args)
                    for k, v in enumerate(one):
                        keep((repr(args[0]).count("0") and str(np.shape(args[0])), k, "stat", str(args[2])), v)
                    two = ch.op("mu_var_max_to_alpha_beta_max", api.conversions.mu_var_max_to_alpha_beta_max, *one)
                    for k, v in enumerate(two):
                        keep((str(np.shape(args[0])), k, "shape", str(args[2])), v)
                for par in (dict(mu_chi=0.3, sigma_chi=0.02, amax=1), dict(mu_chi_1=0.3, sigma_chi_1=0.02, amax_1=1.0, mu_chi_2=0.2, sigma_chi_2=0.01, amax_2=0.9)):
                    new, _ = ch.op("convert_to_beta_parameters", api.conversions.convert_to_beta_parameters, dict(par))
                    for k, v in new.items():
                        keep((len(par), k), v)
            elif what == "window":
                smoothing = api.mass.BaseSmoothedMassDistribution.smoothing
                m = api.arr([1.0, 4.999999, 5.0, 5.0001, 6.0, 7.5, 9.9, 10.0, 11.0, 80.0, 80.1])
                for delta in (0.0, 1e-4, 1, 5.0, 40):
                    if delta == 0.0:  # without smoothing numpy applies no cut at all in here
                        m0 = api.arr([5.5, 6.0, 60.0])
                        keep(delta, ch.op("smoothing", smoothing, m0, 5.0, 80.0, delta))
                        continue
                    keep(delta, ch.op("smoothing", smoothing, m, 5.0, 80.0, delta))
            elif what == "redshift parts":
                for cls, par in (("PowerLawRedshift", dict(lamb=1.3)), ("MadauDickinsonRedshift", dict(gamma=2.0, kappa=4, z_peak=1.0))):
                    for cosmo, (cpar, _) in C.COSMO.items():
                        model = ch.op("construct", getattr(api.redshift, cls), z_max=1.7, cosmo_model=cosmo)
                        kw = dict(par, **cpar)
                        z = dict(redshift=api.arr([1e-3, 0.4, 1.7, 1.71, 4.0]))
                        keep((cls, cosmo, "norm"), ch.op("normalisation", model.normalisation, kw))
                        keep((cls, cosmo, "dv"), ch.op("volume", model.differential_spacetime_volume, z, bounds=True, **kw))
                        keep((cls, cosmo, "dv0"), ch.op("volume", model.differential_spacetime_volume, z, **kw))
                        keep((cls, cosmo, "psi"), ch.op("psi", model.psi_of_z, z["redshift"], **kw))
                        keep((cls, cosmo, "dvc"), ch.op("dvc_dz", model.dvc_dz, z["redshift"], **kw))
            else:
                for cosmo, (cpar, _) in C.COSMO.items():
                    mixin = ch.op("construct", api.cosmo.CosmoMixin, cosmo)
                    data = api.data(dict(mass_1_detector=[30.0, 50.0], luminosity_distance=[500.0, 3000.0], a_1=[0.1, 0.2]))
                    new, jac = ch.op("convert", mixin.detector_frame_to_source_frame, data, **cpar)
                    for k, v in new.items():
                        keep((cosmo, k), v)
                    keep((cosmo, "jacobian"), jac)
        for key, values in found.items():
            ch.check(len(values) == len(order), f"{key}: present under {[b for b, _ in values]} only")
            same(ch, f"{what} {key}", values)

    explore_dfs(single, stats, "single", findings)
    explore_dfs(other, stats, "other", findings)


# ------------------------------------------------------------------ selection
def world(api, which):
    """the population models used below: (models, hyperparameter points)"""
    E = C.ENTRIES
    if which == "smoothed":
        entries = [E["SinglePeakSmoothedMassDistribution"], E["PowerLawRedshift-Planck15"]]
    elif which == "spline":
        entries = [E["SplineSpinMagnitudeIdentical"], E["iid_spin_orientation_gaussian_isotropic"]]
    elif which == "cosmology":
        entries = [E["MadauDickinsonRedshift-FlatLambdaCDM"], E["power_law_primary_mass_ratio"]]
    else:
        entries = [E["InterpolatedPowerlaw"], E["gaussian_chi_eff"]]
    models = [e.make(api) for e in entries]
    points = C.mix(*[e.params for e in entries])
    return models, points


def injections(n=8):
    base = C.dataset("A"), C.dataset("B")
    out = {k: np.concatenate([base[0][k], base[1][k]])[:n] for k in base[0]}
    out["prior"] = 0.01 * (1 + np.arange(n) % 3)
    return out


def selection(which, th, stats, findings):
    from bilby.hyper.model import Model

    def resampling(ch):
        order = ch.choose("order", ORDERS)
        marginalize = ch.choose("marginalize", [False, True])
        enforce = ch.choose("enforce", [True, False])
        n_events = ch.choose("events", [1, 1000])
        found = {}
        for backend in order:
            api = ch.op(f"set_backend {backend}", Api, backend)
            models, points = world(api, which)
            data = api.data(injections())
            data["total_generated"] = 40
            data["analysis_time"] = 0.7
            vt = ch.op("ResamplingVT", api.vt.ResamplingVT, Model(models, cache=False), data, n_events=n_events,
                       marginalize_uncertainty=marginalize, enforce_convergence=enforce)
            for ii, par in enumerate(points):
                for name, query in (("call", vt), ("efficiency", vt.detection_efficiency),
                                    ("factor", vt.vt_factor), ("volume", vt.surveyed_hypervolume)):
                    got = ch.op(name, query, dict(par))
                    for k, v in enumerate(got if isinstance(got, tuple) else (got,)):
                        found.setdefault((name, ii, k), []).append((backend, v))
        for key, values in found.items():
            scale = 1e-18 if key[-1] == 1 else 0.0  # the variance is a difference
            same(ch, f"{key}", values, rtol=3e-5, atol=scale)

    def grid(ch):
        order = ch.choose("order", ORDERS)
        shape = ch.choose("shape", [(3, 4), (4, 4), (5, 3)])
        found = {}
        m1 = np.linspace(4, 60, shape[0])
        q = np.linspace(0.1, 1, shape[1])
        mg, qg = np.meshgrid(m1, q, indexing="ij")
        for backend in order:
            api = ch.op(f"set_backend {backend}", Api, backend)
            entry = C.ENTRIES["power_law_primary_mass_ratio"]
            data = api.data(dict(mass_1=mg, mass_ratio=qg, vt=mg**2.1 * (1 + qg)))
            vt = ch.op("GridVT", api.vt.GridVT, entry.make(api), data)
            for ii, par in enumerate(entry.params):
                found.setdefault(ii, []).append((backend, ch.op("call", vt, dict(par))))
        for key, values in found.items():
            same(ch, f"grid {key}", values)

    explore_dfs(resampling, stats, "resampling", findings)
    if which == "spline":
        explore_dfs(grid, stats, "grid", findings)


# ------------------------------------------------------------------ likelihoods
CLASSES = ["HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood"]


def likelihood(which, th, stats, findings):
    import pandas as pd
    from bilby.hyper.model import Model

    def posteriors(prior):
        out = []
        for name in ("A", "B"):
            frame = pd.DataFrame({k: v[:4] for k, v in C.dataset(name).items()})
            if prior:
                frame["prior"] = 0.2 + 0.1 * np.arange(4)
            out.append(frame)
        return out

    def real(ch):
        cls = ch.choose("class", CLASSES)
        order = ch.choose("order", ORDERS if th else ORDERS[::2] + ORDERS[1:2])
        limit = ch.choose("limit", [None, 0.9])
        chosen = ch.choose("selection", ["none", "vt", "marginalized"])
        found = {}
        for backend in order:
            api = ch.op(f"set_backend {backend}", Api, backend)
            models, points = world(api, which)
            kw = dict(posteriors=posteriors(True), hyper_prior=Model(models, cache=False))
            if limit is not None:
                kw["maximum_uncertainty"] = limit
            if chosen != "none":
                data = api.data(injections())
                data["total_generated"] = 40
                kw["selection_function"] = api.vt.ResamplingVT(
                    Model(models, cache=False), data, n_events=2, marginalize_uncertainty=chosen == "marginalized",
                    enforce_convergence=False)
            np.random.seed(5)
            like = ch.op(cls, getattr(api.hyperpe, cls), **kw)
            for ii, par in enumerate(points):
                par = dict(par, rate=3.5)
                found.setdefault((ii, "ratio"), []).append((backend, ch.op("ratio", like.log_likelihood_ratio, dict(par))))
                value, variance = ch.op("variance", like.ln_likelihood_and_variance, dict(par))
                found.setdefault((ii, "value"), []).append((backend, value))
                found.setdefault((ii, "variance"), []).append((backend, variance))
                extra = ch.op("statistics", like.generate_extra_statistics, dict(par))
                for k in sorted(set(extra) - set(par)):
                    found.setdefault((ii, k), []).append((backend, extra[k]))
                np.random.seed(11)
                found.setdefault((ii, "rate"), []).append(
                    (backend, ch.op("rate", like.generate_rate_posterior_sample, dict(par))))
            good = [dict(p, rate=2.0) for p in points[:2]]
            try:
                _, weights = ch.op("resample", like.posterior_predictive_resample, pd.DataFrame(good), return_weights=True)
            except ValueError:
                weights = np.array([-1.0])
            found.setdefault((0, "weights"), []).append((backend, weights))
        for key, values in found.items():
            if not any(np.isfinite(as_numpy(v)).all() for _, v in values):
                ok = {str(as_numpy(v)) for _, v in values}
                ch.check(len(ok) == 1, f"{key}: {ok}")
                continue
            same(ch, f"{key}", values, rtol=3e-5, atol=1e-12)

    WEIGHTS = {
        "plain": [[1.0, 2.0, 0.5], [0.25, 4.0, 3.0]],
        "large": [[1e6, 2e7, 0.5], [1e9, 4e8, 3.0]],
        "equal": [[1.0, 1.0, 1.0], [1.0, 1.0, 1.0]],
        "zeros": [[1.0, 0.0, 0.5], [0.0, 0.0, 3.0]],
        "vanishing": [[1.0, 2.0, 0.5], [0.0, 0.0, 0.0]],
        "nan": [[1.0, np.nan, 0.5], [1.0, 2.0, 3.0]],
        "inf": [[1.0, np.inf, 0.5], [1.0, 2.0, 3.0]],
        "tiny": [[1e-200, 2e-200, 0.0], [1e-150, 1e-200, 1e-160]],
    }
    SELECTIONS = ["none", "number", "pair", "zero", "inf", "nan", "injections", "unconverged", "marginalized"]

    def exact(ch):
        """elementary populations: the backends agree to rounding, in the degenerate cases too"""
        cls = ch.choose("class", CLASSES)
        weights = ch.choose("weights", list(WEIGHTS))
        chosen = ch.choose("selection", SELECTIONS)
        limit = ch.choose("limit", [None, 0.5])
        prior = ch.choose("prior", [True, False])
        order = ch.choose("order", ORDERS if th else ORDERS[:1] if prior else ORDERS[1:2])
        table = np.array(WEIGHTS[weights]).ravel()
        found = {}
        for backend in order:
            api = ch.op(f"set_backend {backend}", Api, backend)
            values = api.arr(table)

            def population(dataset, scale):
                return values[dataset["i"].astype(int)] * (1 + dataset["x"]) * scale

            def flat(dataset, scale):
                return (1 + dataset["x"]) * scale

            posts = []
            for ii in range(2):
                frame = pd.DataFrame(dict(i=np.arange(3.0) + 3 * ii, x=0.1234567890123 * (1 + np.arange(3.0)) + ii / 3))
                if prior:
                    frame["prior"] = 0.2 + 0.1 * np.arange(3) / 7
                posts.append(frame)
            kw = dict(posteriors=posts, hyper_prior=Model([population], cache=False))
            if limit is not None:
                kw["maximum_uncertainty"] = limit
            number = dict(number=0.3, pair=(api.arr(0.3), api.arr(0.004)), zero=0.0, inf=np.inf, nan=np.nan)
            if chosen in number:
                kw["selection_function"] = lambda p: number[chosen]
            elif chosen != "none":
                inj = api.data(dict(x=0.1 + np.arange(5) / 7, prior=0.5 + np.arange(5) / 3))
                inj["total_generated"] = 11
                kw["selection_function"] = api.vt.ResamplingVT(
                    Model([flat], cache=False), inj, n_events=2 if chosen != "unconverged" else 1000,
                    marginalize_uncertainty=chosen == "marginalized")
            np.random.seed(3)
            like = ch.op(cls, getattr(api.hyperpe, cls), **kw)
            for key, value in like.data.items():
                check_type(ch, api, value)
            for ii, scale in enumerate((0.7, 3)):
                par = dict(scale=scale, rate=2.5)
                ratio = ch.op("ratio", like.log_likelihood_ratio, dict(par))
                value, variance = ch.op("variance", like.ln_likelihood_and_variance, dict(par))
                extra = ch.op("statistics", like.generate_extra_statistics, dict(par))
                got = dict(ratio=ratio, value=value, variance=variance)
                got.update({k: extra[k] for k in set(extra) - set(par)})
                for key, one in got.items():
                    found.setdefault((scale, key), []).append((backend, one))
        for key, many in found.items():
            first = np.asarray(as_numpy(many[0][1]), dtype=float)
            for backend, one in many[1:]:
                one = np.asarray(as_numpy(one), dtype=float)
                good = np.isfinite(first) == np.isfinite(one)
                if good and np.isfinite(first):
                    good = abs(first - one) <= 1e-11 * abs(first) + 1e-11
                elif good:
                    good = np.isnan(first) == np.isnan(one) and (np.isnan(one) or first == one)
                ch.check(good, lambda: f"{key}: {many[0][0]} gives {first}, {backend} gives {one}")

    if which == "exact":
        explore_dfs(exact, stats, "exact", findings)
    else:
        explore_dfs(real, stats, "real", findings)
