"""C08: spline models interpolate their nodes and are normalised."""
import numpy as np

from mc import catalogue as C
from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs

R = 1e-9
VALUES = {
    "flat": [0.0] * 9,
    "steps": [0.3, -1.0, 0.8, 0.1, -0.4, 0.9, -0.2, 0.5, 1.1],
    "large": [5.0, -6.0, 2.0, 7.0, -3.0, 0.5, 4.0, -5.0, 1.0],
    "one": [0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
}
VALUES = {k: (v + v[::-1])[:17] if k != "one" else v + [0.0] * 8 for k, v in VALUES.items()}
#        class, parameters, default range, log
MODELS = {
    "magnitude": ("SplineSpinMagnitudeIdentical", ["a_1", "a_2"], (0, 1), False),
    "tilt": ("SplineSpinTiltIdentical", ["cos_tilt_1", "cos_tilt_2"], (-1, 1), False),
    "redshift": ("Base", ["redshift"], (0.0, 2.5), False),
    "three": ("Base", ["x_1", "x_2", "x_3"], (-2.0, 3.0), False),
    "log": ("Base", ["mass_1", "mass_2"], (2.0, 90.0), True),
}


def node_positions(lo, hi, n, log):
    xs = np.geomspace(lo, hi, n) if log else np.linspace(lo, hi, n)
    xs[0], xs[-1] = lo, hi
    return [float(x) for x in xs]


def points(xs, lo, hi, kind, log):
    func, inv = (np.log, np.exp) if log else (np.asarray, np.asarray)
    u = func(np.array(xs))
    frac = [0.13, 0.5, 0.77] if kind != "nearest" else [0.13, 0.45, 0.77]
    pts = [inv(u[ii] + f * (u[ii + 1] - u[ii])) for ii in range(len(u) - 1) for f in frac]
    if kind == "nearest":
        pts += [xs[0], xs[-1]]
    else:
        pts += list(xs)
    eps = 1e-7 * (hi - lo)
    pts += [xs[0] - eps, xs[0] + eps, xs[-1] - eps, xs[-1] + eps, hi + 0.1 * (hi - lo), xs[0] * 0.99 - 1e-3]
    pts = np.array([float(p) for p in pts])
    if log:
        pts = pts[pts > 0]
    return pts


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    rtol = 1e-8 if backend == "numpy" else 1e-7
    kinds = ["cubic", "linear", "nearest"]

    def build(name, cls, parameters, lo, hi, log, n, kind, regularize, default):
        kw = dict(nodes=n, kind=kind, regularize=regularize)
        if not (default and lo is not None):
            kw.update(minimum=lo, maximum=hi)
        if cls == "Base":
            return api.interped.InterpolatedNoBaseModelIdentical(
                parameters=list(parameters), minimum=lo, maximum=hi, nodes=n, kind=kind, log_nodes=log,
                regularize=regularize)
        return getattr(api.spin, cls)(**kw)

    def dataset(parameters, pts, shape):
        n = len(pts) - len(pts) % 2
        pts = pts[:n] if shape == "2d" else pts
        out = {}
        for ii, par in enumerate(parameters):
            col = np.roll(pts, 5 * ii) if ii else pts
            out[par] = col.reshape(2, -1) if shape == "2d" else col
        return out

    def identical(ch):
        name = part
        cls, parameters, (lo, hi), log = MODELS[name]
        base = parameters[0].strip("_1")
        n = ch.choose("nodes", [4, 5, 6, 8, 10, 13] if th else [4, 5, 6, 11] if full else [4, 6])
        small = n < 7 or th
        kind = ch.choose("kind", kinds)
        rng = ch.choose("range", ["default", "wide"] if (cls == "Base" or full) and small else ["default"])
        if rng == "wide":
            lo, hi = (lo - 0.5, hi + 0.75) if not log else (lo * 0.7, hi * 1.5)
        span = ch.choose("node span", ["range", "inside"])
        regularize = ch.choose("regularize", [False, True])
        values = ch.choose("values", list(VALUES) if full and small else ["steps", "large"])
        if regularize and values == "flat":
            return
        surplus = ch.choose("surplus nodes", [0, 1, 2] if full and small else [0, 2])
        if n == 6 and surplus == 2:
            surplus = 9
        used = ch.choose("used before", [False, True]) if surplus else False
        shape = ch.choose("shape", ["1d", "2d"] if values == "steps" else ["1d"])
        width = hi - lo
        a, b = (lo, hi) if span == "range" else (lo + 0.07 * width, hi - 0.11 * width)
        model = ch.op("construct", build, name, cls, parameters, lo, hi, log, n, kind, regularize, rng == "default")
        rms = 0.7
        if used:
            xs = node_positions(a, b, n, log)
            par = {f"{base}{ii}": x for ii, x in enumerate(xs)}
            par.update({f"f{base}{ii}": v for ii, v in enumerate(VALUES["steps"][:n])})
            if regularize:
                par[f"rms{base}"] = rms
            pts = dataset(parameters, points(xs, lo, hi, kind, log), "1d")
            got = ch.op("evaluate", model, api.data(pts), **par)
            ch.equal("before the extension", got, O.spline_identical(
                pts, parameters, xs, VALUES["steps"][:n], lo, hi, kind, n, rms if regularize else None, log), rtol=rtol, atol=1e-290)
        m = n + surplus
        xs = node_positions(a, b, m, log)
        fs = VALUES[values][:m]
        par = {f"{base}{ii}": x for ii, x in enumerate(xs)}
        par.update({f"f{base}{ii}": v for ii, v in enumerate(fs)})
        if regularize:
            par[f"rms{base}"] = rms
        pts = dataset(parameters, points(xs, lo, hi, kind, log), shape)
        data = api.data(pts)
        guard = Guard(data, par)
        got = ch.op("evaluate", model, data, **par)
        guard.check(ch)
        exp = O.spline_identical(pts, parameters, xs, fs, lo, hi, kind, m, rms if regularize else None, log)
        val = as_numpy(got)
        ch.check(np.isfinite(val).all() and (val >= 0).all(), "not finite and non-negative")
        ch.equal("density", got, exp, rtol=rtol, atol=1e-290)
        # unrelated hyperparameters change nothing
        ch.equal("unrelated", ch.op("evaluate", model, data, mmin=3.0, **par), val, rtol=1e-14)
        names = set(model.variable_names)
        ch.check(names == set(par), lambda: f"declared {sorted(names)} instead of {sorted(par)}")
        # identical for each parameter: exchange the columns
        if len(parameters) > 1:
            swapped = dict(zip(parameters, [pts[p] for p in parameters[::-1]]))
            ch.equal("exchanged", ch.op("evaluate", model, api.data(swapped), **par), val, rtol=1e-9, atol=1e-290)
        # a fresh model built with the extended count agrees
        if surplus:
            fresh = ch.op("construct", build, name, cls, parameters, lo, hi, log, m, kind, regularize, rng == "default")
            ch.equal("fresh", ch.op("evaluate", fresh, data, **par), val, rtol=1e-12, atol=1e-300)
        # integrates to one per parameter
        if kind != "nearest" and values != "large" and span == "range":
            t, w = np.polynomial.legendre.leggauss(60)
            edges = np.array(xs)
            z = np.concatenate([0.5 * (u + v) + 0.5 * (v - u) * t for u, v in zip(edges[:-1], edges[1:])])
            ww = np.concatenate([0.5 * (v - u) * w for u, v in zip(edges[:-1], edges[1:])])
            if len(parameters) == 1:
                one = ch.op("evaluate", model, api.data({parameters[0]: z}), **par)
                ch.equal("integral", np.sum(as_numpy(one) * ww), 1.0, rtol=0.02)
            elif len(parameters) == 2 and not th:
                pass

    def mass(ch):
        n = ch.choose("nodes", [4, 6, 10] if full else [5])
        kind = ch.choose("kind", kinds)
        lo, hi, shape = ch.choose("construction", [(2, 100, (60, 30)), (3.0, 120.0, (80, 25))])
        span = ch.choose("node span", [None, (5.0, 80.0), (1.5, 150.0)])
        regularize = ch.choose("regularize", [False, True])
        values = ch.choose("values", list(VALUES)[:3] if full else ["steps"])
        delta = ch.choose("delta_m", [None, 0, 0.5, 6.0] if full else [0, 6.0])
        alpha, beta, mmin, mmax = ch.choose("power laws", [(2.5, 1.1, 5.0, 80.0), (1, -1, 3, 100), (-1.0, 0, 4.4, 45)]
                                            if full else [(2.5, 1.1, 5.0, 80.0), (1, -1, 3, 100)])
        if regularize and values == "flat":
            return
        surplus = ch.choose("surplus nodes", [0, 1]) if values == "steps" and delta == 0 else 0
        a, b = span or (lo, hi)
        v = (VALUES[values] * 2)[:n]
        xs = node_positions(a, b, n, True)
        par = {f"mass{ii}": x for ii, x in enumerate(xs)}
        par.update({f"fmass{ii}": f for ii, f in enumerate(v)})
        par.update(alpha=alpha, beta=beta, mmin=mmin, mmax=mmax)
        fs = O.A(v)
        if delta is not None:
            par["delta_m"] = delta
        if regularize:
            par["rmsmass"] = 0.7
            fs = fs * 0.7 / np.sqrt(np.mean(fs**2))
        model = ch.op("construct", api.mass.InterpolatedPowerlaw, nodes=n, kind=kind, mmin=lo, mmax=hi,
                      normalization_shape=shape, regularize=regularize)
        m1 = points(xs, a, b, kind, True)
        m1 = np.concatenate([m1, [mmin * (1 + R), mmin * 1.1, mmax * (1 - R), mmax * (1 + R), mmin * 0.9, 35.0, 12.0, hi * 1.01]])
        m1 = np.repeat(m1, 3)
        q = np.tile([0.9, 0.3, 0.62], len(m1) // 3)
        data = dict(mass_1=m1, mass_ratio=q)

        def factor(m):
            inside = (m >= xs[0]) & (m <= xs[-1])
            with np.errstate(all="ignore"):
                return np.where(inside, np.exp(O.spline(np.log(xs), fs, np.log(m), kind)), 0.0)

        exp = O.smoothed(data, O.power_law_mass, beta, delta or 0, mmin, lo, hi, shape, m1_factor=factor,
                         always_norm=True, alpha=alpha, mmax=mmax)
        d = api.data(data)
        guard = Guard(d, par)
        if surplus:  # not inferred with a parametric base: ignored
            par = dict(par, **{f"mass{n}": 200.0, f"fmass{n}": 3.0})
            guard = Guard(d, par)
        got = ch.op("evaluate", model, d, **par)
        guard.check(ch)
        ch.equal("density", got, exp, rtol=1e-6 if backend == "jax" else 1e-7, atol=1e-290)

    if part == "mass":
        explore_dfs(mass, stats, "mass", findings)
    else:
        explore_dfs(identical, stats, "identical", findings)
