"""C04: analytic mass models are the documented normalised densities."""
import numpy as np

from mc import oracle as O
from mc.api import Api
from mc.core import as_numpy, explore_dfs

R = 1e-9


def around(*values):
    out = []
    for v in values:
        out += [v, v * (1 - R), v * (1 + R)]
    return out


def mass_points(mmin, mmax, extra=()):
    pts = around(mmin, mmax, *extra)
    pts += list(np.geomspace(mmin, mmax, 9)[1:-1])
    pts += [0.5 * mmin, 1e-3, mmax * 1.2, 99.0, 101.0, 151.0, 1e4]
    return np.array(pts)


def reshape(api, pts, shape):
    """pts: dict of equally long arrays"""
    pts = {k: np.asarray(v, dtype=float) for k, v in pts.items()}
    if shape == "2d":
        n = len(next(iter(pts.values())))
        if n % 2:
            pts = {k: np.append(v, v[-1]) for k, v in pts.items()}
        pts = {k: v.reshape(2, -1) for k, v in pts.items()}
    return api.data(pts), pts


def check_density(ch, name, got, expected, rtol=1e-8):
    g = as_numpy(got)
    ch.check(not np.isnan(g.astype(float)).any(), f"{name}: NaN density")
    ch.equal(name, got, expected, rtol=rtol, atol=1e-290)
    ch.check(np.isfinite(g).all(), f"{name}: infinite density")
    ch.check((g >= 0).all(), f"{name}: negative density")


RANGES = [(2, 50), (5.0, 100.0), (3.5, 45.5), (10, 11), (8, 120)]
ALPHAS = [-6, -2.5, -1, 0, 0.9995, 1, 1.003, 1.5, 2, 3.5, 7, 12]
LAMS = [0, 0.1, 0.5, 1]
PEAKS = [(35, 1), (30.0, 5.5), (2, 10), (80, 0.5), (7, 2)]
GMM = [None, 60, 150.0]
BREAKS = [0.02, 0.3, 0.5, 0.95]
BETAS = [-2, -1.002, -1, -0.9997, 0, 1, 1.5, 5, 14]


def gkw(gmm):
    return {} if gmm is None else dict(gaussian_mass_maximum=gmm)


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    mass = api.mass
    th = tier == "thorough"
    shapes = ["1d", "2d"]
    ranges = RANGES + ([(1, 1000), (4, 4.5), (6.5, 87)] if th else [])
    alphas = ALPHAS + ([-20, -0.5, 0.99, 1.01, 2.5, 25] if th else [])
    lams = LAMS + ([1e-6, 0.9] if th else [])
    peaks = PEAKS + ([(50, 10.0), (100, 3), (5, 0.4)] if th else [])
    breaks = BREAKS + ([0.1, 0.7] if th else [])
    rtol = 1e-8 if backend == "numpy" else 3e-7
    gmms, betas, abetas = GMM, BETAS, [-1, 1, 1.002, 2, 4.5]
    ratio_alphas = sec_alphas = alphas
    if backend == "jax" and not th:  # eager jax costs about 10 ms per evaluation
        ranges = [(2, 50), (5.0, 100.0), (8, 120)]
        lams = [0, 0.3, 1]
        peaks = [(35, 1), (30.0, 5.5), (2, 10)]
        gmms = [None, 60]
        breaks = [0.3, 0.95]
        betas = [-1, 0, 1.5]
        abetas = [1, 4.5]
        alphas = [-1, 0, 1, 2, 3.5]
        ratio_alphas = sec_alphas = [-1, 1, 2]

    def power(ch):
        mmin, mmax = ch.choose("range", ranges)
        alpha = ch.choose("alpha", alphas)
        data, pts = reshape(api, dict(m=mass_points(mmin, mmax)), ch.choose("shape", shapes))
        got = ch.op("power_law_mass", mass.power_law_mass, data["m"], alpha=alpha, mmin=mmin, mmax=mmax)
        check_density(ch, "power_law_mass", got, O.power_law_mass(pts["m"], alpha, mmin, mmax), rtol)

    def broken(ch):
        mmin, mmax = ch.choose("range", ranges)
        kw = dict(
            alpha_1=ch.choose("alpha_1", alphas), alpha_2=ch.choose("alpha_2", alphas),
            mmin=mmin, mmax=mmax, break_fraction=ch.choose("break_fraction", breaks),
        )
        mb = mmin + kw["break_fraction"] * (mmax - mmin)
        data, pts = reshape(api, dict(m=mass_points(mmin, mmax, [mb])), "1d")
        got = ch.op("double_power_law_primary_mass", mass.double_power_law_primary_mass, data["m"], **kw)
        check_density(ch, "double_power_law_primary_mass", got, O.bpl(pts["m"], **kw), rtol)
        # continuity at the break, on the values returned by the implementation
        i = 6  # mb, just below, just above
        g = as_numpy(got)
        ch.check(
            abs(g[i + 1] - g[i]) <= 1e-6 * g[i] and abs(g[i + 2] - g[i]) <= 1e-6 * g[i],
            "double_power_law_primary_mass: discontinuous at the break",
        )

    def broken_peak(ch):
        mmin, mmax = ch.choose("range", ranges)
        kw = dict(
            alpha_1=ch.choose("alpha_1", [-1, 1, 2.0]), alpha_2=ch.choose("alpha_2", [0, 1, 5.5]),
            mmin=mmin, mmax=mmax, break_fraction=ch.choose("break_fraction", breaks),
            lam=ch.choose("lam", lams),
        )
        kw["mpp"], kw["sigpp"] = ch.choose("peak", peaks)
        kw.update(gkw(ch.choose("gmm", gmms)))
        mb = mmin + kw["break_fraction"] * (mmax - mmin)
        data, pts = reshape(api, dict(m=mass_points(mmin, mmax, [mb, 100, 60, 150, kw["mpp"]])), "1d")
        got = ch.op("double_power_law_peak_primary_mass", mass.double_power_law_peak_primary_mass, data["m"], **kw)
        check_density(ch, "double_power_law_peak_primary_mass", got, O.bpl_peak(pts["m"], **kw), rtol)

    def two(ch):
        mmin, mmax = ch.choose("range", ranges)
        kw = dict(alpha=ch.choose("alpha", alphas), mmin=mmin, mmax=mmax, lam=ch.choose("lam", lams))
        kw["mpp"], kw["sigpp"] = ch.choose("peak", peaks)
        kw.update(gkw(ch.choose("gmm", gmms)))
        data, pts = reshape(api, dict(m=mass_points(mmin, mmax, [100, 60, 150, kw["mpp"]])), "1d")
        got = ch.op("two_component_single", mass.two_component_single, data["m"], **kw)
        check_density(ch, "two_component_single", got, O.two_component(pts["m"], **kw), rtol)

    def three(ch):
        mmin, mmax = ch.choose("range", ranges[:4])
        kw = dict(
            alpha=ch.choose("alpha", [-1, 1, 3.5]), mmin=mmin, mmax=mmax,
            lam=ch.choose("lam", lams), lam_1=ch.choose("lam_1", lams),
        )
        kw["mpp_1"], kw["sigpp_1"] = ch.choose("peak_1", peaks[:3])
        kw["mpp_2"], kw["sigpp_2"] = ch.choose("peak_2", peaks[1:] if backend == "numpy" or th else peaks[:1])
        kw.update(gkw(ch.choose("gmm", gmms)))
        data, pts = reshape(api, dict(m=mass_points(mmin, mmax, [100, 60, 150, kw["mpp_1"], kw["mpp_2"]])), "1d")
        got = ch.op("three_component_single", mass.three_component_single, data["m"], **kw)
        check_density(ch, "three_component_single", got, O.three_component(pts["m"], **kw), rtol)

    # ------------------------------------------------------------- two masses
    def m1q_points(mmin, mmax, extra=()):
        m1 = np.array(around(mmin, mmax, *extra) + [2 * mmin, 4 * mmin, np.sqrt(mmin * mmax),
                      0.5 * mmin, 1.2 * mmax, 101.0])
        out1, outq = [], []
        for m in m1:
            low = mmin / m
            for q in [low * (1 - R), low * (1 + R), 0.5 * (1 + low), 1.0, 1 + R, 0.5, 0.25, 0.01, 1.7, 0.0]:
                if m <= mmin * (1 + 1e-6) and abs(q - low) < 1e-5:
                    continue  # conditional range shrinks to a point
                out1.append(m)
                outq.append(q)
        # exactly on the lower edge, in exact arithmetic
        for k in (2.0, 4.0):
            out1.append(k * mmin)
            outq.append(1 / k)
        return dict(mass_1=out1, mass_ratio=outq)

    def m1m2_points(mmin, mmax, extra=()):
        ms = np.array(around(mmin, mmax) + [np.sqrt(mmin * mmax), 0.3 * mmin + 0.7 * mmax, 0.5 * mmin, 1.3 * mmax] + list(extra))
        g1, g2 = np.meshgrid(ms, ms)
        return dict(mass_1=g1.ravel(), mass_2=g2.ravel())

    def ratio(ch):
        name = ch.choose("model", ["power", "two", "broken"])
        mmin, mmax = ch.choose("range", ranges)
        beta = ch.choose("beta", betas)
        shape = ch.choose("shape", shapes)
        if name == "broken":
            kw = dict(alpha_1=ch.choose("alpha_1", [-1, 1, 2.0]), alpha_2=ch.choose("alpha_2", [0, 1, 5.5]),
                      mmin=mmin, mmax=mmax, break_fraction=ch.choose("break_fraction", breaks))
            func, prim = mass.double_power_law_primary_power_law_mass_ratio, O.bpl
        elif name == "power":
            kw = dict(alpha=ch.choose("alpha", ratio_alphas), mmin=mmin, mmax=mmax)
            func, prim = mass.power_law_primary_mass_ratio, O.power_law_mass
        else:
            kw = dict(alpha=ch.choose("alpha", [-1, 1, 2.5]), mmin=mmin, mmax=mmax, lam=ch.choose("lam", lams))
            kw["mpp"], kw["sigpp"] = ch.choose("peak", peaks[:3])
            kw.update(gkw(ch.choose("gmm", gmms)))
            func, prim = mass.two_component_primary_mass_ratio, O.two_component
        data, pts = reshape(api, m1q_points(mmin, mmax), shape)
        got = ch.op(func.__name__, func, data, beta=beta, **kw)
        expected = prim(pts["mass_1"], **kw) * O.p_q(pts["mass_1"], pts["mass_ratio"], beta, mmin)
        # just above the minimum mass the norm of p(q) suffers cancellation
        check_density(ch, func.__name__, got, expected, max(rtol, 1e-6))

    def secondary(ch):
        name = ch.choose("model", ["power-ind", "power-id", "two-ind", "two-id"])
        mmin, mmax = ch.choose("range", ranges)
        shape = ch.choose("shape", shapes)
        kw = dict(mmin=mmin, mmax=mmax)
        prim = O.power_law_mass
        call = dict(alpha=ch.choose("alpha", sec_alphas))
        if name.startswith("two"):
            kw["lam"] = ch.choose("lam", lams)
            kw["mpp"], kw["sigpp"] = ch.choose("peak", peaks[:3])
            kw.update(gkw(ch.choose("gmm", gmms)))
            prim = O.two_component
        alpha_2 = call["alpha"]
        if name.endswith("ind"):
            alpha_2 = call["beta"] = ch.choose("beta", abetas)
        func = {
            "power-ind": mass.power_law_primary_secondary_independent,
            "power-id": mass.power_law_primary_secondary_identical,
            "two-ind": mass.two_component_primary_secondary_independent,
            "two-id": mass.two_component_primary_secondary_identical,
        }[name]
        data, pts = reshape(api, m1m2_points(mmin, mmax, [60 * (1 - R), 60 * (1 + R), 99.0, 101.0]), shape)
        got = ch.op(func.__name__, func, data, **call, **kw)
        expected = (
            2 * prim(pts["mass_1"], alpha=call["alpha"], **kw) * prim(pts["mass_2"], alpha=alpha_2, **kw)
            * (pts["mass_1"] >= pts["mass_2"])
        )
        check_density(ch, func.__name__, got, expected, rtol)

    def integrals(ch):
        """Values returned by the implementation integrate to one (Gauss-Legendre)."""
        name = ch.choose("model", ["power", "broken", "two", "three", "brokenpeak", "ratio", "identical"])
        mmin, mmax = ch.choose("range", [(2, 50), (5.0, 100.0), (3.5, 45.5)])
        al = ch.choose("alpha", [-1, 1, 2.5])
        gmm = 120.0
        edges = [mmin, mmax]
        kw = dict(mmin=mmin, mmax=mmax)
        if name == "power":
            func, kw["alpha"] = mass.power_law_mass, al
        elif name == "broken":
            func = mass.double_power_law_primary_mass
            kw.update(alpha_1=al, alpha_2=ch.choose("alpha_2", [-2, 1, 4]), break_fraction=ch.choose("bf", breaks))
            edges = [mmin, mmin + kw["break_fraction"] * (mmax - mmin), mmax]
        elif name == "two":
            func = mass.two_component_single
            kw.update(alpha=al, lam=ch.choose("lam", lams), mpp=20, sigpp=4, gaussian_mass_maximum=gmm)
            edges = [mmin, mmax, gmm]
        elif name == "three":
            func = mass.three_component_single
            kw.update(alpha=al, lam=ch.choose("lam", lams), lam_1=ch.choose("lam_1", lams), mpp_1=10, sigpp_1=2,
                      mpp_2=30, sigpp_2=6, gaussian_mass_maximum=gmm)
            edges = [mmin, mmax, gmm]
        elif name == "brokenpeak":
            func = mass.double_power_law_peak_primary_mass
            kw.update(alpha_1=al, alpha_2=ch.choose("alpha_2", [-2, 1, 4]), break_fraction=ch.choose("bf", breaks),
                      lam=ch.choose("lam", lams), mpp=20, sigpp=4, gaussian_mass_maximum=gmm)
            edges = [mmin, mmin + kw["break_fraction"] * (mmax - mmin), mmax, gmm]
        t, w = np.polynomial.legendre.leggauss(200)

        def nodes(a, b):
            lx = 0.5 * (np.log(b) - np.log(a)) * (t + 1) + np.log(a)
            x = np.exp(lx)
            return x, w * 0.5 * (np.log(b) - np.log(a)) * x

        if name in ("ratio", "identical"):
            m1, w1 = nodes(mmin, mmax)
            t, w = np.polynomial.legendre.leggauss(60)
            g1, g2, ww = [], [], []
            for m, wm in zip(m1[::1], w1):
                m2, w2 = nodes(mmin, m)
                g1.append(np.full(60, m)); g2.append(m2); ww.append(wm * w2)
            g1, g2, ww = map(np.array, (g1, g2, ww))
            if name == "ratio":
                vals = ch.op("ratio", mass.power_law_primary_mass_ratio,
                             api.data(dict(mass_1=g1, mass_ratio=g2 / g1)), alpha=al,
                             beta=ch.choose("beta", [-1, 0, 2]), mmin=mmin, mmax=mmax)
                ww = ww / g1
            else:
                vals = ch.op("identical", mass.power_law_primary_secondary_identical,
                             api.data(dict(mass_1=g1, mass_2=g2)), alpha=al, mmin=mmin, mmax=mmax)
            total = np.sum(as_numpy(vals) * ww)
        else:
            total = 0.0
            for a, b in zip(edges[:-1], edges[1:]):
                if b > a:
                    x, wx = nodes(a, b)
                    total += np.sum(as_numpy(ch.op(func.__name__, func, api.arr(x), **kw)) * wx)
        ch.equal(f"integral of {name}", total, 1.0, rtol=1e-6)

    drivers = dict(
        single=[("power", power), ("broken", broken), ("two", two)],
        peaks=[("broken_peak", broken_peak), ("three", three)],
        pairs=[("ratio", ratio), ("secondary", secondary)],
        norm=[("integrals", integrals)],
    )[part]
    for name, driver in drivers:
        explore_dfs(driver, stats, name, findings)
