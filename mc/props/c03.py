"""C03: primitive distributions equal their documented densities."""
import numpy as np

from mc import oracle as O
from mc.api import Api
from mc.core import Violation, close_mask, as_numpy, explore_dfs

EPS = 1e-9


def up(x):
    """Next float; no subnormals, which jax flushes to zero."""
    return np.nextafter(x, np.inf) if x else 1e-300


def down(x):
    return np.nextafter(x, -np.inf) if x else -1e-300


def compare(ch, name, got, expected, rtol):
    """As ch.equal, where an infinite density may be represented by a huge float."""
    got = as_numpy(got).astype(float)
    expected = np.asarray(expected, dtype=float)
    ch.check(
        got.shape == expected.shape,
        lambda: f"{name}: shape {got.shape} instead of {expected.shape}",
    )
    ch.observe(name, got)
    ok = close_mask(got, expected, rtol, 1e-300)
    ok |= np.isposinf(expected) & (got > 1e300)
    # densities that underflow
    ok |= (np.abs(expected) < 1e-290) & (np.abs(got) < 1e-280)
    if not ok.all():
        where = tuple(int(k) for k in np.argwhere(~ok)[0]) if ok.ndim else ()
        raise Violation(
            f"{name}: {int((~ok).sum())}/{ok.size} values differ, first at {where}: "
            f"got {got[where]!r}, expected {expected[where]!r}"
        )


def forms(api, value):
    """The same number in the types users pass."""
    out = [float(value), np.float64(value)]
    if float(value) == int(value):
        out.append(int(value))
    if api.backend == "jax":
        out.append(api.arr(value))
    else:
        out.append(np.array(float(value)))
    return out


def shapes(api, points, which):
    if which == "1d":
        return api.arr(points), np.asarray(points)
    if which == "2d":
        p = np.asarray(points)
        if len(p) % 2:
            p = np.append(p, p[-1])
        p = p.reshape(2, -1)
        return api.arr(p), p
    if which == "strided" and api.backend == "numpy":
        p = np.repeat(np.asarray(points, dtype=float), 2)
        return p[::2], np.asarray(points)
    return api.arr(points), np.asarray(points)


def powerlaw_driver(api, tier):
    alphas = [-5, -3.5, -2, -1.5, -1.001, -1, -0.999, -0.5, 0, 0.5, 1, 1.001, 2, 3.7]
    lows = [0, 1e-3, 0.25, 1, 2, 5.5]
    highs = [0.5, 1, 2.5, 10, 100]
    if tier == "thorough":
        alphas = sorted(set(alphas + list(np.arange(-8, 8.25, 0.25))))
        lows += [1e-6, 0.1, 3, 8, 50]
        highs += [1.0001, 40, 85.5, 300]

    def driver(ch):
        low = ch.choose("low", lows)
        high = ch.choose("high", [h for h in highs if h > low])
        alpha = ch.choose("alpha", [a for a in alphas if low > 0 or a > -1])
        shape = ch.choose("shape", ["1d", "2d", "strided"])
        lo = low if low > 0 else high * 1e-4
        points = [
            low, high, up(low), down(high), lo**0.3 * high**0.7, lo**0.7 * high**0.3,
            0.5 * (low + high), 1.0, down(low), up(high), 0.5 * low, 2 * high, 0.0,
            -1.0, -high, 1e7,
        ]
        if low == 0 and alpha <= 0:
            points = [p for p in points if p != 0]
        xx, pts = shapes(api, points, shape)
        got = ch.op("powerlaw", api.utils.powerlaw, xx, alpha=alpha, high=high, low=low)
        expected = O.powerlaw(pts, alpha, high, low)
        compare(ch, "powerlaw", got, expected, 1e-9)

    def arrays(ch):
        """array-valued limits and indices (as used for conditional mass ratios)"""
        alpha = ch.choose("alpha", alphas)
        which = ch.choose("array", ["low", "high", "alpha", "all", "scalar"])
        form = ch.choose("form", [0, 1, 2, 3])
        xs = np.array([0.05, 0.1, 0.3, 0.5, 0.51, 0.9, 1.0, 1.1, 2.0])
        low, high = 0.1, 1.0
        if which in ("low", "all"):
            low = np.array([0.05, 0.2, 0.2, 0.5, 0.6, 0.1, 1.0, 1.5, 0.5])
        if which in ("high", "all"):
            high = np.array([1, 1, 0.25, 0.5, 3, 0.9, 2, 3, 1.5])
        al = alpha
        if which in ("alpha", "all"):
            al = np.array([alpha, -1, 0, 1, alpha, -2, alpha, -1, 2.0])
        degenerate = np.broadcast_to(np.asarray(low) >= np.asarray(high), xs.shape)
        conv = lambda v: api.arr(v) if np.ndim(v) else v
        args = [conv(al), conv(high), conv(low)]
        if which == "scalar":
            fs = forms(api, alpha)
            args[0] = fs[form % len(fs)]
        if form % 2:
            got = ch.op("powerlaw", api.utils.powerlaw, api.arr(xs), *args)
        else:
            got = ch.op(
                "powerlaw", api.utils.powerlaw, api.arr(xs),
                alpha=args[0], high=args[1], low=args[2],
            )
        got = as_numpy(got)
        expected = O.powerlaw(xs, al, high, low)
        ch.check(not np.isnan(got).any(), "powerlaw: NaN density")
        expected = np.where(degenerate & np.isinf(expected), got, expected)
        compare(ch, "powerlaw", got, expected, 1e-9)

    def scalars(ch):
        alpha = ch.choose("alpha", alphas)
        x = ch.choose("x", [0.5, 0.7, 1.0, 2.0, 0.49, 2.5])
        af = ch.choose("alpha_form", forms(api, alpha))
        lf = ch.choose("low_form", forms(api, 0.5))
        hf = ch.choose("high_form", forms(api, 2))
        got = ch.op("powerlaw", api.utils.powerlaw, x, alpha=af, high=hf, low=lf)
        compare(ch, "powerlaw", got, O.powerlaw(x, alpha, 2.0, 0.5), 1e-9)

    def invalid(ch):
        low = ch.choose("low", [-1e-9, -1, -4.0, np.array([1.0, -1.0]), np.array([-2.0, 3.0])])
        alpha = ch.choose("alpha", [-2, -1, 0, 1, 3])
        high = ch.choose("high", [0.5, 10.0])
        ch.raises(
            "powerlaw", ValueError, api.utils.powerlaw,
            np.array([1.0, 2.0]), alpha=alpha, high=high, low=low,
        )

    yield "powerlaw", driver
    yield "powerlaw-arrays", arrays
    yield "powerlaw-scalars", scalars
    if api.backend == "numpy":
        yield "powerlaw-invalid", invalid


def truncnorm_driver(api, tier):
    ranges = [(-1, 1), (0, 1), (2, 100), (5.5, 50.0), (-10, -2), (0, 1e-2)]
    mus = [-50, -5, -1, -0.3, 0, 0.5, 1, 2, 7.5, 35, 100, 400]
    sigmas = [0.02, 0.1, 0.5, 1, 4, 30, 1000]
    if tier == "thorough":
        ranges += [(-1, 0.5), (1, 1.01), (3, 300), (0, 10)]
        mus += [-1000, -20, -0.99, 0.01, 0.99, 5.5, 20, 50, 60]
        sigmas += [0.05, 0.2, 0.8, 2, 10, 200]
    rtol = 1e-8 if api.backend == "numpy" else 3e-7

    def driver(ch):
        low, high = ch.choose("range", ranges)
        mu = ch.choose("mu", mus)
        sigma = ch.choose("sigma", sigmas)
        shape = ch.choose("shape", ["1d", "2d"])
        a, b = (low - mu) / sigma, (high - mu) / sigma
        if min(abs(a), abs(b)) > 1e4 and a * b > 0:
            ch.observe("skip", "range further than 1e4 widths from the mean")
            return
        points = [low, high, up(low), down(high)]
        points += list(np.linspace(low, high, 9)[1:-1])
        points += [p for p in (mu, mu + sigma, mu - sigma)]
        points += [down(low), up(high), low - 1, high + 1, low - 1e4, high + 1e4]
        xx, pts = shapes(api, points, shape)
        got = ch.op(
            "truncnorm", api.utils.truncnorm, xx, mu=mu, sigma=sigma, high=high, low=low
        )
        expected = O.truncnorm(pts, mu, sigma, high, low)
        # relative accuracy of the density is limited by that of the exponent
        scale = max(1.0, min(a * a, b * b, 1e8) * 1e-3)
        narrow = max(1.0, 1e-2 / (b - a))
        compare(ch, "truncnorm", got, expected, rtol * scale * narrow)
        g = as_numpy(got)
        ch.check(np.all(g >= 0), "truncnorm: negative density")

    def arrays(ch):
        which = ch.choose("array", ["mu", "sigma", "high", "low", "all", "scalar"])
        mu0 = ch.choose("mu", [-2, 0.3, 1, 5])
        s0 = ch.choose("sigma", [0.2, 1, 3])
        form = ch.choose("form", [0, 1, 2, 3])
        xs = np.array([-0.5, 0.0, 0.2, 0.7, 1.0, 1.4])
        vals = dict(mu=mu0, sigma=s0, high=1.0, low=0.0)
        arrs = dict(
            mu=np.array([mu0, 0, 0.5, 1, -3, 8]),
            sigma=np.array([s0, 0.1, 1, 2, 0.5, 4]),
            high=np.array([1, 0.1, 1, 0.6, 1.5, 3.0]),
            low=np.array([-1, 0, 0.1, 0.2, 1.0, -4.0]),
        )
        for key in vals:
            if which in (key, "all"):
                vals[key] = arrs[key]
        args = {k: api.arr(v) if np.ndim(v) else v for k, v in vals.items()}
        if which == "scalar":
            fs = forms(api, s0)
            args["sigma"] = fs[form % len(fs)]
            fs = forms(api, mu0)
            args["mu"] = fs[form % len(fs)]
        x = api.arr(xs)
        if form % 2:
            got = ch.op(
                "truncnorm", api.utils.truncnorm,
                x, args["mu"], args["sigma"], args["high"], args["low"],
            )
        else:
            got = ch.op("truncnorm", api.utils.truncnorm, x, **args)
        compare(ch, "truncnorm", got, O.truncnorm(xs, **vals), rtol)

    def invalid(ch):
        sigma = ch.choose("sigma", [0, -1e-12, -1, np.array([1.0, 0.0]), np.array([-1.0, 2.0])])
        mu = ch.choose("mu", [-1, 0, 4])
        ch.raises(
            "truncnorm", ValueError, api.utils.truncnorm,
            np.array([0.1, 0.2]), mu=mu, sigma=sigma, high=1, low=0,
        )

    yield "truncnorm", driver
    yield "truncnorm-arrays", arrays
    if api.backend == "numpy":
        yield "truncnorm-invalid", invalid


def beta_driver(api, tier):
    abs_ = [0.3, 0.999, 1, 1.001, 1.5, 2, 5, 30]
    scales = [0.2, 0.7, 1, 2.5, 100]
    rtol = 1e-8 if api.backend == "numpy" else 1e-6  # jax's betaln
    if tier == "thorough":
        abs_ += [0.05, 0.7, 3, 3.25, 10, 80]
        scales += [0.01, 0.5, 0.99, 8]

    def driver(ch):
        alpha = ch.choose("alpha", abs_)
        beta = ch.choose("beta", abs_)
        scale = ch.choose("scale", scales)
        shape = ch.choose("shape", ["1d", "2d"])
        points = [0.0, 1e-12 * scale, 1e-3 * scale, 0.2 * scale, 0.5 * scale, 0.9 * scale,
                  (1 - 1e-9) * scale, scale, up(scale), 1.5 * scale, -1e-12, -0.3 * scale,
                  -scale, 40.0 * scale]
        xx, pts = shapes(api, points, shape)
        got = ch.op(
            "beta_dist", api.utils.beta_dist, xx, alpha=alpha, beta=beta, scale=scale
        )
        expected = O.beta_dist(pts, alpha, beta, scale)
        compare(ch, "beta_dist", got, expected, rtol)
        g = as_numpy(got)
        ch.check(np.all(g >= 0), "beta_dist: negative density")

    def arrays(ch):
        which = ch.choose("array", ["alpha", "beta", "scale", "all", "scalar", "default"])
        form = ch.choose("form", [0, 1, 2, 3])
        a0 = ch.choose("alpha", [0.5, 1, 2, 4.5])
        b0 = ch.choose("beta", [0.5, 1, 3])
        xs = np.array([0.0, 0.1, 0.4, 0.8, 0.95, 1.2])
        vals = dict(alpha=a0, beta=b0, scale=1.0)
        arrs = dict(
            alpha=np.array([2, a0, 1, 3, 0.7, 2.0]),
            beta=np.array([b0, 2, 1, 4, 0.7, 2.0]),
            scale=np.array([1, 0.5, 0.4, 1, 2, 1.0]),
        )
        for key in vals:
            if which in (key, "all"):
                vals[key] = arrs[key]
        args = {k: api.arr(v) if np.ndim(v) else v for k, v in vals.items()}
        if which == "scalar":
            fs = forms(api, a0)
            args["alpha"] = fs[form % len(fs)]
            fs = forms(api, b0)
            args["beta"] = fs[form % len(fs)]
            args["scale"] = forms(api, 1)[form]
        if which == "default":
            args.pop("scale")
        x = api.arr(xs)
        if form % 2:
            got = ch.op("beta_dist", api.utils.beta_dist, x, *args.values())
        else:
            got = ch.op("beta_dist", api.utils.beta_dist, x, **args)
        compare(ch, "beta_dist", got, O.beta_dist(xs, **vals), rtol)

    def invalid(ch):
        bad = ch.choose("bad", [0, -1e-9, -1, -3.0, np.array([1.0, 0.0]), np.array([-0.5, 2.0])])
        key = ch.choose("which", ["alpha", "beta", "scale"])
        good = ch.choose("good", [0.5, 1, 2])
        kwargs = dict(alpha=good, beta=good, scale=good)
        kwargs[key] = bad
        ch.raises(
            "beta_dist", ValueError, api.utils.beta_dist, np.array([0.1, 0.2]), **kwargs
        )

    yield "beta", driver
    yield "beta-arrays", arrays
    if api.backend == "numpy":
        yield "beta-invalid", invalid


def von_mises_driver(api, tier):
    def driver(ch):
        mu = ch.choose("mu", [-3.1, -1, 0, 0.5, 2, np.pi])
        kappa = ch.choose("kappa", [0, 1e-3, 0.3, 1, 7.75, 10, 100, 800, 5000])
        shape = ch.choose("shape", ["1d", "2d"])
        points = np.concatenate([np.linspace(-np.pi, np.pi, 15), [mu]])
        xx, pts = shapes(api, points, shape)
        got = ch.op("von_mises", api.utils.von_mises, xx, mu=mu, kappa=kappa)
        compare(ch, "von_mises", got, O.von_mises(pts, mu, kappa), 1e-8)

    yield "von_mises", driver


def gauss_driver(api, tier):
    def driver(ch):
        sx = ch.choose("sigma_x", [0.05, 0.3, 1, 2])
        sy = ch.choose("sigma_y", [0.1, 0.3, 1.5])
        rho = ch.choose("rho", [-0.95, -0.5, -0.1, 0, 0.1, 0.5, 0.95])
        mx = ch.choose("mu_x", [-0.7, 0, 0.4])
        my = ch.choose("mu_y", [-0.1, 0.3])
        shape = ch.choose("shape", ["1d", "2d"])
        x = mx + np.array([0, 0.1, -0.2, 0.3, 0, 0.1, -0.1, 0.5])
        y = my + np.array([0, 0, 0.1, -0.2, 0.3, 0.2, -0.3, 0.5])
        xx, px = shapes(api, x, shape)
        yy, py = shapes(api, y, shape)
        got = ch.op(
            "unnormalized_2d_gaussian", api.utils.unnormalized_2d_gaussian,
            xx, yy, mx, my, sx, sy, rho,
        )
        compare(ch, "gauss2d", got, O.gauss2d(px, py, mx, my, sx, sy, rho), 1e-8)

    yield "gauss2d", driver


def trapezoid_driver(api, tier):
    """The integration helper agrees with the trapezoidal rule along any axis."""

    def driver(ch):
        shape = ch.choose("shape", [(2,), (5,), (3, 4), (4, 4), (2, 3, 4), (3, 3, 3)])
        axis = ch.choose("axis", list(range(-len(shape), len(shape))))
        mode = ch.choose("mode", ["x", "dx", "default", "xnd"])
        y = np.sin(np.arange(np.prod(shape))).reshape(shape)
        n = shape[axis]
        x = np.cumsum(1.0 + 0.5 * np.cos(np.arange(n)))
        full = y.shape
        kw = dict(axis=axis)
        if mode == "x":
            kw["x"] = api.arr(x)
        elif mode == "dx":
            kw["dx"] = 0.3
            x = 0.3 * np.arange(n)
        elif mode == "xnd":
            sh = [1] * len(full)
            sh[axis] = n
            kw["x"] = api.arr(x.reshape(sh))
        else:
            x = 1.0 * np.arange(n)
        if mode == "xnd" and len(full) == 1:
            kw["x"] = api.arr(x)
        got = ch.op("trapezoid", api.utils.trapezoid, api.arr(y), **kw)
        ch.equal("trapezoid", got, O.trapz(y, x, axis=axis), rtol=1e-10, atol=1e-12)

    yield "trapezoid", driver


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    makers = dict(
        powerlaw=[powerlaw_driver],
        rest=[truncnorm_driver, beta_driver, von_mises_driver, gauss_driver, trapezoid_driver],
    )[part]
    for maker in makers:
        for name, driver in maker(api, tier):
            explore_dfs(driver, stats, name, findings)
