"""C06: spin models are the documented normalised densities."""
import numpy as np

from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs

R = 1e-9


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    spin = api.spin
    th = tier == "thorough"
    full = backend == "numpy" or th
    rtol = 1e-8 if backend == "numpy" else 3e-6

    def check(ch, name, got, exp):
        g = as_numpy(got).astype(float)
        ch.check(not np.isnan(g).any(), f"{name}: NaN density")
        ch.check((g >= 0).all(), f"{name}: negative density")
        ch.equal(name, got, exp, rtol=rtol, atol=1e-200)

    def evaluate(ch, name, func, pts, kw, exp):
        data = api.data(pts)
        guard = Guard(data, kw)
        got = ch.op(name, func, data, **kw)
        guard.check(ch)
        check(ch, name, got, exp)
        return got

    def grid(xs, ys, shape="1d"):
        a, b = np.meshgrid(xs, ys, indexing="ij")
        if shape == "2d":
            return a, b
        if shape == "3d":
            return a[None], b[None]
        return a.ravel(), b.ravel()

    # ----------------------------------------------------------- magnitudes
    shapes = [0.05, 0.5, 1, 1.0, 1.2, 2, 3.5, 9, 80]
    amaxs = [1, 1.0, 0.8, 0.3, 0.05, 1.3]
    if not full:
        shapes, amaxs = [1, 1.2, 3.5], [1, 0.8]

    def mags(amax, singular):
        xs = [0.1 * amax, 0.37 * amax, 0.5 * amax, 0.99 * amax, amax * (1 + R) + 1e-7, -1e-3, 1.2, 1.5, 1e-6]
        if not singular:
            xs += [0.0, amax]
        return np.array(xs)

    def magnitude_iid(ch):
        a = ch.choose("alpha_chi", shapes)
        b = ch.choose("beta_chi", shapes)
        amax = ch.choose("amax", amaxs)
        shape = ch.choose("shape", ["1d", "2d"] if full else ["1d"])
        xs = mags(amax, a < 1 or b < 1)
        x1, x2 = grid(xs, xs, shape)
        pts = dict(a_1=x1, a_2=x2)
        kw = dict(amax=amax, alpha_chi=a, beta_chi=b)
        exp = O.spin_mag(pts, a, a, b, b, amax, amax)
        got = evaluate(ch, "iid_spin_magnitude_beta", spin.iid_spin_magnitude_beta, pts, kw, exp)
        # the independent model with equal arguments is the same model
        same = ch.op("independent_spin_magnitude_beta", spin.independent_spin_magnitude_beta,
                     api.data(pts), a, a, b, b, amax, amax)
        ch.equal("independent vs identical", same, as_numpy(got), rtol=1e-12)
        if (a, b, amax) == (1, 1, 1):
            ch.equal("defaults", ch.op("default", spin.iid_spin_magnitude_beta, api.data(pts)), exp, rtol=rtol)

    ind = [0.5, 1, 2.5, 6, 30] if full else [1, 2.5]

    def magnitude_independent(ch):
        kw = dict(
            alpha_chi_1=ch.choose("alpha_chi_1", ind), beta_chi_1=ch.choose("beta_chi_1", ind[1:]),
            alpha_chi_2=ch.choose("alpha_chi_2", ind[1:] + [4.5]), beta_chi_2=ch.choose("beta_chi_2", ind),
        )
        kw["amax_1"], kw["amax_2"] = ch.choose(
            "amax", [(1, 1), (1, 0.5), (0.6, 1.0), (0.7, 0.4), (0.1, 1.3)] if full else [(1, 0.5), (0.6, 1.0)])
        sing = min(v for k, v in kw.items() if "chi" in k) < 1
        x1, x2 = grid(mags(kw["amax_1"], sing), mags(kw["amax_2"], sing))
        pts = dict(a_1=x1, a_2=x2)
        evaluate(ch, "independent_spin_magnitude_beta", spin.independent_spin_magnitude_beta, pts, kw,
                 O.spin_mag(pts, **kw))

    # ----------------------------------------------------------- tilts
    xis = [0, 0.3, 0.5, 1, 1.0] if full else [0, 0.3, 1]
    sigmas = [0.05, 0.3, 1, 5.0, 50] if full else [0.3, 5.0]
    mus = [1, 0.2, -1, 0, 1.5, -3.0, 20] if full else [1, -1, 0.2]
    cts = np.array([-1.0, 1.0, 0.0, 0.3, -0.99999, 0.99999, 0.7, -0.6, 1 - 1e-12])

    def tilt_independent(ch):
        kw = dict(xi_spin=ch.choose("xi_spin", xis))
        kw["sigma_1"] = ch.choose("sigma_1", sigmas)
        kw["sigma_2"] = ch.choose("sigma_2", sigmas + [0.31])
        kw["mu_1"] = ch.choose("mu_1", mus)
        kw["mu_2"] = ch.choose("mu_2", mus if full else mus[:2])
        x1, x2 = grid(cts, cts, "2d" if kw["mu_1"] == 0 else "1d")
        pts = dict(cos_tilt_1=x1, cos_tilt_2=x2)
        evaluate(ch, "independent_spin_orientation_gaussian_isotropic",
                 spin.independent_spin_orientation_gaussian_isotropic, pts, kw, O.spin_tilt(pts, **kw))
        if kw["mu_1"] == 1 and kw["mu_2"] == 1:
            few = {k: kw[k] for k in ("xi_spin", "sigma_1", "sigma_2")}
            evaluate(ch, "independent tilt, default means",
                     spin.independent_spin_orientation_gaussian_isotropic, pts, few, O.spin_tilt(pts, **kw))

    def tilt_iid(ch):
        kw = dict(xi_spin=ch.choose("xi_spin", xis), sigma_spin=ch.choose("sigma_spin", sigmas + [1e-2, 1e3]))
        mu = ch.choose("mu_spin", ["default"] + mus)
        if mu != "default":
            kw["mu_spin"] = mu
        else:
            mu = 1
        x1, x2 = grid(cts, cts)
        pts = dict(cos_tilt_1=x1, cos_tilt_2=x2)
        exp = O.spin_tilt(pts, kw["xi_spin"], kw["sigma_spin"], kw["sigma_spin"], mu, mu)
        evaluate(ch, "iid_spin_orientation_gaussian_isotropic",
                 spin.iid_spin_orientation_gaussian_isotropic, pts, kw, exp)

    def iid(ch):
        kw = dict(xi_spin=ch.choose("xi_spin", [0, 0.4, 1]), sigma_spin=ch.choose("sigma_spin", [0.3, 2]),
                  amax=ch.choose("amax", [1, 0.7]), alpha_chi=ch.choose("alpha_chi", [1, 2.5]),
                  beta_chi=ch.choose("beta_chi", [1, 4.5]))
        a = np.array([0.0, 0.2, 0.5, 0.69, 0.7, 0.9, 1.0, 1.1])
        n = len(a)
        pts = dict(a_1=a, a_2=a[::-1].copy(), cos_tilt_1=np.linspace(-1, 1, n), cos_tilt_2=np.linspace(0.9, -0.7, n))
        shape = ch.choose("shape", [(n,), (2, n // 2)])
        pts = {k: v.reshape(shape) for k, v in pts.items()}
        exp = O.spin_mag(pts, *([kw["alpha_chi"]] * 2), *([kw["beta_chi"]] * 2), *([kw["amax"]] * 2)) * O.spin_tilt(
            pts, kw["xi_spin"], kw["sigma_spin"], kw["sigma_spin"])
        evaluate(ch, "iid_spin", spin.iid_spin, pts, kw, exp)

    # ----------------------------------------------------------- effective spins
    ce = np.array([-1.0, 1.0, 0.0, 0.05, -0.4, 0.8, 1.0 + 1e-7, -1 - 1e-7, 1.5, -2.0])
    cp = np.array([0.0, 1.0, 0.02, 0.5, 0.99, -1e-7, 1 + 1e-7, -0.5, 1.7])

    def chi_single(ch):
        which = ch.choose("model", ["chi_eff", "chi_p"])
        kw = {f"mu_{which}": ch.choose("mu", [0, 0.06, -1, 1, 0.5, -3.0, 4]),
              f"sigma_{which}": ch.choose("sigma", [0.02, 0.12, 1, 10.0])}
        shape = ch.choose("shape", ["1d", "2d"])
        xs = ce if which == "chi_eff" else cp
        xs = xs[:8].reshape(2, 4) if shape == "2d" else xs
        exp = O.truncnorm(xs, kw[f"mu_{which}"], kw[f"sigma_{which}"], 1, -1 if which == "chi_eff" else 0)
        evaluate(ch, which, getattr(spin, f"gaussian_{which}"), {which: xs}, kw, exp)

    def chi_joint(ch):
        kw = dict(
            mu_chi_eff=ch.choose("mu_chi_eff", [0, 0.06, -0.9] if full else [0.06]),
            sigma_chi_eff=ch.choose("sigma_chi_eff", [0.05, 0.12, 1.0] if full else [0.12, 1]),
            mu_chi_p=ch.choose("mu_chi_p", [0.0, 0.2, 1.1] if full else [0.2]),
            sigma_chi_p=ch.choose("sigma_chi_p", [0.1, 0.5] if full else [0.1, 0.5]),
            spin_covariance=ch.choose("spin_covariance", [0, 0.3, -0.75, 0.9] if full else [0, 0.3, -0.75]),
        )
        x, y = grid(ce, cp, ch.choose("shape", ["1d", "2d"]))
        pts = dict(chi_eff=x, chi_p=y)
        model = spin.GaussianChiEffChiP()
        evaluate(ch, "GaussianChiEffChiP", model, pts, kw, O.chi_eff_chi_p(pts, **kw))

    # ----------------------------------------------------------- integrals
    def integral(ch):
        name = ch.choose("model", ["iid_mag", "ind_mag", "iid_tilt", "ind_tilt", "chi_eff", "chi_p", "joint"])
        t, w = np.polynomial.legendre.leggauss(60)

        def quad(lo, hi):
            return 0.5 * (hi - lo) * (t + 1) + lo, 0.5 * (hi - lo) * w

        if "mag" in name:
            a1, b1 = ch.choose("shapes 1", [(1, 1), (2, 5), (4, 1.5), (3, 3)])
            a2, b2 = ch.choose("shapes 2", [(1, 1), (2, 5), (4, 1.5), (3, 3)]) if name == "ind_mag" else (a1, b1)
            m1 = ch.choose("amax 1", [1, 0.6])
            m2 = ch.choose("amax 2", [1, 0.6]) if name == "ind_mag" else m1
            (x, wx), (y, wy) = quad(0, m1), quad(0, m2)
            xx, yy = np.meshgrid(x, y, indexing="ij")
            data = api.data(dict(a_1=xx, a_2=yy))
            if name == "ind_mag":
                vals = ch.op(name, spin.independent_spin_magnitude_beta, data, a1, a2, b1, b2, m1, m2)
            else:
                vals = ch.op(name, spin.iid_spin_magnitude_beta, data, m1, a1, b1)
        elif "tilt" in name:
            xi = ch.choose("xi", [0, 0.3, 1])
            s1 = ch.choose("s1", [0.2, 1, 6])
            s2 = ch.choose("s2", [0.2, 1, 6]) if name == "ind_tilt" else s1
            mu = ch.choose("mu", [1, -0.3])
            (x, wx), (y, wy) = quad(-1, 1), quad(-1, 1)
            xx, yy = np.meshgrid(x, y, indexing="ij")
            data = api.data(dict(cos_tilt_1=xx, cos_tilt_2=yy))
            if name == "ind_tilt":
                vals = ch.op(name, spin.independent_spin_orientation_gaussian_isotropic, data, xi, s1, s2, mu, -mu)
            else:
                vals = ch.op(name, spin.iid_spin_orientation_gaussian_isotropic, data, xi, s1, mu)
        elif name == "joint":
            rho = ch.choose("rho", [0, 0.5, -0.8])
            se = ch.choose("se", [0.2, 1])
            (x, wx), (y, wy) = quad(-1, 1), quad(0, 1)
            xx, yy = np.meshgrid(x, y, indexing="ij")
            vals = ch.op(name, spin.GaussianChiEffChiP(), api.data(dict(chi_eff=xx, chi_p=yy)), 0.1, se, 0.3, 0.25, rho)
        else:
            lo = -1 if name == "chi_eff" else 0
            mu, s = ch.choose("mu", [0, 0.9, 2]), ch.choose("s", [0.15, 1, 20])
            x, wx = quad(lo, 1)
            wy = np.ones(1)
            vals = ch.op(name, getattr(spin, f"gaussian_{name}"), api.data({name: x}), mu, s)
            vals = as_numpy(vals)[:, None]
        total = np.sum(as_numpy(vals) * wx[:, None] * wy)
        ch.equal("integral", total, 1.0, rtol=1e-3 if name == "joint" else 1e-5)

    if part == "magnitude":
        explore_dfs(magnitude_iid, stats, "magnitude_iid", findings)
        explore_dfs(magnitude_independent, stats, "magnitude_independent", findings)
    elif part == "tilt":
        explore_dfs(tilt_independent, stats, "tilt_independent", findings)
        explore_dfs(tilt_iid, stats, "tilt_iid", findings)
        explore_dfs(iid, stats, "iid", findings)
    else:
        explore_dfs(chi_single, stats, "chi_single", findings)
        explore_dfs(chi_joint, stats, "chi_joint", findings)
        explore_dfs(integral, stats, "integral", findings)
