"""C18: JIT and numpyro likelihoods agree with the plain likelihood."""
import itertools

import numpy as np

from mc import like as L
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs


def run(group, tier, stats, findings):
    api = Api("jax")
    th = tier == "thorough"
    H = api.hyperpe
    xp = api.xp
    from bilby.hyper.model import Model

    import importlib

    gjax = importlib.import_module("gwpopulation.experimental.jax")

    W = {
        "2x2": np.array([[1.0, 3.0], [2.0, 0.5]]),
        "1x3": np.array([[1.0, 0.0, 4.0]]),
        "3x2": np.array([[1.0, 1.0], [0.0, 2.0], [8.0, 2.0]]),
    }
    INJ = np.array([1.0, 0.5, 2.0, 0.25, 0.0, 1.5, 1.0, 3.0])

    def population(values):
        values = api.arr(np.ravel(values))

        def func(dataset, power, cut):
            base = values[dataset["x"].astype(int)]
            return base * (1 + dataset["y"]) ** power * (dataset["y"] >= cut)

        return func

    def ref_weights(values, ids, y, power, cut):
        return np.ravel(values)[ids] * (1 + y) ** power * (y >= cut)

    def build(ch, wname, prior, cls="hyper", enforce=False, n_events=None, maximum_uncertainty=np.inf, conv="default",
              redshift=False, total=40):
        w = W[wname]
        n, k = w.shape
        posts = L.frames(n, k)
        for ii, df in enumerate(posts):
            df["y"] = (df["x"] * 0.37 + 0.1) % 1.0
            if prior:
                df["prior"] = 0.5 + (df["x"] % 3)
            if redshift:
                df["redshift"] = 0.1 + 0.05 * df["x"]
        inj = dict(x=api.arr(np.arange(len(INJ))), y=api.arr((np.arange(len(INJ)) * 0.23 + 0.05) % 1.0),
                   prior=api.arr(0.5 + np.arange(len(INJ)) % 2), total_generated=total, analysis_time=1.5)
        models = [population(w)]
        smodels = [population(INJ)]
        if redshift:
            inj["redshift"] = api.arr(0.05 + 0.1 * np.arange(len(INJ)))
            zmodel = api.redshift.PowerLawRedshift()
            models, smodels = models + [zmodel], [zmodel] + smodels
        vt = api.vt.ResamplingVT(Model(smodels, cache=False), inj, n_events=n_events or n, enforce_convergence=enforce)
        kw = dict(selection_function=vt, maximum_uncertainty=maximum_uncertainty)
        if conv == "rename":
            kw["conversion_function"] = lambda p: (dict(p, power=p["half"] * 2), ["power"])
        elif conv == "in place":
            def convert(p):
                p["power"] = p["half"] * 2
                return p, ["power"]
            kw["conversion_function"] = convert
        cl = dict(hyper=H.HyperparameterLikelihood, rate=H.RateLikelihood, null=H.NullHyperparameterLikelihood)[cls]
        like = ch.op("construct", cl, posts, Model(models, cache=False), **kw)
        return like, vt

    def point(p, conv, cls, redshift=False):
        power, cut = p
        out = dict(cut=cut)
        if conv == "default":
            out["power"] = power
        else:
            out["half"] = power / 2
        if cls == "rate":
            out["rate"] = 3.0
        if redshift:
            out["lamb"] = 1.0
        return out

    def per_event(like, wname, p, prior):
        ids = as_numpy(like.data["x"]).astype(int)
        y = as_numpy(like.data["y"])
        w = ref_weights(W[wname], ids, y, *p)
        if prior:
            w = w / (0.5 + ids % 3)
        return w

    def injections(p, total=40):
        ids = np.arange(len(INJ))
        w = ref_weights(INJ, ids, (ids * 0.23 + 0.05) % 1.0, *p) / (0.5 + ids % 2)
        mu = w.sum() / total
        return w, mu, (w**2).sum() / total**2 - mu**2 / total

    # power, cut: cut=2 removes every sample (zero probability)
    POINTS = [(0, 0.0), (1.5, 0.0), (-1, 0.3), (2, 2.0), (1, 0.5)]

    def plain(like, wname, p, prior, cls, limit, total=40, rate=3.0):
        w = per_event(like, wname, p, prior)
        _, mu, var = injections(p, total)
        n = len(w)
        with np.errstate(all="ignore"):
            ev = L.event_variances(w).sum()
            if cls == "rate":
                value = np.log(w.mean(axis=-1)).sum() + n * np.log(rate) - rate * mu
                variance = ev + rate**2 * var
            else:
                value = L.ln_l(w, mu)
                variance = ev + n**2 * var / mu**2
        if cls == "null":
            value = 0.0
            if not np.isfinite(variance):
                return None, variance
        if not np.isfinite(value) or variance > limit**2:
            value = L.LOWEST
        return value, variance

    def jit(ch):
        wname = ch.choose("events", list(W))
        cls = ch.choose("class", [group.split("/")[1]])
        conv = ch.choose("conversion", ["default", "rename"])
        limit = ch.choose("maximum_uncertainty", [np.inf, 1.0, 0.4])
        prior = ch.choose("prior", [True, False] if th else [True])
        like, vt = build(ch, wname, prior, cls, maximum_uncertainty=limit, conv=conv)
        wrapped = ch.op("JittedLikelihood", gjax.JittedLikelihood, like)
        ch.check(wrapped.n_posteriors == like.n_posteriors, "attributes of the wrapped likelihood")
        for ii in range(3 if th else 2):
            p = ch.choose(f"point {ii}", POINTS if (th or ii) else POINTS[1:4])
            par = point(p, conv, cls)
            guard = Guard(par)
            got = ch.op("jitted", wrapped.log_likelihood_ratio, par)
            guard.check(ch)
            ch.check(isinstance(got, float), "not a float")
            direct = float(as_numpy(ch.op("plain", like.log_likelihood_ratio, dict(par))))
            exp, var = plain(like, wname, p, prior, cls, limit)
            if exp is None:
                continue
            ch.equal("plain", direct, exp, rtol=1e-9, atol=1e-9)
            ch.equal("jitted", got, exp, rtol=1e-9, atol=1e-9)

    def jit_kwargs(ch):
        """custom likelihood functions, keyword arguments, parameter types"""
        how = ch.choose("function", ["default", "use_ratio", "custom"])
        types = ch.choose("types", [float, np.float64, lambda v: api.arr(v), int])
        like, vt = build(ch, "2x2", True, redshift=ch.choose("redshift", [False, True]), conv="default")
        if how == "default":
            wrapped = gjax.JittedLikelihood(like)
        elif how == "use_ratio":
            wrapped = gjax.JittedLikelihood(like, kwargs=dict(use_ratio=True))
        else:
            wrapped = gjax.JittedLikelihood(
                like, likelihood_func=lambda lk, parameters, factor: factor * lk.log_likelihood_ratio(parameters),
                kwargs=dict(factor=2.0))
        redshift = len(like.hyper_prior.models) == 2
        for p in ((1, 0), (2, 0), (1, 0), (0, 0)):
            par = {k: types(v) for k, v in point(p, "default", "hyper", redshift).items()}
            got = ch.op("jitted", wrapped.log_likelihood_ratio, par)
            exp = as_numpy(ch.op("plain", like.log_likelihood_ratio, par)) * (2.0 if how == "custom" else 1.0)
            ch.equal("jitted", got, exp, rtol=1e-9)

    def real(ch):
        """real population models behind the wrapper"""
        name = ch.choose("mass model", [group.split("/")[1]])
        spin = ch.choose("spin model", [None, "beta", "tilt"])
        order = ch.choose("order", list(itertools.permutations(range(3))) if th else [(0, 1, 2), (2, 1, 0), (1, 1, 0)])
        par0 = dict(alpha=2.0, mmin=5.0, mmax=60.0, beta=1.0)
        extra = {}
        if name == "power_law":
            mass = api.mass.power_law_primary_mass_ratio
        elif name == "smoothed":
            mass = api.mass.SinglePeakSmoothedMassDistribution(normalization_shape=(60, 40), cache=ch.choose("cache", [True, False]))
            par0.update(lam=0.1, mpp=30.0, sigpp=4.0, delta_m=3.0)
        elif name == "broken":
            mass = api.mass.double_power_law_primary_power_law_mass_ratio
            par0 = dict(alpha_1=1.5, alpha_2=4.0, beta=1.0, mmin=5.0, mmax=60.0, break_fraction=0.4)
        else:
            mass = api.mass.InterpolatedPowerlaw(nodes=4, normalization_shape=(60, 40))
            par0.update(delta_m=3.0)
            par0.update({f"mass{ii}": v for ii, v in enumerate(np.exp(np.linspace(np.log(4), np.log(70), 4)))})
            par0.update({f"fmass{ii}": v for ii, v in enumerate([0.3, -0.2, 0.5, 0.1])})
        models = [mass, api.redshift.PowerLawRedshift()]
        par0["lamb"] = 1.2
        if spin == "beta":
            models.append(api.spin.iid_spin_magnitude_beta)
            par0.update(amax=1.0, alpha_chi=1.5, beta_chi=3.0)
        elif spin == "tilt":
            models.append(api.spin.iid_spin_orientation_gaussian_isotropic)
            par0.update(xi_spin=0.3, sigma_spin=0.7, mu_spin=1.0)
        import pandas as pd
        r = np.linspace(0, 1, 6)
        posts = [pd.DataFrame(dict(mass_1=10 + 20 * (r + ii / 3), mass_ratio=0.4 + 0.5 * r, redshift=0.1 + 0.3 * r,
                                   a_1=0.1 + 0.5 * r, a_2=0.6 - 0.4 * r, cos_tilt_1=r, cos_tilt_2=1 - 2 * r,
                                   prior=1 + r)) for ii in range(2)]
        inj = dict(mass_1=api.arr(8 + 30 * r), mass_ratio=api.arr(1 - 0.6 * r), redshift=api.arr(0.05 + 0.5 * r),
                   a_1=api.arr(0.2 + 0.3 * r), a_2=api.arr(0.5 * r + 0.01), cos_tilt_1=api.arr(0.5 - r), cos_tilt_2=api.arr(r),
                   prior=api.arr(1 + 2 * r), total_generated=100)
        vt = api.vt.ResamplingVT(Model(list(models), cache=False), inj, n_events=2, enforce_convergence=False)
        like = ch.op("construct", H.HyperparameterLikelihood, posts, Model(list(models), cache=False), selection_function=vt)
        variants = [dict(par0)]
        for key, factor in (("lamb", 2.0), ("beta", -0.7)):
            more = dict(variants[-1])
            more[key] = more[key] * factor
            variants.append(more)
        burn = ch.choose("evaluated before", [False, True]) if name in ("smoothed", "spline") else False
        if burn:
            ch.op("plain", like.log_likelihood_ratio, dict(variants[1]))
        wrapped = ch.op("JittedLikelihood", gjax.JittedLikelihood, like)
        if name == "spline" and not burn:
            return  # the interpolant needs concrete nodes, documented by the burn call of the test-suite
        values = []
        for idx in order:
            values.append(ch.op("jitted", wrapped.log_likelihood_ratio, dict(variants[idx])))
        fresh = gjax.JittedLikelihood  # noqa
        for idx, got in zip(order, values):
            exp = as_numpy(ch.op("plain", like.log_likelihood_ratio, dict(variants[idx])))
            ch.check(np.isfinite(exp) and exp > -1e300, "vacuous")
            ch.equal("jitted", got, exp, rtol=1e-9)

    # ------------------------------------------------------------------ numpyro
    def sites(ch):
        import jax
        from numpyro import handlers

        gnp = importlib.import_module("gwpopulation.experimental.numpyro")
        wname = ch.choose("events", list(W))
        prior = ch.choose("prior", [True, False])
        conv = ch.choose("conversion", ["default", "rename", "in place"])
        redshift = ch.choose("redshift", [False, True])
        p = ch.choose("point", POINTS[:3] + POINTS[4:])
        apply_selection = ch.choose("apply_selection", [True, False])
        predictive = ch.choose("predictive_resample", [False, True])
        fit = ch.choose("fit_keys", [None, ["y"]]) if predictive else None
        like, vt = build(ch, wname, prior, conv=conv, redshift=redshift)
        par = point(p, conv, "hyper", redshift)
        w = per_event(like, wname, p, prior)
        iw, mu, var = injections(p)
        if redshift:
            zs = as_numpy(like.data["redshift"])
            zm = like.hyper_prior.models[1]
            w = w * as_numpy(zm(dict(redshift=api.arr(zs)), lamb=1.0))
            iw = iw * as_numpy(zm(dict(redshift=vt.data["redshift"]), lamb=1.0))
            mu = iw.sum() / 40
            var = (iw**2).sum() / 1600 - mu**2 / 40
        n = len(w)
        ev = L.event_variances(w)
        lnbf = np.log(w.mean(axis=-1))
        if not np.isfinite(lnbf).all():
            return
        sel, svar = (-n * np.log(mu), n**2 * var / mu**2) if apply_selection else (0.0, 0.0)
        total, tvar = lnbf.sum() + sel, ev.sum() + svar
        limits = ["default", tvar * 1.01 + 1e-6, tvar * 0.99] + ([np.sqrt(tvar)] if abs(tvar - 1) > 0.02 else [])
        varmax = ch.choose("varmax", limits)
        kw = dict(apply_selection=apply_selection, predictive_resample=predictive)
        if fit is not None:
            kw["fit_keys"] = fit
        if varmax != "default":
            kw["varmax"] = varmax
        guard = Guard(par, {k: as_numpy(v) for k, v in like.data.items()})
        out = []

        def program():
            out.append(gnp.gwpopulation_likelihood_model(like, par, **kw))

        trace = ch.op("numpyro model", handlers.trace(handlers.seed(program, jax.random.PRNGKey(3))).get_trace)
        guard.check(ch)
        value = as_numpy(out[0])
        expected = total if varmax == "default" or tvar <= varmax else L.LOWEST
        tol = dict(rtol=1e-9, atol=1e-9)
        ch.equal("value", value, expected, **tol)
        ch.equal("ln_bayes_factors", trace["ln_bayes_factors"]["value"], lnbf, **tol)
        ch.equal("variances", trace["variances"]["value"], ev, **tol)
        ch.equal("ln_l", trace["ln_l"]["value"], total, **tol)
        ch.equal("variance", trace["variance"]["value"], tvar, **tol)
        for name in ("ln_bayes_factors", "variances", "ln_l", "variance"):
            ch.check(trace[name]["type"] == "deterministic", f"{name} is not deterministic")
        if apply_selection:
            ch.equal("selection", trace["selection"]["value"], sel, **tol)
            ch.equal("selection_variance", trace["selection_variance"]["value"], svar, **tol)
            vol = float(as_numpy(vt.surveyed_hypervolume(dict(lamb=1.0))))
            fn = trace["rate"]["fn"]
            ch.equal("mean of the rate", fn.mean, n / (mu * vol), rtol=1e-9)
            ch.equal("variance of the rate", fn.variance, n / (mu * vol) ** 2, rtol=1e-9)
        else:
            ch.check("selection" not in trace and "rate" not in trace, "selection sites without selection")
        # and the plain likelihood's own numbers
        if apply_selection:
            plain_value = ch.op("plain", like.log_likelihood_ratio, dict(par))
            ch.equal("plain", plain_value, total, **tol)
        keys = fit if fit is not None else list(like.data)
        expected_sites = set()
        if predictive:
            ids = as_numpy(like.data["x"]).astype(int)
            for ii in range(n):
                expected_sites |= {f"{k}_{ii}" for k in keys}
                good = [jj for jj in range(ids.shape[1]) if w[ii, jj] > 0]
                rows = []
                for k in keys:
                    val = float(as_numpy(trace[f"{k}_{ii}"]["value"]))
                    rows.append({jj for jj in good if as_numpy(like.data[k])[ii, jj] == val})
                ch.check(bool(set.intersection(*rows)), lambda: f"event {ii}: not a row of this event with positive weight")
            if apply_selection:
                ikeys = fit if fit is not None else [k for k in vt.data if np.ndim(as_numpy(vt.data[k]))]
                expected_sites |= {f"{k}_injections" for k in ikeys}
                for k in ikeys:
                    ch.check(as_numpy(trace[f"{k}_injections"]["value"]).shape[:1] == (n,), "number of predicted detections")
                if fit is None:
                    got = as_numpy(trace["x_injections"]["value"]).astype(int)
                    gy = as_numpy(trace["y_injections"]["value"])
                    ch.check(np.allclose(gy, as_numpy(vt.data["y"])[got]), "columns of an injection were separated")
                    if (iw > 0).sum() >= n:
                        ch.check((iw[got] > 0).all(), "an injection of zero weight was drawn")
        fixed = {"ln_bayes_factors", "variances", "ln_l", "variance"}
        fixed |= {"selection", "selection_variance", "rate"} if apply_selection else set()
        ch.check(set(trace) == fixed | expected_sites, lambda: f"sites {sorted(trace)}")

    def point_mass(ch):
        """weights concentrated on one row of each event: that row is drawn"""
        import jax
        from numpyro import handlers

        gnp = importlib.import_module("gwpopulation.experimental.numpyro")
        n, k = ch.choose("events, samples", [(1, 3), (2, 3), (3, 2), (1, 4000), (2, 4000)])
        # (with very many rows any weight leaked to the others is as good as certain to show)
        rows = ch.choose("rows", list(itertools.product(range(k), repeat=n)) if k < 10
                         else list(itertools.product((0, 1777, k - 1), repeat=n)))
        base = ch.choose("magnitude", [1.0, 1e-3])
        w = np.zeros((n, k))
        for ii, jj in enumerate(rows):
            w[ii, jj] = base * (ii + 1)
        posts = L.frames(n, k)
        for df in posts:
            df["z"] = 10 * df["x"]
        like = H.HyperparameterLikelihood(posts, Model([L.Table(api, w).function()], cache=False))
        trace = ch.op("numpyro model", handlers.trace(handlers.seed(
            lambda: gnp.gwpopulation_likelihood_model(like, dict(scale=1.0), apply_selection=False), jax.random.PRNGKey(0))).get_trace)
        for ii, jj in enumerate(rows):
            ch.equal(f"x_{ii}", trace[f"x_{ii}"]["value"], ii * k + jj, rtol=0)
            ch.equal(f"z_{ii}", trace[f"z_{ii}"]["value"], 10 * (ii * k + jj), rtol=0)

    def point_mass_injections(ch):
        """as many injections of positive weight as events: those are the predicted detections"""
        import jax
        from numpyro import handlers

        gnp = importlib.import_module("gwpopulation.experimental.numpyro")
        n = ch.choose("events", [1, 2, 3])
        m = ch.choose("injections", [4, 3000])
        rows = ch.choose("rows", [r for r in itertools.product((0, 1, m // 2, m - 1), repeat=n) if len(set(r)) == n and list(r) == sorted(r)])
        w = np.zeros(m)
        for ii, jj in enumerate(rows):
            w[jj] = 1.0 + ii
        inj = dict(x=api.arr(np.arange(m)), y=api.arr(7.0 * np.arange(m)), prior=api.arr(np.full(m, 0.5)),
                   total_generated=2 * m, analysis_time=1.5)
        vt = api.vt.ResamplingVT(Model([L.Table(api, w).function()], cache=False), inj, n_events=n, enforce_convergence=False)
        like = H.HyperparameterLikelihood(L.frames(n, 2), Model([L.Table(api, np.ones((n, 2))).function()], cache=False),
                                          selection_function=vt)
        trace = ch.op("numpyro model", handlers.trace(handlers.seed(
            lambda: gnp.gwpopulation_likelihood_model(like, dict(scale=1.0)), jax.random.PRNGKey(0))).get_trace)
        got = as_numpy(trace["x_injections"]["value"])
        ch.equal("predicted detections", np.sort(got), np.array(rows, dtype=float), rtol=0)
        ch.equal("their other columns", trace["y_injections"]["value"], 7.0 * got, rtol=0)

    if group.startswith("jit"):
        explore_dfs(jit, stats, "jit", findings)
    elif group == "kwargs":
        explore_dfs(jit_kwargs, stats, "jit_kwargs", findings)
    elif group.startswith("real"):
        explore_dfs(real, stats, "real", findings)
    elif group == "point_mass":
        explore_dfs(point_mass, stats, "point_mass", findings)
        explore_dfs(point_mass_injections, stats, "point_mass_injections", findings)
    else:
        explore_dfs(sites, stats, "sites", findings)
