"""C12: Poisson likelihood and rate posterior follow the documented law."""
import numpy as np
from scipy import stats as ss

from mc import like as L
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs


def run(group, tier, stats, findings):
    from bilby.hyper.model import Model

    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    H = api.hyperpe

    class WithVolume:
        """selection function that knows its surveyed hypervolume"""

        def __init__(self, eff, vol, var=0.01):
            self.eff, self.vol, self.var = eff, vol, var

        def __call__(self, parameters):
            return self.eff * 17.0, self.var  # must not be used for the rate

        def detection_efficiency(self, parameters):
            return self.eff * parameters["scale"], self.var

        def surveyed_hypervolume(self, parameters):
            return self.vol * parameters["scale"]

    class OnlyEfficiency(WithVolume):
        surveyed_hypervolume = property()

    SELECTIONS = {
        "number": lambda: ((lambda p: 0.5), 0.5, 0.0),
        "scaled": lambda: ((lambda p: 3.0 * p["scale"]), None, 0.0),
        "tuple": lambda: ((lambda p: (0.25, 0.02)), 0.25, 0.02),
        "int": lambda: ((lambda p: 2), 2.0, 0.0),
        "array": lambda: ((lambda p: (api.arr(0.125), api.arr(0.5))), 0.125, 0.5),
    }
    MATRICES = [np.array([[1.0]]), np.array([[0.0, 2.0]]), np.array([[1.0, 3.0], [2.0, 0.5]]),
                np.array([[1.0, 3.0, 0], [2.0, 0.5, 1], [1, 1, 1]]), np.array([[0.0, 0.0], [1, 1]])]

    def ratelike(ch):
        w = ch.choose("weights", MATRICES)
        sel = ch.choose("selection", list(SELECTIONS))
        rate = ch.choose("rate", [1, 0.5, 20.0, 1e-3, 0.0] if full else [1, 20.0, 0.0])
        scale = ch.choose("scale", [1, 0.3])
        conv = ch.choose("conversion", ["default", "rename", "rate"])
        func, value, var = SELECTIONS[sel]()
        value = 3.0 * scale if value is None else value
        kw = dict(selection_function=func)
        par = dict(scale=scale, rate=rate)
        if conv == "rename":
            kw["conversion_function"] = L.convert_rename
            par = dict(twice_scale=2 * scale, rate=rate)
        elif conv == "rate":
            kw["conversion_function"] = lambda p: (dict(p, rate=p["half_rate"] * 2), ["rate"])
            par = dict(scale=scale, half_rate=rate / 2)
        like = ch.op("construct", H.RateLikelihood, L.frames(*w.shape), L.Table(api, w).function(), **kw)
        guard = Guard(par)
        lnl, v = ch.op("ln_likelihood_and_variance", like.ln_likelihood_and_variance, par)
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, par)
        guard.check(ch)
        with np.errstate(all="ignore"):
            exp = np.sum(np.log(np.mean(w * scale, axis=-1))) + len(w) * np.log(rate) - rate * value
        if np.isfinite(exp):
            ch.equal("ln_likelihood", lnl, exp, rtol=1e-10, atol=1e-12)
            ch.equal("variance", v, np.sum(L.event_variances(w)) + rate**2 * var, rtol=1e-9, atol=1e-14)
        ch.equal("log_likelihood_ratio", got, exp if np.isfinite(exp) else L.LOWEST, rtol=1e-10, atol=1e-12)
        if conv != "rate":
            r = ch.op("generate_rate_posterior_sample", like.generate_rate_posterior_sample, par)
            ch.equal("rate", r, rate, rtol=0)
            guard.check(ch)

    def draws(ch):
        """the law of the rate draws: a fixed list of seeds, all of them"""
        n = ch.choose("events", [1, 2, 3, 8] if full else [1, 3])
        sel = ch.choose("selection", list(SELECTIONS) + ["volume", "only efficiency", "ResamplingVT"])
        scale = ch.choose("scale", [1, 0.25])
        conv = ch.choose("conversion", ["default", "rename", "in place"] if full else ["default", "in place"])
        cls = ch.choose("class", ["hyper", "null"] if full else ["hyper"])
        kw = {}
        if sel == "volume":
            func, vt = WithVolume(0.02, 50.0), 0.02 * scale * 50.0 * scale
        elif sel == "only efficiency":
            class Partial:
                def __call__(self, parameters):
                    return 0.75, 0.1

                def detection_efficiency(self, parameters):
                    return 0.1, 0.1
            func, vt = Partial(), 0.75
        elif sel == "ResamplingVT":
            table = L.Table(api, [1.0, 2.0, 0.5])
            func = api.vt.ResamplingVT(table.function(), dict(x=api.arr([0, 1, 2]), prior=api.arr([1.0, 0.5, 2]),
                                                              total_generated=20, analysis_time=2.0))
            vt = scale * (1 + 4 + 0.25) / 20 * float(as_numpy(func.surveyed_hypervolume({})))
        else:
            func, vt, _ = SELECTIONS[sel]()
            vt = 3.0 * scale if vt is None else vt
        par = dict(scale=scale)
        if conv != "default":
            kw["conversion_function"] = L.convert_rename if conv == "rename" else L.convert_inplace
            par = dict(twice_scale=2 * scale)
        w = np.ones((n, 2))
        cl = H.HyperparameterLikelihood if cls == "hyper" else H.NullHyperparameterLikelihood
        like = ch.op("construct", cl, L.frames(n, 2), L.Table(api, w).function(), selection_function=func, **kw)
        guard = Guard(par)
        m = 300 if full else 250
        values = []
        for seed in range(m):
            np.random.seed(seed + 7919 * n)
            values.append(float(as_numpy(like.generate_rate_posterior_sample(par))))
        stats.transitions += m
        guard.check(ch)
        values = np.array(values) * vt  # should be Gamma(n, 1)
        ch.observe("draws", (n, vt))
        ch.check((values > 0).all(), "non-positive rate")
        ch.check(abs(values.mean() - n) < 7 * np.sqrt(n / m), lambda: f"mean {values.mean()} of the scaled draws, expected {n}")
        ks = ss.kstest(values, "gamma", args=(n,)).pvalue
        ch.check(ks > 1e-9, lambda: f"draws do not follow Gamma({n}, 1): p={ks}")

    def scaling(ch):
        """same random numbers, different volume: exactly inverse rates"""
        n = ch.choose("events", [1, 4])
        seed = ch.choose("seed", list(range(6)))
        first, second = [
            ch.op("construct", H.HyperparameterLikelihood, L.frames(n, 2), L.Table(api, np.ones((n, 2))).function(),
                  selection_function=(lambda p, v=v: v))
            for v in (1.0, ch.choose("volume", [0.5, 3.0, 1e-6, 1e8]))
        ]
        out = []
        for like in (first, second, first):
            np.random.seed(seed)
            out.append(float(as_numpy(ch.op("generate_rate_posterior_sample", like.generate_rate_posterior_sample, dict(scale=1.0)))))
        if out[0] == out[2]:  # the draws are a function of numpy's state
            ch.equal("scaled rate", out[1] * second.selection_function(None), out[0], rtol=1e-10)

    def histories(ch):
        """one likelihood, every short sequence of points: each draw follows the law of its own point"""
        n = ch.choose("events", [1, 6] if full else [6])
        sel = ch.choose("selection", ["ResamplingVT", "volume", "function"])
        conv = ch.choose("conversion", ["default", "rename", "in place"])
        points = ch.choose("points", [(0.0, 6.0), (6.0, 0.0), (0.0, -4.0, 6.0), (6.0, 6.0, -4.0)])
        zs = np.linspace(0.1, 0.9, 12)

        def volume(lamb):
            z = api.redshift.PowerLawRedshift(z_max=1)
            return float(as_numpy(z.normalisation(dict(lamb=lamb)))) / 1e9

        def selection():
            if sel == "ResamplingVT":
                return api.vt.ResamplingVT(
                    Model([api.redshift.PowerLawRedshift(z_max=1)]),
                    dict(redshift=api.arr(zs), prior=api.arr(np.full(12, 0.25)), total_generated=200, analysis_time=1.5),
                    n_events=n, enforce_convergence=False)
            if sel == "volume":
                class Volume(WithVolume):
                    def detection_efficiency(self, parameters):
                        return 0.1 + abs(parameters["lamb"]), 0.0

                    def surveyed_hypervolume(self, parameters):
                        return 10.0 ** parameters["lamb"]
                return Volume(1, 1)
            return lambda p: 10.0 ** p["lamb"]

        def expected(lamb):
            if sel == "function":
                return 10.0**lamb
            if sel == "volume":
                return (0.1 + abs(lamb)) * 10.0**lamb
            z = api.redshift.PowerLawRedshift(z_max=1)
            prob = as_numpy(z(dict(redshift=api.arr(zs)), lamb=lamb))
            return float(np.sum(prob / 0.25) / 200 * volume(lamb) * 1.5)

        kw = dict(selection_function=selection())
        if conv != "default":
            def convert(p):
                new = p if conv == "in place" else dict(p)
                new["lamb"] = 2 * new["half"]
                return new, ["lamb"]
            kw["conversion_function"] = convert
        like = ch.op("construct", H.HyperparameterLikelihood, L.frames(n, 2), L.Table(api, np.ones((n, 2))).function(), **kw)
        m = 150
        par = [dict(half=v / 2) if conv != "default" else dict(lamb=v) for v in points]
        guard = Guard(*par)
        values = np.empty((len(points), m))
        for seed in range(m):
            for ii, q in enumerate(par):
                np.random.seed(seed)
                values[ii, seed] = float(as_numpy(like.generate_rate_posterior_sample(q)))
        stats.transitions += values.size
        guard.check(ch)
        vts = np.array([expected(v) for v in points])
        ch.observe("volumes", tuple(vts))
        scaled = values * vts[:, None]
        again = []
        for _ in range(2):
            np.random.seed(0)
            again.append(float(as_numpy(like.generate_rate_posterior_sample(par[0]))))
        for ii in range(len(points)):
            if again[0] == again[1]:  # the draws are a function of numpy's state
                ch.equal(f"draw {ii} against draw 0", scaled[ii], scaled[0], rtol=1e-9)
            ks = ss.kstest(scaled[ii], "gamma", args=(n,)).pvalue
            ch.check(ks > 1e-9, lambda: f"draws at point {ii} of {points} do not follow Gamma({n}, 1): p={ks}")

    if part == "rate":
        explore_dfs(histories, stats, "histories", findings)
        explore_dfs(ratelike, stats, "ratelike", findings)
        explore_dfs(scaling, stats, "scaling", findings)
    else:
        explore_dfs(draws, stats, "draws", findings)
