"""C11: the uncertainty is propagated and its limit enforced."""
import numpy as np

from mc import like as L
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    H = api.hyperpe

    CLASSES = dict(hyper=H.HyperparameterLikelihood, null=H.NullHyperparameterLikelihood, rate=H.RateLikelihood)
    # selection: value and variance (powers of two: exact arithmetic)
    SELECTIONS = {
        "number": (0.5, None),
        "exact": (0.5, 1 / 64),  # relative variance 1/16
        "large": (0.25, 1.0),  # relative variance 16
        "no variance": (0.5, 0.0),
        "huge": (1 / 64, 16.0),  # relative variance 65536
    }
    MATRICES = [
        np.array([[1.0]]), np.array([[1.0, 1.0]]), np.array([[0.0, 2.0]]), np.array([[1.0, 3.0]]),
        np.array([[0.0, 0.0, 0.0, 4.0]]), np.array([[1.0, 1, 1, 0.5], [3.0, 1, 2, 2]]),
        np.array([[0.0, 2.0], [2.0, 0.0]]), np.array([[0.0, 2.0], [1.0, 1.0], [2.0, 0.0]]),
        np.array([[2.0, 2.0], [8.0, 8.0]]), np.array([[1e-3, 1.0, 1.0, 1e3]]),
        0.25 * (1 + (np.arange(36) * 7 % 11).reshape(12, 3)),  # two-digit event numbers
    ]

    def select(name):
        value, var = SELECTIONS[name]
        return (lambda p: value) if var is None else (lambda p: (value, var))

    def total_variance(cls, w, name, rate):
        value, var = SELECTIONS[name]
        var = var or 0.0
        if cls == "rate":
            return np.sum(L.event_variances(w)) + rate**2 * var
        return np.sum(L.event_variances(w)) + len(w) ** 2 * var / value**2

    def value(cls, w, name, rate, scale):
        if cls == "null":
            return 0.0
        v = SELECTIONS[name][0]
        if cls == "rate":
            return np.sum(np.log(np.mean(w * scale, axis=-1))) + len(w) * np.log(rate) - rate * v
        return L.ln_l(w, v, scale)

    def limit(ch):
        cls = ch.choose("class", list(CLASSES))
        w = ch.choose("weights", MATRICES if full else MATRICES[1:7])
        sel = ch.choose("selection", list(SELECTIONS))
        scale = ch.choose("scale", [1, 0.25] if full else [1])
        rate = ch.choose("rate", [1, 4.0]) if cls == "rate" else None
        var = total_variance(cls, w, sel, rate)
        sd = np.sqrt(var)
        # both sides of the threshold, on small and large scales
        options = ["inf", sd * 1.001 + 1e-5, 10 * sd + 1]
        if sd > 0:
            options += [sd * 0.999, sd / 10]
        for exact in (0.5, 1, 2, 4):
            if sd == exact:
                options += [exact]
        # the value between the variance and the uncertainty
        options += [np.sqrt(sd)] if abs(sd - 1) > 0.01 and sd > 0 else []
        options += [var] if abs(sd - 1) > 0.01 and sd > 0 else []
        how = ch.choose("limit set", ["constructor", "attribute", "changed"] if full else ["constructor", "changed"])
        uncertainty = ch.choose("maximum_uncertainty", options)
        unc = np.inf if uncertainty == "inf" else uncertainty
        posts = L.frames(*w.shape)
        kw = dict(selection_function=select(sel))
        if how == "constructor":
            kw["maximum_uncertainty"] = unc
        elif how == "changed":
            kw["maximum_uncertainty"] = 1e-6 if unc > sd else np.inf
        like = ch.op("construct", CLASSES[cls], posts, L.Table(api, w).function(), **kw)
        par = dict(scale=scale)
        if cls == "rate":
            par["rate"] = rate
        if how == "changed":
            ch.op("before", like.log_likelihood_ratio, par)
        if how != "constructor":
            like.maximum_uncertainty = unc
        ch.equal("maximum_uncertainty", like.maximum_uncertainty, unc, rtol=0)
        guard = Guard(par)
        lnl, v = ch.op("ln_likelihood_and_variance", like.ln_likelihood_and_variance, par)
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, par)
        guard.check(ch)
        ch.equal("variance", v, var, rtol=1e-9, atol=1e-14)
        exp = value(cls, w, sel, rate, scale)
        ch.equal("ln_likelihood", lnl, exp, rtol=1e-10, atol=1e-12)
        ch.equal("log_likelihood_ratio", got, exp if sd <= unc else L.LOWEST, rtol=1e-10, atol=1e-12)

    def statistics(ch):
        cls = ch.choose("class", list(CLASSES))
        w = ch.choose("weights", MATRICES)
        sel = ch.choose("selection", list(SELECTIONS))
        conv = ch.choose("conversion", ["default", "rename", "in place"])
        rate = ch.choose("rate", [1, 4.0]) if cls == "rate" else None
        extra = ch.choose("other entries", [{}, dict(selected=3.0, variance_of_mine=-1.0, label="text")])
        kw = dict(selection_function=select(sel))
        sample = dict(scale=2.0) if conv == "default" else dict(twice_scale=4.0)
        if conv != "default":
            kw["conversion_function"] = L.convert_rename if conv == "rename" else L.convert_inplace
        if rate:
            sample["rate"] = rate
        sample.update(extra)
        original = dict(sample)
        like = ch.op("construct", CLASSES[cls], L.frames(*w.shape), L.Table(api, w).function(), **kw)
        out = ch.op("generate_extra_statistics", like.generate_extra_statistics, sample)
        n = len(w)
        sval, svar = SELECTIONS[sel]
        svar = svar or 0.0
        expected = dict(original)
        ev = L.event_variances(w)
        for ii in range(n):
            expected[f"ln_bf_{ii}"] = np.log(np.mean(w[ii] * 2.0))
            expected[f"var_{ii}"] = ev[ii]
        expected["selection"] = sval
        expected["selection_variance"] = svar / sval**2
        expected["variance"] = total_variance(cls, w, sel, rate)
        ch.check(set(out) == set(expected), lambda: f"entries {sorted(out)}, expected {sorted(expected)}")
        for key, val in expected.items():
            if isinstance(val, str):
                ch.check(out[key] == val, f"{key} changed")
            else:
                ch.equal(key, out[key], val, rtol=1e-9, atol=1e-14)
        if conv == "default":
            _, v = ch.op("ln_likelihood_and_variance", like.ln_likelihood_and_variance, dict(original))
            ch.equal("variance as in the likelihood", out["variance"], as_numpy(v), rtol=1e-10, atol=1e-14)

    def sequences(ch):
        """the limit currently set decides, in any sequence of settings and queries"""
        cls = ch.choose("class", list(CLASSES))
        sel = ch.choose("selection", ["number", "exact"])
        w = MATRICES[6]
        like = ch.op("construct", CLASSES[cls], L.frames(*w.shape), L.Table(api, w).function(),
                     selection_function=select(sel))
        par = dict(scale=1.0, rate=2.0) if cls == "rate" else dict(scale=1.0)
        sd = np.sqrt(total_variance(cls, w, sel, 2.0))
        current = np.inf
        for ii in range(4 if th else 3):
            new = ch.choose(f"set {ii}", ["keep", np.inf, 0.5, 1.05, 3.0, 2])
            if new != "keep":
                like.maximum_uncertainty = new
                current = new
            query = ch.choose(f"query {ii}", ["ratio", "statistics"])
            if query == "ratio":
                got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, dict(par))
                exp = value(cls, w, sel, 2.0, 1.0)
                ch.equal("log_likelihood_ratio", got, exp if sd <= current else L.LOWEST, rtol=1e-10, atol=1e-12)
            else:
                out = ch.op("generate_extra_statistics", like.generate_extra_statistics, dict(par))
                ch.equal("variance", out["variance"], sd**2, rtol=1e-9)

    def sampled(ch):
        """the variance uses the number of samples that were kept"""
        sizes = ch.choose("sizes", [(3, 3), (4, 2), (5, 6)])
        limit = ch.choose("max_samples", [1e100, 2, 3])
        total = sum(sizes)
        w = np.array([0.5 * (1 + (7 * ii) % 5) for ii in range(total)])
        like = ch.op("construct", H.HyperparameterLikelihood, L.frames(2, sizes), L.Table(api, w).function(),
                     max_samples=limit)
        ids = as_numpy(like.data["x"]).astype(int)
        _, v = ch.op("ln_likelihood_and_variance", like.ln_likelihood_and_variance, dict(scale=1.0))
        ch.equal("variance", v, np.sum(L.event_variances(w[ids])), rtol=1e-9)

    if part == "limit":
        explore_dfs(limit, stats, "limit", findings)
    else:
        explore_dfs(statistics, stats, "statistics", findings)
        explore_dfs(sequences, stats, "sequences", findings)
        explore_dfs(sampled, stats, "sampled", findings)
