"""C10: the likelihood equals the documented Monte Carlo estimator."""
import numpy as np

from mc import like as L
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    H = api.hyperpe
    rtol = 1e-10

    class OnObject:
        """a callable object as selection function"""

        def __init__(self, value):
            self.value = value

        def __call__(self, parameters):
            return self.value

    SELECTIONS = {
        "default": (None, 1.0),
        "int 1": (lambda p: 1, 1.0),
        "0.25": (lambda p: 0.25, 0.25),
        "tuple": (lambda p: (0.25, 0.015625), 0.25),
        "tuple, no variance": (lambda p: (4.0, 0.0), 4.0),
        "array scalar": (lambda p: api.arr(0.3), 0.3),
        "array tuple": (lambda p: (api.arr(0.3), api.arr(0.001)), 0.3),
        "zero": (lambda p: 0.0, 0.0),
        "zero tuple": (lambda p: (0.0, 0.0), 0.0),
        "nan": (lambda p: np.nan, np.nan),
        "inf": (lambda p: np.inf, np.inf),
        "inf tuple": (lambda p: (np.inf, 0.1), np.inf),
        "negative": (lambda p: -0.5, -0.5),
        "object": (OnObject(0.5), 0.5),
        "parameter": (lambda p: 0.1 * p["scale"], None),
    }

    def expected(w, sel, scale=1.0):
        value = L.ln_l(w, sel, scale)
        return value if np.isfinite(value) else L.LOWEST

    def build(ch, table, posts, form="function", selection=None, **kw):
        prior = dict(function=table.function, model=table.model, custom=table.custom,
                     uncached=lambda: table.model(cache=False))[form]()
        if selection is not None:
            kw["selection_function"] = selection
        return ch.op("construct", H.HyperparameterLikelihood, posts, prior, **kw)

    def kept(like, weights, prior=None):
        """weights of the rows the likelihood works with"""
        ids = as_numpy(like.data["x"]).astype(int)
        w = np.asarray(weights).ravel()[ids]
        if prior is not None:
            w = w / np.asarray(prior).ravel()[ids]
        return w

    alphabet = [0.0, 0.5, 3.0] if full else [0.0, 0.5]

    def estimator(ch):
        """all weight matrices over a small alphabet, including zeros"""
        n, k = ch.choose("events, samples", [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (3, 2)])
        if n * k > 4:
            w = ch.choose("weights", L.matrices(n, k, alphabet[:2] if not th else alphabet))
        else:
            w = ch.choose("weights", L.matrices(n, k, alphabet))
        pr = ch.choose("prior", ["absent", "column", "ones"])
        prior = None
        if pr == "column":
            prior = 0.25 * 2.0 ** (np.arange(n * k) % 5).reshape(n, k)
        elif pr == "ones":
            prior = np.ones((n, k))
        sel = ch.choose("selection", ["default", "tuple", "zero"] if n * k > 2 else ["default", "0.25", "tuple", "zero", "inf"])
        func, value = SELECTIONS[sel]
        posts = L.frames(n, k, prior)
        guard = Guard(posts)
        like = build(ch, L.Table(api, w), posts, selection=func)
        par = dict(scale=1.0)
        pguard = Guard(par)
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, par)
        lnl, var = ch.op("ln_likelihood_and_variance", like.ln_likelihood_and_variance, par)
        guard.check(ch, "the posteriors")
        pguard.check(ch)
        ww = kept(like, w, prior)
        exp = expected(ww, value)
        ch.equal("log_likelihood_ratio", got, exp, rtol=rtol, atol=1e-10)
        if np.isfinite(exp) and exp != L.LOWEST:
            ch.equal("ln_likelihood", lnl, exp, rtol=rtol, atol=1e-10)

    def forms(ch):
        n, k = 2, 3
        w = ch.choose("weights", [np.array([[1.0, 2, 0.5], [0.25, 4, 3]]), np.array([[1.0, 0, 0], [0, 0, 0.5]]),
                                  np.array([[1e-200, 2e-200, 0], [1e200, 1e150, 1]]), np.array([[1.0, 1, 1], [0, 0, 0]]),
                                  np.array([[np.nan, 1, 1], [1, 1, 1]]), np.array([[np.inf, 1, 1], [1, 1, 1]])])
        form = ch.choose("model", ["function", "model", "custom", "uncached"])
        sel = ch.choose("selection", list(SELECTIONS))
        scale = ch.choose("scale", [1, 0.5, 3.0])
        conv = ch.choose("conversion", ["default", "rename"])
        evid = ch.choose("ln_evidences", [None, [1.5, -2.25], np.array([100.0, 3.0]), (-np.inf, 4.0), [2.0, np.nan]] if full
                         else [None, [1.5, -2.25]])
        func, value = SELECTIONS[sel]
        if value is None:
            value = 0.1 * scale
        kw = {}
        if conv == "rename":
            kw["conversion_function"] = L.convert_rename
        if evid is not None:
            kw["ln_evidences"] = evid
        posts = L.frames(n, k)
        like = build(ch, L.Table(api, w), posts, form, func, **kw)
        par = dict(scale=scale) if conv == "default" else dict(twice_scale=2 * scale)
        pguard = Guard(par)
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, par)
        exp = expected(kept(like, w), value, scale)
        ch.equal("log_likelihood_ratio", got, exp, rtol=rtol, atol=1e-10)
        pguard.check(ch)
        again = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, par)
        ch.equal("second call", again, as_numpy(got), rtol=0)
        noise = ch.op("noise_log_likelihood", like.noise_log_likelihood)
        enoise = np.nan if evid is None else float(np.sum(evid))
        ch.equal("noise_log_likelihood", noise, enoise, rtol=1e-12)
        total = ch.op("log_likelihood", like.log_likelihood, par)
        ch.equal("log_likelihood", total, enoise + exp, rtol=rtol, atol=1e-10)
        ch.check(np.ndim(as_numpy(got)) == 0, "the likelihood is not a number")

    def zero_prior(ch):
        """samples with a vanishing or undefined sampling prior make the estimate undefined"""
        bad = ch.choose("prior value", [0.0, np.nan])
        where = ch.choose("sample", list(range(6)))
        weight = ch.choose("weight there", [0.0, 2.0])
        value = ch.choose("selection", ["0.25", "tuple"])
        w = np.array([1.0, 2, 0.5, 0.25, 4, 3])
        w[where] = weight
        prior = np.array([0.5, 1.0, 2.0, 1.0, 0.25, 4.0])
        prior[where] = bad
        posts = L.frames(2, 3)
        for ii, df in enumerate(posts):
            df["prior"] = prior[3 * ii:3 * ii + 3]
        like = build(ch, L.Table(api, w), posts, selection=SELECTIONS[value][0])
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, dict(scale=1.0))
        ch.equal("log_likelihood_ratio", got, L.LOWEST, rtol=1e-12)

    def limited(ch):
        """estimators after down-sampling use the rows and priors that were kept"""
        sizes = ch.choose("sizes", [(3, 3), (4, 2), (2, 5), (3, 4, 2), (1, 3), (40, 7), (5, 9, 4, 3, 8, 7, 6, 5, 4, 12, 3, 9)])
        limit = ch.choose("max_samples", [1e100, 1, 2, 3, 10])
        seed = ch.choose("seed", [0, 1, 2])
        pr = ch.choose("prior", [False, True])
        total = sum(sizes)
        w = np.array([0.5 * (1 + (7 * ii) % 5) for ii in range(total)])
        prior = np.array([0.1 * (1 + (3 * ii) % 7) for ii in range(total)])
        posts = L.frames(len(sizes), sizes)
        start = 0
        for df in posts:
            if pr:
                df["prior"] = prior[start:start + len(df)]
            start += len(df)
        guard = Guard(posts)
        np.random.seed(seed)
        like = build(ch, L.Table(api, w), posts, selection=SELECTIONS["tuple"][0], max_samples=limit)
        guard.check(ch, "the posteriors")
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, dict(scale=1.0))
        ww = kept(like, w, prior if pr else None)
        ch.check(ww.shape == (len(sizes), int(min(min(sizes), limit))), f"shape {ww.shape}")
        ch.equal("log_likelihood_ratio", got, expected(ww, 0.25), rtol=rtol)
        _, var = ch.op("ln_likelihood_and_variance", like.ln_likelihood_and_variance, dict(scale=1.0))
        ch.equal("variance", var, np.sum(L.event_variances(ww)) + len(sizes) ** 2 * 0.25, rtol=1e-9)

    def many(ch):
        """more events and samples than a hand-written case"""
        n = ch.choose("events", [1, 2, 7, 40])
        k = ch.choose("samples", [1, 5, 50])
        sel = ch.choose("selection", ["0.25", "tuple", "inf"])
        w = (1.0 + np.arange(n * k) % 13) / 7
        w[:: 3] = 0 if k > 3 else 1
        like = build(ch, L.Table(api, w), L.frames(n, k), selection=SELECTIONS[sel][0])
        got = ch.op("log_likelihood_ratio", like.log_likelihood_ratio, dict(scale=0.3))
        ch.equal("log_likelihood_ratio", got, expected(kept(like, w), SELECTIONS[sel][1], 0.3), rtol=rtol)

    def reject(ch):
        what = ch.choose("hyper_prior", [3.0, "text", None])
        table = L.frames(1, 2)
        ch.raises("construct", (AttributeError, TypeError), H.HyperparameterLikelihood, table, what)

    if part == "estimator":
        explore_dfs(estimator, stats, "estimator", findings)
    else:
        explore_dfs(forms, stats, "forms", findings)
        explore_dfs(limited, stats, "limited", findings)
        explore_dfs(zero_prior, stats, "zero_prior", findings)
        explore_dfs(many, stats, "many", findings)
        explore_dfs(reject, stats, "reject", findings)
