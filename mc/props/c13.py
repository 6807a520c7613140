"""C13: event data stay aligned through down-sampling and resampling."""
import itertools

import numpy as np
import pandas as pd

from mc import like as L
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    H = api.hyperpe

    INDEX = ["default", "offset", "duplicated", "reversed"]

    def frames(sizes, prior, index="default", shuffled_columns=False):
        posts, start = [], 0
        for ii, n in enumerate(sizes):
            x = np.arange(start, start + n, dtype=float)
            start += n
            cols = dict(x=x, y=1000 - x, event=np.full(n, float(ii)))
            if prior:
                cols["prior"] = 1 + 0.125 * x
            if shuffled_columns and ii % 2:
                cols = dict(reversed(list(cols.items())))
            df = pd.DataFrame(cols)
            if index == "offset":
                df.index = np.arange(10, 10 + n)
            elif index == "duplicated":
                df.index = np.zeros(n, dtype=int)
            elif index == "reversed":
                df.index = np.arange(n)[::-1]
            posts.append(df)
        return posts

    def check_data(ch, data, prior, sizes, keep, bounds):
        x = as_numpy(data["x"])
        ch.check(x.shape == (len(sizes), keep), lambda: f"shape {x.shape}, expected {(len(sizes), keep)}")
        ch.check(np.array_equal(as_numpy(data["y"]), 1000 - x), "columns of a row were separated")
        ch.check(np.array_equal(as_numpy(data["event"]), np.arange(len(sizes))[:, None] * np.ones(keep)),
                 "rows of another event")
        for ii in range(len(sizes)):
            rows = list(x[ii])
            ch.check(len(set(rows)) == keep, lambda: f"repeated rows {rows}")
            ch.check(all(bounds[ii] <= r < bounds[ii + 1] for r in rows), lambda: f"rows {rows} of event {ii}")
        if prior is not None:
            ch.check(np.array_equal(as_numpy(prior), 1 + 0.125 * x), "the sampling prior was separated from its row")
        ch.observe("rows", x)

    def load(ch):
        n = ch.choose("events", [1, 2, 3])
        sizes = ch.choose("sizes", list(itertools.product([1, 2, 3] if n == 3 else [1, 2, 3, 4], repeat=n)))
        limit = ch.choose("max_samples", [None, 1, 2, 3, 10] if full else [None, 2])
        prior = ch.choose("prior", [True, False])
        index = ch.choose("index", INDEX if n < 3 and full else INDEX[:2])
        shuffled = ch.choose("column order", [False, True]) if n > 1 else False
        posts = frames(sizes, prior, index, shuffled)
        guard = Guard(posts)
        kw = {} if limit is None else dict(max_samples=limit)
        like = ch.op("construct", H.HyperparameterLikelihood, posts, (lambda dataset, scale: dataset["x"] * 0 + scale), **kw)
        guard.check(ch, "the posteriors")
        keep = int(min(min(sizes), limit or 10**9))
        bounds = np.concatenate([[0], np.cumsum(sizes)])
        ch.check(int(like.samples_per_posterior) == keep, f"samples_per_posterior={like.samples_per_posterior}")
        ch.check(like.n_posteriors == n, "number of events")
        check_data(ch, like.data, like.sampling_prior if prior else None, sizes, keep, bounds)
        ch.check("prior" not in like.data, "the prior is part of the data")
        meta = ch.op("meta_data", lambda: like.meta_data)
        check_data(ch, meta["data"], meta["sampling_prior"] if prior else None, sizes, keep, bounds)
        ch.check(meta["n_events"] == n and int(meta["samples_per_posterior"]) == keep, "meta data")

    def load_draws(ch):
        """every answer of the random number generator"""
        sizes = ch.choose("sizes", [(3,), (2, 3), (3, 2), (4, 2), (3, 3), (5, 2), (1, 6)] if full else [(3, 2)])
        limit = ch.choose("max_samples", [1, 2])
        posts = frames(sizes, True, ch.choose("index", INDEX[:3]))
        guard = Guard(posts)
        with L.enumerate_choice(ch):
            like = ch.op("construct", H.HyperparameterLikelihood, posts,
                         (lambda dataset, scale: dataset["x"] * 0 + scale), max_samples=limit)
        guard.check(ch, "the posteriors")
        check_data(ch, like.data, like.sampling_prior, sizes, int(min(min(sizes), limit)),
                   np.concatenate([[0], np.cumsum(sizes)]))

    def load_many(ch):
        """more events, longer and more unequal posteriors than can be enumerated, fixed seeds"""
        sizes = ch.choose("sizes", [(3, 7, 5, 4, 9, 3, 6, 8, 3, 10, 4, 5), (9,) + (4,) * 11, (50, 6), (6, 50), (40, 30, 20),
                                    tuple(range(25, 2, -1))])
        limit = ch.choose("max_samples", [None, 2, 3, 17])
        prior = ch.choose("prior", [True, False])
        index = ch.choose("index", INDEX)
        np.random.seed(ch.choose("seed", list(range(8 if th else 3))))
        posts = frames(sizes, prior, index, True)
        guard = Guard(posts)
        kw = {} if limit is None else dict(max_samples=limit)
        like = ch.op("construct", H.HyperparameterLikelihood, posts, (lambda dataset, scale: dataset["x"] * 0 + scale), **kw)
        guard.check(ch, "the posteriors")
        check_data(ch, like.data, like.sampling_prior if prior else None, sizes, int(min(min(sizes), limit or 10**9)),
                   np.concatenate([[0], np.cumsum(sizes)]))

    # ------------------------------------------------------------------ resampling
    TABLES = {
        (1, 2): [np.array([[1.0, 3.0]]), np.array([[0.0, 1.0]])],
        (2, 2): [np.array([[1.0, 3.0], [0.0, 5.0]]), np.array([[1.0, 1.0], [8.0, 2.0]])],
        (2, 3): [np.array([[1.0, 0, 3.0], [0.0, 5.0, 0]]), np.array([[2.0, 1, 1], [0.5, 0.25, 4]])],
        (3, 2): [np.array([[1.0, 0], [0.0, 5.0], [1, 1]])],
    }

    def build(ch, w, prior, conversion="default"):
        n, k = w.shape
        posts = frames((k,) * n, prior)
        values = api.arr(w.ravel())

        def population(dataset, power):
            base = values[dataset["x"].astype(int)]
            return api.xp.where(base > 0, api.xp.where(base > 0, base, 1.0) ** power, 0.0)

        kw = {}
        if conversion == "in place":
            def convert(par):
                par["power"] = par["half"] * 2
                return par, ["power"]
            kw["conversion_function"] = convert
        like = ch.op("construct", H.HyperparameterLikelihood, posts, population, **kw)
        ids = as_numpy(like.data["x"]).astype(int)

        def reference(powers):
            total = 0
            for p in powers:
                base = w.ravel()[ids]
                ww = np.where(base > 0, np.where(base > 0, base, 1.0) ** p, 0.0)
                if prior:
                    ww = ww / (1 + 0.125 * ids)
                total = total + ww / ww.sum(axis=-1, keepdims=True)
            return total / len(powers)

        return like, ids, reference

    def hyper(form, powers, key):
        rows = [{key: p / (2 if key == "half" else 1), "other": 3.0} for p in powers]
        if form == "frame":
            return pd.DataFrame(rows)
        if form == "dict":
            return rows[0]
        return rows

    def verify(ch, like, ids, weights, new, w):
        n, k = w.shape
        x = as_numpy(new["x"])
        ch.check(set(new) == {"x", "y", "event"}, lambda: f"columns {sorted(new)}")
        ch.check(x.shape == (n, k), lambda: f"shape {x.shape}")
        ch.check(np.array_equal(as_numpy(new["y"]), 1000 - x), "columns of a row were separated")
        ch.check(np.array_equal(as_numpy(new["event"]), np.arange(n)[:, None] * np.ones(k)), "rows of another event")
        for ii in range(n):
            ok = set(ids[ii][weights[ii] > 0])
            ch.check(set(x[ii].astype(int)) <= ok, lambda: f"event {ii}: rows {x[ii]} drawn, allowed {ok}")

    forms = [("dict", (1,)), ("list", (1,)), ("list", (1, 2.0)), ("list", (0, 1, 3)), ("frame", (1.0,)), ("frame", (0.0, 1.0, 3.0))]

    # every hyper-sample counts, also when several are equal
    repeated = [("list", (1, 1, 3)), ("list", (2.0,) * 4 + (0,)), ("frame", (0.0, 3.0, 3.0))]
    onehot = np.zeros((14, 9))
    onehot[np.arange(14), np.arange(14) * 7 % 9] = 0.5 + np.arange(14)
    shared = onehot + np.roll(onehot, 1, axis=1)

    def resample(ch):
        w = ch.choose("weights", [t for ts in TABLES.values() for t in ts])
        once(ch, w, forms, ["default", "in place"], [0, 1, 2, 3])

    def resample_many(ch):
        """more events, and equal hyper-samples"""
        w = ch.choose("weights", [onehot, shared] + TABLES[(2, 3)])
        once(ch, w, repeated + forms[2:3], ["default"], [0, 1, 2, 3, 4])

    def once(ch, w, forms, conversions, seeds):
        prior = ch.choose("prior", [False, True])
        form, powers = ch.choose("hyper-samples", forms)
        conv = ch.choose("conversion", conversions)
        want = ch.choose("return_weights", [True, False])
        seed = ch.choose("seed", seeds)
        np.random.seed(seed + 100)
        like, ids, ref = build(ch, w, prior, conv)
        samples = hyper(form, powers, "half" if conv == "in place" else "power")
        data = {k: as_numpy(v).copy() for k, v in like.data.items()}
        guard = Guard(samples, data)
        np.random.seed(seed)
        out = ch.op("posterior_predictive_resample", like.posterior_predictive_resample, samples,
                    **(dict(return_weights=True) if want else {}))
        guard.check(ch, "the hyper-samples")
        expected = ref(powers)
        if want:
            new, weights = out
            ch.equal("weights", weights, expected, rtol=1e-10, atol=1e-14)
        else:
            new = out
        for key in data:
            ch.check(np.array_equal(data[key], as_numpy(like.data[key])), "the likelihood's data changed")
        verify(ch, like, ids, expected, new, w)

    def resample_draws(ch):
        """every answer of the random number generator"""
        w = ch.choose("weights", TABLES[(1, 2)] + TABLES[(2, 2)] + [TABLES[(2, 3)][0], TABLES[(3, 2)][0]])
        form, powers = ch.choose("hyper-samples", forms[2:5])
        like, ids, ref = build(ch, w, True)
        samples = hyper(form, powers, "power")
        log = []
        with L.enumerate_choice(ch, log):
            new = ch.op("posterior_predictive_resample", like.posterior_predictive_resample, samples)
        expected = ref(powers)
        verify(ch, like, ids, expected, new, w)
        if len(log) == len(w) and all(p is not None for p in log):
            ch.equal("probabilities", np.array(log), expected, rtol=1e-9, atol=1e-13)
        ch.observe("new", as_numpy(new["x"]))

    def law(ch):
        """relative frequencies over a fixed list of seeds"""
        w = ch.choose("weights", [TABLES[(2, 2)][0], TABLES[(2, 3)][1], TABLES[(3, 2)][0]])
        form, powers = ch.choose("hyper-samples", [forms[0], forms[2], forms[5]])
        prior = ch.choose("prior", [False, True])
        like, ids, ref = build(ch, w, prior)
        samples = hyper(form, powers, "power")
        n, k = w.shape
        counts = np.zeros(n * k)
        m = 400 if full else 150
        for seed in range(m):
            np.random.seed(seed)
            new = like.posterior_predictive_resample(samples)
            for v in as_numpy(new["x"]).astype(int).ravel():
                counts[v] += 1
        stats.transitions += m
        total = m * k
        prob = np.zeros(n * k)
        prob[ids.ravel()] = ref(powers).ravel()
        sd = np.sqrt(total * prob * (1 - prob))
        ch.check((np.abs(counts - total * prob) <= 7 * sd + 1e-9).all(),
                 lambda: f"rows drawn {counts} times, expected {total * prob}")
        ch.observe("counts", prob)

    if part == "load":
        explore_dfs(load, stats, "load", findings)
        explore_dfs(load_many, stats, "load_many", findings)
        explore_dfs(load_draws, stats, "load_draws", findings)
    else:
        explore_dfs(resample, stats, "resample", findings)
        explore_dfs(resample_many, stats, "resample_many", findings)
        if backend == "numpy":
            explore_dfs(resample_draws, stats, "resample_draws", findings)
        explore_dfs(law, stats, "law", findings)
