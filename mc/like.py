"""Tiny populations with table-lookup weights, for the likelihood properties."""
import contextlib
import itertools

import numpy as np
import pandas as pd

LOWEST = np.nan_to_num(-np.inf)


class Table:
    """population density = table[row id] * scale, with row ids in column x"""

    def __init__(self, api, values):
        self.xp = api.xp
        self.values = api.arr(np.asarray(values, dtype=float).ravel())

    def function(self):
        def population(dataset, scale):
            return self.values[dataset["x"].astype(int)] * scale

        return population

    def model(self, cache=True):
        from bilby.hyper.model import Model

        return Model([self.function()], cache=cache)

    def custom(self):
        """the documented duck type: attribute parameters and method prob"""
        values = self.values

        class Custom:
            parameters = dict()
            models = []

            def prob(self, data, **kwargs):
                return values[data["x"].astype(int)] * kwargs["scale"]

        return Custom()


def frames(n_events, n_samples, prior=None, ids=None, extra=False):
    """one frame per event; prior: None or array (n_events, n_samples)"""
    out = []
    start = 0
    sizes = [n_samples] * n_events if np.isscalar(n_samples) else n_samples
    for ii, size in enumerate(sizes):
        x = np.arange(start, start + size)
        start += size
        df = pd.DataFrame(dict(x=x.astype(float)))
        if extra:
            df["y"] = 1000.0 - df["x"]
        if prior is not None:
            df["prior"] = np.asarray(prior)[ii][:size]
        out.append(df)
    return out


def convert_default(par):
    return par, None


def convert_rename(par):
    """a conversion that adds the population parameter and lists it"""
    out = dict(par)
    out["scale"] = out["twice_scale"] / 2
    out["amount"] = out["doubled"] / 2 if "doubled" in out else None
    return out, ["scale", "amount"]


def convert_inplace(par):
    """as many bilby conversion functions: adds keys to what it was given"""
    par["scale"] = par["twice_scale"] / 2
    return par, ["scale"]


def matrices(n, k, alphabet):
    return [np.array(m).reshape(n, k) for m in itertools.product(alphabet, repeat=n * k)]


def ln_l(weights, selection, scale=1.0):
    w = np.asarray(weights, dtype=float) * scale
    with np.errstate(all="ignore"):
        value = np.sum(np.log(np.mean(w, axis=-1))) - len(w) * np.log(float(selection))
    return value


def event_variances(weights):
    w = np.asarray(weights, dtype=float)
    k = w.shape[-1]
    mean = np.mean(w, axis=-1)
    with np.errstate(all="ignore"):
        return (np.mean(w**2, axis=-1) - mean**2) / (k * mean**2)


@contextlib.contextmanager
def enumerate_choice(ch, log=None, limit=None):
    """numpy.random.choice answered by the explorer: every possible draw"""
    original = np.random.choice

    def choice(a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(list(a))
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.shape != a.shape or not np.isclose(p.sum(), 1, atol=1e-7) or (p < 0).any():
                raise ValueError("probabilities are not probabilities")
        if log is not None:
            log.append(None if p is None else p.copy())
        n = 1 if size is None else int(np.prod(size))
        idx = [ii for ii in range(len(a)) if p is None or p[ii] > 0]
        draws = (
            list(itertools.product(idx, repeat=n)) if replace else list(itertools.permutations(idx, n))
        )
        if not draws:
            raise ValueError("Cannot take a larger sample than population")
        if limit and len(draws) > limit:
            draws = draws[:: len(draws) // limit + 1]
        draw = ch.choose("random draw", draws)
        out = a[list(draw)]
        return out[0] if size is None else out.reshape(size)

    np.random.choice = choice
    try:
        yield
    finally:
        np.random.choice = original
