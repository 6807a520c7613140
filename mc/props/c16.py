"""C16: beta-parameter conversion is exact, selective and side-effect free."""
import numpy as np

from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs

MISSING = object()
SUFFIXES = ["_1", "_2", ""]


def ref_alpha_beta(mu, var, amax):
    """Solve mean and variance of a scaled beta distribution for its shapes."""
    m, v = mu / amax, var / amax**2
    total = m * (1 - m) / v - 1
    return m * total, (1 - m) * total


def ref_convert(par, remove):
    """Documented behaviour; returns None where the documentation is silent."""
    out, added = dict(par), []

    def need(s):
        return par.get(f"alpha_chi{s}") is None or par.get(f"beta_chi{s}") is None

    def have(s):
        return f"mu_chi{s}" in par and f"sigma_chi{s}" in par

    def fill(s):
        a, b = ref_alpha_beta(par[f"mu_chi{s}"], par[f"sigma_chi{s}"], par[f"amax{s}"])
        out[f"alpha_chi{s}"], out[f"beta_chi{s}"] = a, b
        if remove:
            added.extend([f"alpha_chi{s}", f"beta_chi{s}"])

    specific = False
    for s in ("_1", "_2"):
        if need(s) and have(s):
            if f"amax{s}" not in par:
                return None
            fill(s)
            specific = True
        elif not need(s):
            specific = True
    if not specific and need("") and have(""):
        if "amax" not in par:
            return None
        fill("")
    return out, added


SETS = ["all", "none", "mu", "sigma", "amax", "noamax"]


def component(par, s, shapes, given, values):
    a, b = shapes
    if a != "absent":
        par[f"alpha_chi{s}"] = None if a == "None" else values["alpha"]
    if b != "absent":
        par[f"beta_chi{s}"] = None if b == "None" else values["beta"]
    if given in ("all", "mu", "noamax"):
        par[f"mu_chi{s}"] = values["mu"]
    if given in ("all", "sigma", "noamax"):
        par[f"sigma_chi{s}"] = values["var"]
    if given in ("all", "amax"):
        par[f"amax{s}"] = values["amax"]


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    conv = api.conversions
    rtol = 1e-9
    th = tier == "thorough"

    def kinds(kind):
        vals = {}
        for ii, s in enumerate(SUFFIXES):
            base = dict(mu=0.2 + 0.1 * ii, var=0.01 + 0.005 * ii, amax=[1, 0.9, 0.8][ii],
                        alpha=1.5 + ii, beta=4.0 + ii)
            if kind == "array":
                base = {k: api.arr(np.array([1.0, 0.9, 1.05]) * v) for k, v in base.items()}
            elif kind == "mixed":
                base["mu"] = api.arr(np.array([0.2, 0.3]))
            elif kind == "zero":
                base["alpha"] = base["beta"] = 0.0
            vals[s] = base
        return vals

    def same(x, y):
        if x is None or y is None:
            return x is y
        if isinstance(x, float) and isinstance(y, float):
            return abs(x - y) <= rtol * abs(y) + 1e-12
        x, y = as_numpy(x).astype(float), as_numpy(y).astype(float)
        return x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=1e-12)

    def dictionary(ch):
        kind = ch.choose("kind", ["float", "array", "mixed", "zero"])
        vals = kinds(kind)
        remove = ch.choose("remove", ["default", True, False])
        shapes = [(a, b) for a in ("absent", "None", "value") for b in ("absent", "None", "value")]
        one = [(x, g) for x in shapes for g in SETS]
        if not (th or (kind == "float" and remove is not True)):
            one = [(x, g) for x in shapes for g in ("all", "none")]
        if backend == "jax" and not th:
            one = [(x, g) for x in shapes[::2] for g in ("all", "none", "mu")]
        c1 = ch.choose("component 1", one)
        c2 = ch.choose("component 2", one)
        for c0 in one:
            par = dict(other=3.5, lamb=2)
            component(par, "_1", *c1, vals["_1"])
            component(par, "", *c0, vals[""])
            component(par, "_2", *c2, vals["_2"])
            expected = ref_convert(par, remove is not False)
            guard = Guard(par)
            if expected is None:
                try:
                    conv.convert_to_beta_parameters(par)
                except KeyError:
                    pass
                guard.check(ch)
                continue
            kw = {} if remove == "default" else dict(remove=remove)
            got, added = ch.op("convert_to_beta_parameters", conv.convert_to_beta_parameters, par, **kw)
            guard.check(ch)
            ch.check(got is not par, "the input itself was returned")
            ch.check(sorted(added) == sorted(expected[1]),
                     lambda: f"added keys {added}, expected {expected[1]} (shared: {c0})")
            ch.check(set(got) == set(expected[0]),
                     lambda: f"keys {sorted(got)}, expected {sorted(expected[0])} (shared: {c0})")
            ch.observe("keys", " ".join(added) + str(len(got)))
            for key in got:
                ch.check(same(got[key], expected[0][key]),
                         lambda: f"{key}={got[key]!r}, expected {expected[0][key]!r} (shared: {c0})")
        ch.observe("n", len(one))

    def inverse(ch):
        alpha = ch.choose("alpha", [0.2, 0.5, 1, 1.0, 2, 3.7, 20.0, 100])
        beta = ch.choose("beta", [0.2, 0.5, 1, 2, 3.7, 20.0, 100])
        amax = ch.choose("amax", [1, 1.0, 0.99, 0.5, 0.05, 2])
        form = ch.choose("form", ["scalar", "array", "2d", "numpy scalar", "array amax"])
        f = dict(scalar=lambda v: v, array=lambda v: api.arr([v, v * 1.1]),
                 numpy=None).get(form) or (lambda v: v)
        if form == "2d":
            f = lambda v: api.arr([[v, v * 1.1], [v * 1.3, v * 2]])
        if form == "numpy scalar":
            f = np.float64
        a, b, m = f(alpha), f(beta), (f(amax) if form != "array" else amax)
        if form == "array amax":
            m = api.arr([amax, amax * 0.7])
        guard = Guard(a, b, m)
        mu, var, mx = ch.op("alpha_beta_max_to_mu_var_max", conv.alpha_beta_max_to_mu_var_max, a, b, m)
        A, B, M = (as_numpy(v).astype(float) for v in (a, b, m))
        ch.equal("mean", mu, A / (A + B) * M, rtol=rtol)
        ch.equal("variance", var, A * B / (A + B) ** 2 / (A + B + 1) * M**2, rtol=rtol)
        ch.equal("amax", mx, M, rtol=0)
        guard2 = Guard(mu, var, mx)
        a2, b2, m2 = ch.op("mu_var_max_to_alpha_beta_max", conv.mu_var_max_to_alpha_beta_max, mu, var, mx)
        guard.check(ch)
        guard2.check(ch)
        shape = np.broadcast_shapes(A.shape, M.shape)
        ch.equal("alpha", a2, np.broadcast_to(A, shape), rtol=1e-7)
        ch.equal("beta", b2, np.broadcast_to(B, shape), rtol=1e-7)
        ch.equal("amax", m2, M, rtol=0)

    def forward(ch):
        """the other direction, on means and variances"""
        mu = ch.choose("mu", [0.01, 0.1, 0.5, 0.8, 0.99])
        frac = ch.choose("var/limit", [0.01, 0.3, 0.5, 0.9])
        amax = ch.choose("amax", [1, 0.7, 3.0])
        form = ch.choose("form", ["scalar", "array"])
        mu, var = mu * amax, frac * mu * (1 - mu) * amax**2
        f = api.arr if form == "array" else (lambda v: v)
        m, v = f([mu, mu]) if form == "array" else mu, f([var, var * 0.5]) if form == "array" else var
        guard = Guard(m, v)
        a, b, x = ch.op("mu_var_max_to_alpha_beta_max", conv.mu_var_max_to_alpha_beta_max, m, v, amax)
        guard.check(ch)
        ra, rb = ref_alpha_beta(as_numpy(m).astype(float), as_numpy(v).astype(float), amax)
        ch.equal("alpha", a, ra, rtol=1e-7)
        ch.equal("beta", b, rb, rtol=1e-7)
        m2, v2, x2 = ch.op("alpha_beta_max_to_mu_var_max", conv.alpha_beta_max_to_mu_var_max, a, b, x)
        ch.equal("mean", m2, as_numpy(m), rtol=1e-7)
        ch.equal("variance", v2, as_numpy(v), rtol=1e-7)

    if part == "dict":
        explore_dfs(dictionary, stats, "dictionary", findings)
    else:
        explore_dfs(inverse, stats, "inverse", findings)
        explore_dfs(forward, stats, "forward", findings)
