"""C05: smoothed mass distributions are normalised and correctly windowed."""
import numpy as np

from mc import oracle as O
from mc import smoothed as S
from mc.api import Api
from mc.core import as_numpy, explore_dfs

R = 1e-9
CONSTRUCT = [
    dict(mmin=2, mmax=100, normalization_shape=(60, 40)),
    dict(mmin=3.0, mmax=80.5, normalization_shape=(97, 50), cache=False),
    dict(mmin=1, mmax=200, normalization_shape=(40, 90)),
]


def points(mmin, mmax, hi, delta):
    m1 = []
    for v in (mmin, mmin + delta, mmax, hi):
        m1 += [v, v * (1 - R), v * (1 + R)]
    m1 += [mmin + f * delta for f in (0.1, 0.5, 0.9)]
    m1 += [2 * mmin, 4 * mmin, np.sqrt(mmin * mmax), 0.5 * mmin, 1.2 * mmax, 35.0, hi * 1.1]
    out1, outq = [], []
    for m in m1:
        low = mmin / m
        wide = (mmin + delta) / m
        qs = [low * (1 - 1e-6), low * (1 + R), 0.5 * (1 + low), 1.0, 1 + R, 0.5, 0.01, 1.3, 0.0]
        qs += [0.5 * (low + wide), wide * (1 + R), wide * (1 - R)]
        for q in qs:
            if m <= mmin * (1 + 1e-6) and abs(q - low) < 1e-5:
                continue
            out1.append(m)
            outq.append(q)
    for k in (2.0, 4.0):
        out1.append(k * mmin)
        outq.append(1 / k)
    n = len(out1) % 2
    return np.array(out1 + out1[:n]), np.array(outq + outq[:n])


def params(ch, name, full):
    """Hyperparameters except mmin, mmax, beta, delta_m."""
    if name == "UserPowerLaw":
        return dict(alpha=ch.choose("alpha", [-1, 0, 1, 2.5] if full else [1, 2.5]))
    if name == S.SPLINE:
        kw = dict(alpha=ch.choose("alpha", [-1, 1, 2.5] if full else [1]))
        values = ch.choose("node values", [(0.3, -0.8, 1.2, 0.1, -0.4, 0.9), (0.0,) * 6, (-3.0, 2, 0.5, -1, 4, 0)][: 3 if full else 1])
        kw.update({f"mass{ii}": x for ii, x in enumerate(S.NODES)})
        kw.update({f"fmass{ii}": x for ii, x in enumerate(values)})
        return kw
    if name.startswith("Single"):
        kw = dict(alpha=ch.choose("alpha", [-1, 1, 2.5] if full else [1]), lam=ch.choose("lam", [0, 0.2, 1]))
        kw["mpp"], kw["sigpp"] = ch.choose("peak", [(35, 4), (8.0, 1.5), (90, 20)] if full else [(35, 4), (8.0, 1.5)])
        return kw
    if name.startswith("Multi"):
        kw = dict(alpha=ch.choose("alpha", [1, 2.5] if full else [2.5]), lam=ch.choose("lam", [0, 0.2, 1]),
                  lam_1=ch.choose("lam_1", [0, 0.3, 1]))
        kw["mpp_1"], kw["sigpp_1"], kw["mpp_2"], kw["sigpp_2"] = ch.choose(
            "peaks", [(10, 2, 35, 5.0), (30, 1.0, 85, 8)] if full else [(10, 2, 35, 5.0)])
        return kw
    kw = dict(alpha_1=ch.choose("alpha_1", [-1, 1, 1.5] if full else [1, 1.5]),
              alpha_2=ch.choose("alpha_2", [1, 5.5] if full else [5.5]),
              break_fraction=ch.choose("break_fraction", [0.05, 0.4, 0.9] if full else [0.4]))
    if "Peak" in name:
        kw["lam"] = ch.choose("lam", [0, 0.2, 1])
        kw["mpp"], kw["sigpp"] = ch.choose("peak", [(35, 4), (8.0, 1.5)] if full else [(35, 4)])
    return kw


def run(group, tier, stats, findings):
    backend, name = group.split("/")
    name, _, part = name.partition(":")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    rtol = 1e-7 if backend == "numpy" else 1e-6
    deltas = [None, 0, 1e-3, 0.8, 5, 30.0] if full else [0, 0.8, 5]
    betas = [-2, -1, 0, 1.5] if full else [-1, 1.5]
    ranges = [("lo", "hi"), (5, 50), (4.5, 65.5)] if full else [("lo", "hi"), (5, 50)]
    if th:
        deltas += [0.1, 2, 9.5]
        betas += [1, 4, 12]
        ranges += [(10, 11), (3.2, 78)]
    constructs = CONSTRUCT[:]
    if not full:
        constructs = CONSTRUCT[:2]

    def density(ch):
        con = ch.choose("construct", constructs)
        lo, hi = con["mmin"], con["mmax"]
        mmin, mmax = ch.choose("range", ranges)
        mmin = lo if mmin == "lo" else mmin
        mmax = hi if mmax == "hi" else mmax
        delta = ch.choose("delta_m", deltas)
        beta = ch.choose("beta", betas)
        kw = params(ch, name, full)
        kw.update(mmin=mmin, mmax=mmax, beta=beta)
        if delta is not None:
            kw["delta_m"] = delta
        model = ch.op("construct", S.make, api, name, **con)
        m1, q = points(mmin, mmax, hi, delta or 0)
        shape = (2, -1) if (delta == 5) else (-1,)
        pts = dict(mass_1=m1.reshape(shape), mass_ratio=q.reshape(shape))
        got = ch.op("call", model, api.data(pts), **kw)
        exp = S.expected(name, pts, kw, lo, hi, con["normalization_shape"])
        check(ch, got, exp)

    def check(ch, got, exp):
        g = as_numpy(got).astype(float)
        ch.check(not np.isnan(g).any(), f"{name}: NaN density")
        ch.check(np.isfinite(g).all(), f"{name}: infinite density")
        ch.check((g >= 0).all(), f"{name}: negative density")
        ch.equal(name, got, exp, rtol=rtol, atol=1e-200)

    def default(ch):
        """default construction (range 2-100, default grid), float and int parameters"""
        con = ch.choose("construct", [dict(), dict(mmax=150), dict(mmin=4)])
        delta = ch.choose("delta_m", [0, 3.0])
        kw = params(ch, name, False)
        kw.update(mmin=5, mmax=60, beta=ch.choose("beta", [0, 1.5]), delta_m=delta)
        model = ch.op("construct", S.make, api, name, **con)
        m1, q = points(5, 60, con.get("mmax", 100), delta)
        pts = dict(mass_1=m1, mass_ratio=q)
        got = ch.op("call", model, api.data(pts), **kw)
        check(ch, got, S.expected(name, pts, kw, con.get("mmin", 2), con.get("mmax", 100)))

    def normalised(ch):
        """the returned density integrates to one over both parameters"""
        delta = ch.choose("delta_m", [0, 2.0, 8] if full else [2.0])
        beta = ch.choose("beta", [-1, 0, 2])
        kw = params(ch, name, False)
        kw.update(mmin=4, mmax=70, beta=beta, delta_m=delta)
        con = dict(mmin=2, mmax=100, normalization_shape=(600, 400))
        model = ch.op("construct", S.make, api, name, **con)
        t, w = np.polynomial.legendre.leggauss(80)
        edges = sorted({4.0, 4.0 + delta, 4 + 0.05 * 66, 4 + 0.4 * 66, 4 + 0.9 * 66, 70.0, 100.0})
        total = 0.0
        g1, gq, ww = [], [], []
        for a, b in zip(edges[:-1], edges[1:]):
            m = 0.5 * (b - a) * (t + 1) + a
            wm = 0.5 * (b - a) * w
            for mm, wwm in zip(m, wm):
                cuts = sorted({4.0 / mm, min(1.0, (4.0 + delta) / mm), 1.0})
                tq, wq = np.polynomial.legendre.leggauss(24)
                for qa, qb in zip(cuts[:-1], cuts[1:]):
                    g1.append(np.full(24, mm))
                    gq.append(0.5 * (qb - qa) * (tq + 1) + qa)
                    ww.append(wwm * 0.5 * (qb - qa) * wq)
        g1, gq, ww = map(np.concatenate, (g1, gq, ww))
        vals = ch.op("call", model, api.data(dict(mass_1=g1, mass_ratio=gq)), **kw)
        ch.equal("integral", np.sum(as_numpy(vals) * ww), 1.0, rtol=0.02)

    def primary(ch):
        """p(m1) alone, as used by the test-suite"""
        con = ch.choose("construct", constructs)
        delta = ch.choose("delta_m", [0, 0.8, 5])
        kw = params(ch, name, False)
        kw.update(mmin=5, mmax=50)
        model = S.make(api, name, **con)
        m1, _ = points(5, 50, con["mmax"], delta)
        prim, peak = S.PRIMARY[name]
        more = dict(gaussian_mass_maximum=con["mmax"]) if peak else {}
        got = ch.op("p_m1", model.p_m1, api.data(dict(mass_1=m1)), delta_m=delta, **kw, **more)
        ms = np.linspace(con["mmin"], con["mmax"], con["normalization_shape"][0])
        f = lambda m: prim(m, **kw, **more) * O.window(m, 5, con["mmax"], delta)
        exp = f(m1) / (O.trapz(f(ms), ms) if delta else 1.0)
        check(ch, got, exp)

    def again(ch):
        """an instance used before at hyperparameters that differ in one of them only"""
        con = ch.choose("construct", constructs[:2])
        delta = ch.choose("delta_m", [0, 0.8, 5])
        kw = params(ch, name, False)
        kw.update(mmin=5, mmax=50, beta=1.5, delta_m=delta)
        key = ch.choose("changed", sorted(k for k in kw if not k.startswith("mass")))
        step = ch.choose("by", [0.3, 1e-3])
        before = dict(kw)
        before[key] = kw[key] + step if key not in ("lam", "lam_1", "break_fraction") or kw[key] < 0.5 else kw[key] - step
        model = ch.op("construct", S.make, api, name, **con)
        m1, q = points(5, 50, con["mmax"], delta)
        pts = dict(mass_1=m1, mass_ratio=q)
        data = api.data(pts)
        for par in (before, kw):
            got = ch.op("call", model, data, **par)
            check(ch, got, S.expected(name, pts, par, con["mmin"], con["mmax"], con["normalization_shape"]))

    def limits(ch):
        con = ch.choose("construct", CONSTRUCT)
        which = ch.choose("limit", ["below", "above", "both", "far"])
        kw = params(ch, name, False)
        delta = ch.choose("delta_m", [0, 3])
        kw.update(mmin=con["mmin"], mmax=con["mmax"], beta=1, delta_m=delta)
        if which in ("below", "both"):
            kw["mmin"] = con["mmin"] - 1e-6
        if which in ("above", "both"):
            kw["mmax"] = con["mmax"] + 1e-6
        if which == "far":
            kw["mmax"] = 10 * con["mmax"]
        model = S.make(api, name, **con)
        data = api.data(dict(mass_1=np.array([10.0, 20.0]), mass_ratio=np.array([0.5, 0.9])))
        ch.raises("call", ValueError, model, data, **kw)
        # and the object is still usable
        kw.update(mmin=con["mmin"], mmax=con["mmax"])
        pts = dict(mass_1=np.array([10.0, 20.0]), mass_ratio=np.array([0.5, 0.9]))
        check(ch, ch.op("call", model, data, **kw),
              S.expected(name, pts, kw, con["mmin"], con["mmax"], con["normalization_shape"]))

    if part in ("", "density"):
        explore_dfs(density, stats, "density", findings)
    if part in ("", "again"):
        explore_dfs(again, stats, "again", findings)
    if part in ("", "rest"):
        if name != S.SPLINE:
            explore_dfs(primary, stats, "primary", findings)
        explore_dfs(default, stats, "default", findings)
        explore_dfs(normalised, stats, "normalised", findings)
        if backend == "numpy":
            explore_dfs(limits, stats, "limits", findings)
