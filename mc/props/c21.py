"""C21: compiled and vectorised evaluation equals direct evaluation (jax)."""
import itertools

import numpy as np

from mc import catalogue as C
from mc import like as L
from mc.api import Api
from mc.core import as_numpy, explore_dfs


def run(group, tier, stats, findings):
    import jax

    kind, _, shard = group.partition(":")
    th = tier == "thorough"
    api = Api("jax")
    MEMO = {}

    def split(entry):
        """points (numbers only) that share the node positions of the first, which stay fixed"""
        first = entry.params[0]
        nodes = {k: float(first[k]) for k in first if "f" + k in first}
        points = []
        for p in entry.params + entry.lattice:
            if set(p) == set(first):
                point = {k: float(v) for k, v in p.items() if k not in nodes}
                if point not in points:
                    points.append(point)
        return nodes, points[: 60 if entry.family == "function" else 12 if th else 6]

    def expected(entry, nodes, pi, point, content):
        key = entry.name, pi, content
        if key not in MEMO:
            MEMO[key] = np.asarray(entry.oracle(C.dataset(content), {**nodes, **point}))
        return MEMO[key]

    MODES = ["direct", "compiled", "all traced", "vectorised", "compiled vectorised"]
    AFTER = {"direct": MODES[1:3], "compiled": [MODES[0], MODES[4]], "all traced": MODES[:2], "vectorised": MODES[:2]}

    def models(ch):
        entry = C.ENTRIES[ch.choose("model", names)]
        # plain functions keep nothing from one evaluation to the next
        first = ch.choose("first", [None] if entry.family == "function" and not th else [None] + (MODES if th else MODES[:4]))
        second = ch.choose("second", MODES if first is None or th else AFTER[first])
        content = ch.choose("first dataset", [None] if first is None else ["A", "E"] if th else ["A"])
        nodes, points = split(entry)
        rtol = max(entry.rtol, 3e-6)
        model = ch.op("construct", entry.make, api)
        made = {}
        for mode, label in ((first, content), (second, "A")):
            if mode is None:
                continue
            if label not in made:
                made[label] = api.data(C.dataset(label))
            data = made[label]
            call = lambda p, d=data: entry.call(model, d, {**nodes, **p})
            stacked = {k: api.arr([p[k] for p in points]) for k in points[0]}
            if mode == "direct":
                got = [ch.op("direct", call, p) for p in points]
            elif mode == "compiled":
                func = jax.jit(call)
                got = [ch.op("compiled", func, p) for p in points]
            elif mode == "all traced":
                func = jax.jit(lambda p, d: entry.call(model, d, {**nodes, **p}))
                got = [ch.op("all traced", func, p, data) for p in points]
            else:
                func = jax.vmap(call)
                if mode.startswith("compiled"):
                    func = jax.jit(func)
                got = list(ch.op(mode, func, stacked))
            for pi, (value, point) in enumerate(zip(got, points)):
                ch.equal(f"{mode} at {point}", value, expected(entry, nodes, pi, point, label), rtol=rtol, atol=1e-290)

    # ------------------------------------------------------------------ the other parts
    def both(ch, name, func, points, rtol=1e-10):
        """func(parameters) directly, compiled, vectorised, and directly again"""
        values = [ch.op(name, func, p) for p in points]
        compiled = jax.jit(func)
        inside = [ch.op(f"compiled {name}", compiled, p) for p in points]
        batch = ch.op(f"vectorised {name}", jax.jit(jax.vmap(func)), {k: api.arr([p[k] for p in points]) for k in points[0]})
        again = [ch.op(name, func, p) for p in points]
        for ii, point in enumerate(points):
            reference = jax.tree_util.tree_leaves(values[ii])
            for tag, other in (("compiled", inside[ii]), ("vectorised", jax.tree_util.tree_map(lambda v: v[ii], batch)),
                               ("direct again", again[ii])):
                leaves = jax.tree_util.tree_leaves(other)
                ch.check(len(leaves) == len(reference), f"{name}: {tag} has another structure")
                for one, two in zip(leaves, reference):
                    ch.equal(f"{name} {tag} at {point}", one, as_numpy(two), rtol=rtol, atol=1e-300)

    def population(dataset, power, scale):
        return scale * dataset["x"] ** power

    X = np.array([0.2, 0.5, 0.9, 1.4])
    POINTS = [dict(power=p, scale=s) for p, s in itertools.product((0.0, 1.0, -2.5), (1.0, 0.0, 3.0))]

    def selection(ch):
        from bilby.hyper.model import Model

        what = ch.choose("selection", ["ResamplingVT", "GridVT"])
        model = Model([population], cache=False)
        if what == "GridVT":
            xs, ys = np.array([0.1, 0.4, 1.0]), np.array([1.0, 1.5, 4.0, 5.0])
            xx, yy = np.meshgrid(xs, ys)
            vt = ch.op("construct", api.vt.GridVT, model, dict(x=api.arr(xx), y=api.arr(yy), vt=api.arr(xx + yy)))
            both(ch, "GridVT", vt, POINTS)
            return
        events = ch.choose("events", [0, 1, 3])
        marginalize = ch.choose("marginalize_uncertainty", [False, True])
        enforce = ch.choose("enforce_convergence", [False, True])
        vt = ch.op("construct", api.vt.ResamplingVT, model,
                   dict(x=api.arr(X), prior=api.arr([1.0, 0.5, 2.0, 0.25]), total_generated=30, analysis_time=2.0),
                   n_events=events, marginalize_uncertainty=marginalize, enforce_convergence=enforce)
        for name in ("__call__", "detection_efficiency", "surveyed_hypervolume"):
            if name == "surveyed_hypervolume":
                both(ch, name, lambda p: api.xp.asarray(vt.surveyed_hypervolume(p)) + 0 * p["scale"], POINTS[:2])
            else:
                both(ch, name, vt if name == "__call__" else vt.detection_efficiency, POINTS)

    def volume(ch):
        """the hypervolume of a redshift model depends on traced hyperparameters"""
        from bilby.hyper.model import Model

        cls = ch.choose("redshift model", ["PowerLawRedshift", "MadauDickinsonRedshift"])
        cosmo = ch.choose("cosmology", list(C.COSMO))
        entry = C.ENTRIES[f"{cls}-{cosmo}"]
        model = entry.make(api)
        vt = ch.op("construct", api.vt.ResamplingVT, Model([model], cache=False),
                   dict(redshift=api.arr([0.1, 0.4, 0.9]), prior=api.arr([1.0, 2, 3]), total_generated=9, analysis_time=3.0))
        points = [{k: float(v) for k, v in p.items()} for p in entry.params]
        both(ch, "surveyed_hypervolume", vt.surveyed_hypervolume, points)
        both(ch, "detection_efficiency", vt.detection_efficiency, points)

    def conversion(ch):
        suffixes = ch.choose("components", [("_1",), ("_2",), ("_1", "_2"), ("",), ("", "_1"), ("", "_1", "_2")])
        remove = ch.choose("remove", [True, False])
        points = []
        for a, b, x in ((1.5, 3.0, 1.0), (4.0, 1.2, 0.7)):
            p = dict(other=2.0 * a)
            for ii, s in enumerate(suffixes):
                m, v, _ = api.conversions.alpha_beta_max_to_mu_var_max(a + ii, b, x)
                p.update({f"mu_chi{s}": float(m), f"sigma_chi{s}": float(v), f"amax{s}": x})
            points.append(p)
        keys = {}

        def convert(p):
            out, added = api.conversions.convert_to_beta_parameters(p, remove=remove)
            keys.setdefault("added", []).append(sorted(added))
            return {k: api.xp.asarray(v) for k, v in out.items()}

        both(ch, "convert_to_beta_parameters", convert, points)
        ch.check(all(k == keys["added"][0] for k in keys["added"]), lambda: f"added keys {keys['added']}")

    def cosmology(ch):
        names = ch.choose("entries", [("luminosity_distance",), ("luminosity_distance", "mass_1_detector"),
                                      ("mass_1_detector", "luminosity_distance", "mass_2_detector", "a_1"),
                                      ("redshift", "mass_1_detector"), ("redshift", "luminosity_distance")])
        which = ch.choose("cosmology", ["FlatLambdaCDM", "FlatwCDM"])
        values = dict(luminosity_distance=[400.0, 1500.0, 7000.0], mass_1_detector=[10.0, 40.0, 70.0],
                      mass_2_detector=[9.0, 20.0, 55.0], redshift=[0.1, 0.3, 1.1], a_1=[0.1, 0.2, 0.3])
        data = {k: api.arr(values[k]) for k in names}
        mixin = ch.op("construct", api.cosmo.CosmoMixin, cosmo_model=which)
        points = [dict(H0=h, Om0=o, **(dict(w0=w) if which == "FlatwCDM" else {}))
                  for h, o, w in ((70.0, 0.3, -1.0), (60.0, 0.2, -0.7), (70.0, 0.3, -1.2))]
        both(ch, "detector_frame_to_source_frame", lambda p: mixin.detector_frame_to_source_frame(data, **p), points, rtol=1e-6)

    def likelihoods(ch):
        """likelihood queries of a plain likelihood inside transformations"""
        H = api.hyperpe
        cls = ch.choose("class", ["HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood"])
        limit = ch.choose("maximum_uncertainty", [np.inf, 0.6])
        sel = ch.choose("selection", ["none", "pair", "number"])
        w = ch.choose("weights", [np.array([[1.0, 3.0], [2.0, 0.5]]), np.array([[0.0, 0.0], [1.0, 1.0]]), np.array([[1.0, 2, 9.0]])])
        from bilby.hyper.model import Model

        kw = dict(maximum_uncertainty=limit)
        if sel == "pair":
            kw["selection_function"] = lambda p: (0.25 * p["scale"], 0.001)
        elif sel == "number":
            kw["selection_function"] = lambda p: 0.5 + 0 * p["scale"]
        like = ch.op("construct", getattr(H, cls), L.frames(*w.shape), Model([L.Table(api, w).function()], cache=False), **kw)
        points = [dict(scale=s, rate=r) for s, r in ((1.0, 1.0), (2.0, 5.0), (0.5, 1.0), (0.0, 2.0))]
        if cls != "RateLikelihood":
            points = [dict(scale=p["scale"]) for p in points]
        both(ch, "log_likelihood_ratio", like.log_likelihood_ratio, points)
        both(ch, "ln_likelihood_and_variance", like.ln_likelihood_and_variance, points)

    if kind == "models":
        order = sorted(C.ENTRIES, key=lambda n: C.ENTRIES[n].family == "function")
        names = [n for ii, n in enumerate(order) if ii % 16 == int(shard)]
        explore_dfs(models, stats, "models", findings)
    else:
        driver = dict(selection=selection, volume=volume, conversion=conversion, cosmology=cosmology,
                      likelihoods=likelihoods)[kind]
        explore_dfs(driver, stats, kind, findings)
