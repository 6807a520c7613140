"""C20: likelihood and selection objects are pure and keep their inputs."""
import numpy as np
import pandas as pd

from mc import catalogue as C
from mc import like as L
from mc.api import Api
from mc.core import Guard, Violation, as_numpy, explore_dfs
from mc.props.c02 import injections, world

CLASSES = ["HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood"]


def freeze(value):
    """an independent, comparable copy of an answer"""
    if isinstance(value, dict):
        return {str(k): freeze(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [freeze(v) for v in value]
    if isinstance(value, (str, bool, type(None))):
        return value
    arr = as_numpy(value)
    return np.array(arr, dtype=float) if arr.dtype != object else repr(value)


def agree(one, two, rtol):
    if isinstance(one, dict):
        return isinstance(two, dict) and set(one) == set(two) and all(agree(one[k], two[k], rtol) for k in one)
    if isinstance(one, list):
        return isinstance(two, list) and len(one) == len(two) and all(agree(a, b, rtol) for a, b in zip(one, two))
    if isinstance(one, np.ndarray):
        return isinstance(two, np.ndarray) and one.shape == two.shape and np.allclose(one, two, rtol=rtol, atol=1e-13, equal_nan=True)
    return one == two


class World:
    """the user's inputs, a likelihood and a selection function made from them"""

    def __init__(self, api, kind, cls, selection, conversion, cache):
        from bilby.hyper.model import Model

        self.api, self.cls = api, cls
        if kind == "table":
            values = [0.5, 1.5, 2.0, 0.25, 1.0, 3.0, 0.75, 1.25, 2.5, 0.1]
            table = L.Table(api, values)
            self.frames = L.frames(2, [3, 4], prior=[[0.5, 1.0, 2.0, 1.0]] * 2)
            self.injections = dict(x=api.arr([7.0, 8.0, 9.0]), prior=api.arr([0.5, 1.0, 0.25]), total_generated=20,
                                   analysis_time=0.5)
            functions = [table.function()]
            self.params = [dict(scale=1.0, rate=2.0, twice_scale=2.0), dict(scale=0.6, rate=0.5, twice_scale=1.2)]
            if conversion != "none":  # the conversion provides it
                for p in self.params:
                    del p["scale"]
        else:
            functions, points = world(api, kind)
            self.frames = []
            for name in ("B", "C"):
                frame = pd.DataFrame({k: v[:4] for k, v in C.dataset(name).items()})
                frame["prior"] = 0.2 + 0.1 * np.arange(4)
                self.frames.append(frame)
            self.injections = api.data(injections())
            self.injections.update(total_generated=40, analysis_time=0.5)
            self.params = [dict(p, rate=r) for p, r in zip(points, (2.0, 0.5))]
        self.functions, self.cache, self.conversion = functions, cache, conversion
        self.samples = pd.DataFrame(self.params)
        self.selection = selection
        self.evidences = [-1.5, -2.5]
        self.guard = Guard(self.frames, self.injections, self.params, self.samples, self.evidences)
        self.vt = None
        if selection in ("vt", "marginalized"):
            self.vt = api.vt.ResamplingVT(Model(functions, cache=cache), self.injections, n_events=2,
                                          marginalize_uncertainty=selection == "marginalized", enforce_convergence=selection == "marginalized")
        self.like = self.build()

    def build(self):
        from bilby.hyper.model import Model

        np.random.seed(3)
        kw = dict(posteriors=self.frames, hyper_prior=Model(self.functions, cache=self.cache), ln_evidences=self.evidences)
        if self.vt is not None:
            kw["selection_function"] = self.vt
        elif self.selection == "function":
            kw["selection_function"] = lambda parameters: (0.25 * parameters["scale"] ** 0.5, 0.01) if "scale" in parameters else 0.3
        if self.conversion == "rename":
            kw["conversion_function"] = L.convert_rename
        elif self.conversion == "in place":
            kw["conversion_function"] = L.convert_inplace
        kw["maximum_uncertainty"] = 100.0
        return getattr(self.api.hyperpe, self.cls)(**kw)

    def ask(self, query):
        name, _, which = query.partition(" ")
        par = self.params[int(which)] if which else None
        like, vt = self.like, self.vt
        np.random.seed(17)
        if name == "ratio":
            return like.log_likelihood_ratio(par)
        if name == "likelihood":
            return like.log_likelihood(par)
        if name == "variance":
            return like.ln_likelihood_and_variance(par)
        if name == "noise":
            return like.noise_log_likelihood()
        if name == "statistics":
            mine = dict(par)
            out = like.generate_extra_statistics(mine)
            changed = [k for k in par if k not in out or not np.array_equal(as_numpy(out[k]), as_numpy(par[k]))]
            if changed:
                raise Violation(f"generate_extra_statistics changed {changed}")
            documented = {"selection", "selection_variance", "variance"}
            documented |= {f"{k}_{ii}" for k in ("ln_bf", "var") for ii in range(like.n_posteriors)}
            if set(out) - set(par) - documented:
                raise Violation(f"generate_extra_statistics added {set(out) - set(par) - documented}")
            return out
        if name == "rate":
            return like.generate_rate_posterior_sample(par)
        if name == "resample":
            return like.posterior_predictive_resample(self.samples, return_weights=True)
        if name == "predict":  # one sample as a dictionary, or a list of them
            return like.posterior_predictive_resample(par if query == "predict 0" else self.params, return_weights=True)
        if name == "meta":
            return like.meta_data
        if name == "rebuilt":  # another likelihood from the same inputs
            return self.build().log_likelihood_ratio(par)
        if name == "vt":
            return vt(par)
        if name == "efficiency":
            return vt.detection_efficiency(par)
        if name == "volume":
            return vt.surveyed_hypervolume(par)
        if name == "factor":
            return vt.vt_factor(par)
        raise KeyError(query)


def queries(cls, selection, conversion):
    out = ["ratio 0", "ratio 1", "statistics 1", "resample", "predict 1", "meta", "rate 0", "rebuilt 1"]
    if conversion != "in place":
        out += ["variance 1", "likelihood 0", "noise"]
    else:
        # conversions that modify their argument are only promised to be harmless
        # where the likelihood hands them a copy
        out = ["statistics 1", "statistics 0", "resample", "predict 0", "predict 1", "meta", "rate 0", "noise"]
    if selection in ("vt", "marginalized"):
        out += ["vt 0", "vt 1", "efficiency 1", "volume 0", "factor 0"]
    return out


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    part, _, only = part.partition(":")
    api = Api(backend)
    th = tier == "thorough"
    numpy = backend == "numpy"
    memo = {}
    rtol = 1e-9 if numpy else 1e-7

    def sequence(ch, kind, cls, selection, conversion, cache, depth, names):
        ww = ch.op("construct", World, api, kind, cls, selection, conversion, cache)
        answers = []
        for ii in range(depth):
            query = ch.choose("query", names)
            got = ch.op(query, ww.ask, query)
            ww.guard.check(ch, "an input of the user")
            key = kind, cls, selection, conversion, query
            if key not in memo:
                fresh = World(api, kind, cls, selection, conversion, False)
                np.random.seed(3)
                memo[key] = freeze(fresh.ask(query))
            now = freeze(got)
            if not agree(now, memo[key], rtol):
                raise Violation(f"{query}: the answer differs from that of a fresh object: {str(now)[:200]} instead of {str(memo[key])[:200]}")
            for q, old, copy in answers:
                ch.check(agree(freeze(old), copy, 0.0), f"{query} changed the earlier answer to {q}")
            answers.append((query, got, now))
            ch.observe(query, repr(sorted(now) if isinstance(now, dict) else now)[:300])

    def table(ch):
        cls = ch.choose("class", [only])
        selection = ch.choose("selection", ["none", "function", "vt", "marginalized"])
        conversion = ch.choose("conversion", ["none", "rename", "in place"])
        cache = ch.choose("cache", [True, False])
        if not th and (cache or not numpy) and conversion != "none":
            return
        if not numpy and not th and (cache or selection == "function"):
            return
        names = queries(cls, selection, conversion)
        if selection in ("vt", "marginalized") and conversion != "none":
            names = [n for n in names if n.split()[0] not in ("vt", "efficiency", "volume", "factor")]
        deep = 3 if numpy and (th or (selection in ("vt", "function") and conversion == "none") or conversion == "in place") else 2
        sequence(ch, "table", cls, selection, conversion, cache, deep, names)

    def real(ch):
        cls = ch.choose("class", CLASSES if numpy or th else CLASSES[:2])
        selection = ch.choose("selection", ["vt", "marginalized"] if numpy else ["vt"])
        cache = ch.choose("cache", [False, True] if numpy or th else [False])
        names = queries(cls, selection, "none")
        if not numpy and not th:
            names = [n for n in names if n not in ("rebuilt 1", "noise", "likelihood 0", "factor 0", "meta")]
        sequence(ch, only, cls, selection, "none", cache, 3 if th and numpy else 2, names)

    def grid(ch):
        """several grid selection functions over one dictionary"""
        n = (3, 4), (4, 4), (2, 5)
        shape = ch.choose("shape", n)
        m1, q = np.linspace(4, 60, shape[0]), np.linspace(0.1, 1, shape[1])
        mg, qg = np.meshgrid(m1, q, indexing="ij")
        data = api.data(dict(mass_1=mg, mass_ratio=qg, vt=mg**2 * (1 + qg)))
        entry = C.ENTRIES["power_law_primary_mass_ratio"]
        guard = Guard(data, entry.params)
        objects = []
        results = []

        def answer(pi):
            key = shape, pi
            if key not in memo:
                mine = api.data(dict(mass_1=mg, mass_ratio=qg, vt=mg**2 * (1 + qg)))
                memo[key] = freeze(api.vt.GridVT(entry.make(api), mine)(dict(entry.params[pi])))
            return memo[key]

        for ii in range(4 if numpy else 3):
            op = ch.choose("op", ["build"] if ii == 0 else ["build", "call 0", "call 1", "call 2"])
            if op == "build":
                objects.append(ch.op("GridVT", api.vt.GridVT, entry.make(api), data))
            else:
                which = ch.choose("object", list(range(len(objects))))
                pi = int(op[-1])
                got = ch.op(op, objects[which], entry.params[pi])
                ch.equal(op, got, answer(pi), rtol=rtol)
                results.append((got, freeze(got)))
            guard.check(ch, "an input of the user")
            for old, copy in results:
                ch.check(agree(freeze(old), copy, 0.0), "an earlier answer changed")

    if part == "table":
        explore_dfs(table, stats, "table", findings)
        if only == CLASSES[0]:
            explore_dfs(grid, stats, "grid", findings)
    else:
        explore_dfs(real, stats, "real", findings)
