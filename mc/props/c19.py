"""C19: models declare exactly the hyperparameters they use."""
import inspect
import itertools

import numpy as np

from mc import catalogue as C
from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, close_mask, explore_dfs

POPULATION = [n for n, e in C.ENTRIES.items() if e.field is None]


def declared(model):
    """as bilby's Model finds the names"""
    if hasattr(model, "variable_names"):
        names = list(model.variable_names)
    else:
        func = model if inspect.isfunction(model) else model.__call__
        names = [p for p in inspect.signature(func).parameters]
        names = [n for n in names if n not in ("dataset", "data", "self", "cls", "mass")]
    return names


def sub(entry, params):
    return {k: v for k, v in params.items() if k in entry.names}


def run(group, tier, stats, findings):
    backend, _, part = group.partition("/")
    part, _, shard = part.partition(":")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    from bilby.hyper.model import Model

    shard = int(shard or 0)
    slices = 4

    def tol(*entries):
        return max([3e-6 if backend == "jax" else 0] + [e.rtol for e in entries])

    def evaluate(ch, model, data, par):
        return ch.op("prob", Model([model], cache=False).prob, data, **par)

    # ---------------------------------------------------------------- one model
    def names(ch):
        entry = C.ENTRIES[ch.choose("model", list(C.ENTRIES)[shard::slices])]
        which = ch.choose("configuration", [0, 1])
        make, oracle = (entry.make, entry.oracle) if which == 0 else entry.alt
        reads = ch.choose("reads before", [0, 1, 3])
        model = ch.op("construct", make, api)
        for _ in range(reads):
            got = declared(model)
            ch.check(len(got) == len(set(got)), lambda: f"a name is declared twice: {got}")
            ch.check(set(got) == entry.names,
                     lambda: f"declares {sorted(got)}, expected {sorted(entry.names)}")
        data = api.data(C.dataset("A"))
        for pi in (0, 1):
            par = entry.params[pi]
            ch.check(set(par) <= entry.names, "catalogue")
            got = ch.op("evaluate", entry.call, model, data, par)
            ch.equal("value", got, oracle(C.dataset("A"), par), rtol=tol(entry), atol=1e-290)
            again = declared(model)
            ch.check(set(again) == entry.names and len(again) == len(entry.names),
                     lambda: f"declares {sorted(again)} after an evaluation, expected {sorted(entry.names)}")

    def omissions(ch):
        entry = C.ENTRIES[ch.choose("model", POPULATION[shard::slices])]
        par = entry.params[0]
        name = ch.choose("omitted", sorted(entry.names))
        model = ch.op("construct", entry.make, api)
        data = api.data(C.dataset("A"))
        less = {k: v for k, v in par.items() if k != name}
        ch.raises(f"evaluation without {name}", (KeyError, TypeError), evaluate, ch, model, data, less)
        # nothing is left behind by the failed evaluation
        got = evaluate(ch, model, data, par)
        ch.equal("afterwards", got, entry.oracle(C.dataset("A"), par), rtol=tol(entry), atol=1e-290)

    def additions(ch):
        entry = C.ENTRIES[ch.choose("model", POPULATION[shard::slices])]
        others = sorted(set().union(*(e.names for e in C.ENTRIES.values())) - entry.names)
        # surplus spline nodes are, as documented, not unrelated
        nodes = [k[1:-1] for k in entry.names if k.startswith("f") and k[1:] in entry.names]
        others = [o for o in others if not any(o.lstrip("f").startswith(b) and o[-1].isdigit() for b in nodes)]
        name = ch.choose("added", ["all", "unrelated", "rate"] + (others if full else others[::6]))
        model = ch.op("construct", entry.make, api)
        data = api.data(C.dataset("A"))
        par = entry.params[1]
        more = dict(par, **({o: 0.7 for o in others} if name == "all" else {name: 0.7}))
        guard = Guard(more)
        got = evaluate(ch, model, data, more)
        guard.check(ch, "the hyperparameters")
        ch.equal("value", got, entry.oracle(C.dataset("A"), par), rtol=tol(entry), atol=1e-290)

    def used(ch):
        entry = C.ENTRIES[ch.choose("model", list(C.ENTRIES)[shard::slices])]
        name = ch.choose("changed", sorted(entry.names))
        model = ch.op("construct", entry.make, api)
        found = False
        if entry.family == "redshift":  # the Hubble constant only sets the volume
            one = ch.op("normalisation", model.normalisation, dict(entry.params[0]))
            two = ch.op("normalisation", model.normalisation, dict(entry.params[0], **{name: entry.params[0][name] * 1.1 + 0.01}))
            ch.check(abs(float(one) / float(two) - 1) > 1e-6, f"{name} does not change the volume")
            if name == "H0":
                return
        points = entry.params + entry.lattice
        for content in ("A", "B"):
            data = api.data(C.dataset(content))
            for par in points:
                if name not in par:
                    continue
                base = as_numpy(ch.op("evaluate", entry.call, model, data, par)).astype(float)
                for value in [p[name] for p in points if name in p] + [par[name] * 1.07 + 0.01]:
                    if value == par[name] or (is_node(entry, name)):
                        continue
                    got = as_numpy(ch.op("evaluate", entry.call, model, data, dict(par, **{name: value})))
                    if not close_mask(got.astype(float), base, 1e-6, 1e-300).all():
                        found = True
                        break
                if is_node(entry, name):
                    # move all nodes together, so that they remain equally spaced
                    nodes = [k for k in par if is_node(entry, k)]
                    moved = dict(par, **{k: par[k] * 0.93 for k in nodes})
                    if "mass" in name:
                        moved = dict(par, **{k: par[k] * 0.93 for k in nodes})
                    got = as_numpy(ch.op("evaluate", entry.call, model, data, moved))
                    found = found or not close_mask(got.astype(float), base, 1e-6, 1e-300).all()
                if found:
                    return
        ch.check(found, f"{name} is declared but never changes the result")

    def is_node(entry, name):
        return "f" + name in entry.names

    # ---------------------------------------------------------------- combinations
    def pairs(ch):
        first = C.ENTRIES[ch.choose("first", POPULATION[shard::slices])]
        second = C.ENTRIES[ch.choose("second", POPULATION if full else POPULATION[shard::5])]
        n1, n2 = ({k for k in e.names if is_node(e, k)} for e in (first, second))
        if n1 & n2 and n1 != n2:
            return  # two splines with the same names but different node numbers
        cache = ch.choose("cache", [False, True])
        pi = ch.choose("parameters", [0, 2])
        par = dict(first.params[pi], **second.params[pi])
        combined = Model([ch.op("construct", first.make, api), ch.op("construct", second.make, api)], cache=cache)
        data = api.data(C.dataset("A"))
        guard = Guard(data, par)
        got = ch.op("prob", combined.prob, data, **par)
        guard.check(ch)
        d = C.dataset("A")
        with np.errstate(all="ignore"):
            one, two = first.oracle(d, sub(first, par)), second.oracle(d, sub(second, par))
        if np.isfinite(one).all() and np.isfinite(two).all():
            ch.equal("product", got, one * two, rtol=2 * tol(first, second), atol=1e-290)

    def triples(ch):
        few = ["SinglePeakSmoothedMassDistribution", "SplineSpinTiltIdentical", "PowerLawRedshift-FlatwCDM",
               "GaussianChiEffChiP", "iid_spin_magnitude_beta", "InterpolatedPowerlaw-regularized"]
        chosen = ch.choose("models", list(itertools.permutations(few, 3))[shard::slices if full else 17])
        entries = [C.ENTRIES[n] for n in chosen]
        par = {}
        for e in entries:
            par.update(e.params[1])
        combined = Model([e.make(api) for e in entries], cache=False)
        got = ch.op("prob", combined.prob, api.data(C.dataset("B")), **par)
        exp = np.prod([e.oracle(C.dataset("B"), sub(e, par)) for e in entries], axis=0)
        ch.equal("product", got, exp, rtol=3 * tol(*entries), atol=1e-290)

    # ---------------------------------------------------------------- configurations
    def configured(ch):
        """instances with different configurations, read and used in any order"""
        kinds = ch.choose("class", ["PowerLawRedshift", "MadauDickinsonRedshift", "magnitude", "tilt", "mass", "base"])
        made = []
        if "Redshift" in kinds:
            base = dict(PowerLawRedshift=["lamb"], MadauDickinsonRedshift=["gamma", "kappa", "z_peak"])[kinds]
            configs = [("Planck15", []), ("FlatLambdaCDM", ["H0", "Om0"]), ("FlatwCDM", ["H0", "Om0", "w0"]),
                       ("Planck18", []), ("Planck15_LAL", [])]
            make = lambda c: getattr(api.redshift, kinds)(cosmo_model=c[0])
            want = lambda c: set(base + c[1])
        else:
            configs = [(n, r) for n in (4, 7) for r in (False, True)] + [(11, True)]
            name = dict(magnitude="a", tilt="cos_tilt", mass="mass", base="chi_eff")[kinds]

            def make(c):
                if kinds == "mass":
                    return api.mass.InterpolatedPowerlaw(nodes=c[0], regularize=c[1], normalization_shape=(20, 20))
                if kinds == "base":
                    return api.interped.InterpolatedNoBaseModelIdentical(
                        parameters=["chi_eff"], minimum=-1, maximum=1, nodes=c[0], regularize=c[1])
                cls = dict(magnitude="SplineSpinMagnitudeIdentical", tilt="SplineSpinTiltIdentical")[kinds]
                return getattr(api.spin, cls)(nodes=c[0], regularize=c[1])

            def want(c):
                out = {f"{name}{ii}" for ii in range(c[0])} | {f"f{name}{ii}" for ii in range(c[0])}
                out |= {f"rms{name}"} if c[1] else set()
                return out | ({"alpha", "beta", "mmin", "mmax", "delta_m"} if kinds == "mass" else set())

        for ii in range(3 if full else 2):
            config = ch.choose("construct", configs)
            made.append((config, ch.op("construct", make, config)))
            for which in ch.choose("read", [[], [0], [ii, ii], list(range(ii + 1)) * 2]):
                c, model = made[which]
                got = ch.op("variable_names", declared, model)
                ch.check(set(got) == want(c) and len(got) == len(want(c)),
                         lambda: f"{c} declares {sorted(got)}, expected {sorted(want(c))}")
        for c, model in made:
            got = ch.op("variable_names", declared, model)
            ch.check(set(got) == want(c) and len(got) == len(want(c)),
                     lambda: f"{c} declares {sorted(got)}, expected {sorted(want(c))}")
            ch.observe("names", sorted(got))

    def users(ch):
        """the documented ways to define a model"""
        kind = ch.choose("kind", ["list attribute", "tuple attribute", "set attribute", "signature", "redshift", "fixed"])
        reads = ch.choose("reads", [1, 2, 3])
        data = api.data(C.dataset("A"))
        d = C.dataset("A")
        if kind == "redshift":
            cosmo = ch.choose("cosmology", ["Planck15", "FlatwCDM"])
            mine = ["slope", "offset"]

            class Mine(api.redshift._Redshift):
                base_variable_names = mine

                def psi_of_z(self, redshift, **parameters):
                    return parameters["offset"] + parameters["slope"] * redshift

            model = ch.op("construct", Mine, cosmo_model=cosmo)
            extra = dict(H0=70.0, Om0=0.3, w0=-1.0) if cosmo == "FlatwCDM" else {}
            par = dict(slope=0.5, offset=1.0, **extra)
            for _ in range(reads):
                got = declared(model)
                ch.check(set(got) == set(par) and len(got) == len(par), lambda: f"declares {sorted(got)}")
            ch.check(mine == ["slope", "offset"], f"the user's list became {mine}")
            value = evaluate(ch, model, data, par)
            direct = ch.op("evaluate", model, data, **par)
            ch.equal("value", value, as_numpy(direct), rtol=1e-13)
            return
        names = {"list attribute": ["slope", "mmin", "mmax"], "tuple attribute": ("slope", "mmin", "mmax"),
                 "set attribute": {"slope", "mmin", "mmax"}}.get(kind)

        if kind == "fixed":
            def primary(mass, alpha, mmin, mmax, bonus=2.0):
                return api.mass.power_law_mass(mass, alpha=alpha + bonus, mmin=mmin, mmax=mmax)

            class Smooth(api.mass.BaseSmoothedMassDistribution):
                primary_model = primary

                @property
                def kwargs(self):
                    return dict(bonus=1.0)
            key, shift = "alpha", 1.0
        elif names is None:
            def primary(mass, slope, mmin, mmax):
                return api.mass.power_law_mass(mass, alpha=slope, mmin=mmin, mmax=mmax)

            class Smooth(api.mass.BaseSmoothedMassDistribution):
                primary_model = primary
            key, shift = "slope", 0.0
        else:
            def primary(mass, **kwargs):
                return api.mass.power_law_mass(mass, alpha=kwargs["slope"], mmin=kwargs["mmin"], mmax=kwargs["mmax"])

            primary.variable_names = names

            class Smooth(api.mass.BaseSmoothedMassDistribution):
                primary_model = primary
            key, shift = "slope", 0.0
        model = ch.op("construct", Smooth, mmin=2, mmax=100, normalization_shape=(40, 30))
        expect = {key, "mmin", "mmax", "beta", "delta_m"}
        for _ in range(reads):
            got = declared(model)
            ch.check(set(got) == expect and len(got) == len(expect), lambda: f"declares {sorted(got)}")
        if names is not None:
            ch.check(names == {"list attribute": ["slope", "mmin", "mmax"], "tuple attribute": ("slope", "mmin", "mmax"),
                               "set attribute": {"slope", "mmin", "mmax"}}[kind], f"the user's names became {names}")
        par = {key: 2.0, "mmin": 5.0, "mmax": 60.0, "beta": 1.0, "delta_m": 2.0}
        value = evaluate(ch, model, data, par)
        exp = O.smoothed(d, O.power_law_mass, 1.0, 2.0, 5.0, 2, 100, (40, 30), alpha=2.0 + shift, mmax=60.0)
        ch.equal("value", value, exp, rtol=1e-6)

    if part == "single":
        explore_dfs(names, stats, "names", findings)
        explore_dfs(omissions, stats, "omissions", findings)
        explore_dfs(additions, stats, "additions", findings)
        explore_dfs(used, stats, "used", findings)
    elif part == "pairs":
        explore_dfs(pairs, stats, "pairs", findings)
        explore_dfs(triples, stats, "triples", findings)
    else:
        explore_dfs(configured, stats, "configured", findings)
        explore_dfs(users, stats, "users", findings)
