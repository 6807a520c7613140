"""C09: model evaluation is independent of history and mutates nothing."""
import numpy as np

from mc import catalogue as C
from mc import oracle as O
from mc.api import Api
from mc.core import Guard, Violation, as_numpy, close_mask, explore_dfs

MEMO = {}


def expected(entry, which, pi, content):
    key = entry.name, which, pi, content
    if key not in MEMO:
        oracle = entry.oracle if which == 0 else entry.alt[1]
        MEMO[key] = np.asarray(oracle(C.dataset(content), entry.params[pi]))
    return MEMO[key]


class Session:
    """Two instances of a model, lazily made, and the user's datasets."""

    def __init__(self, ch, api, entry, rtol):
        self.ch, self.api, self.entry, self.rtol = ch, api, entry, rtol
        self.instances = {}
        self.data = {}
        self.refilled = {}  # one dictionary whose arrays the user replaces
        self.results = []
        self.params = [dict(p) for p in entry.params]
        self.guard = Guard(self.params)

    def dataset(self, label):
        if label.startswith("refill "):
            self.refilled.clear()
            self.refilled.update(self.api.data(C.dataset(label[7:])))
            return self.refilled, label[7:]
        if label not in self.data:
            self.data[label] = self.api.data(C.dataset(label))
        return self.data[label], label

    def step(self, which, pi, label):
        ch, entry = self.ch, self.entry
        if which not in self.instances:
            make = entry.make if which == 0 else entry.alt[0]
            self.instances[which] = ch.op("construct", make, self.api)
        data, content = self.dataset(label)
        guard = Guard(data)
        got = ch.op("evaluate", entry.call, self.instances[which], data, self.params[pi])
        guard.check(ch, "the dataset")
        self.guard.check(ch, "the hyperparameters")
        ch.equal(f"instance {which} parameters {pi} dataset {content}", got,
                 expected(entry, which, pi, content), rtol=self.rtol, atol=1e-290)
        for old, copy in self.results:
            ch.check(np.array_equal(as_numpy(old), copy, equal_nan=True), "an earlier result changed")
            ch.check(old is not got, "the same result object was returned twice")
        self.results.append((got, np.array(as_numpy(got), copy=True)))


def run(group, tier, stats, findings):
    backend, family = group.split("/")
    th = tier == "thorough"
    part = family.split(":")
    family, shard = part[0], int(part[1]) if len(part) > 1 else None
    api = Api(backend)
    names = [n for n, e in C.ENTRIES.items() if e.family == family]
    if shard is not None:
        names = names[shard::4]

    def tol(entry):
        return max(entry.rtol, 3e-6 if backend == "jax" else 0)

    stateful = family != "function"
    if backend == "numpy":
        depth = 3 if stateful else 2
        datasets = ["A", "B", "C", "refill A", "refill B"] if stateful else ["A", "B", "D", "refill E"]
    else:
        depth = 2
        datasets = ["A", "B", "C", "refill B"] if stateful else ["A", "refill E"]
    if family == "redshift" and not th:
        datasets = [d for d in datasets if d not in ("C", "refill A")]
    if th:
        datasets = datasets + ["D", "E"]
        depth = 3
    pars = [0, 1] if stateful and backend == "numpy" and not th else [0, 1, 2]

    def sequences(ch):
        entry = C.ENTRIES[ch.choose("model", names)]
        session = Session(ch, api, entry, tol(entry))
        for ii in range(depth):
            which = ch.choose("instance", [0] if ii == 0 or not stateful else [0, 1])
            session.step(which, ch.choose("parameters", pars), ch.choose("dataset", datasets))

    def returning(ch):
        """deeper histories over a smaller alphabet"""
        entry = C.ENTRIES[ch.choose("model", names)]
        session = Session(ch, api, entry, tol(entry))
        n = (6 if th else 5) if backend == "numpy" else (4 if th else 3)
        for ii in range(n):
            pi, label = ch.choose("call", [(0, "A"), (2, "A"), (0, "refill B")])
            session.step(0, pi, label)

    def neighbours(ch):
        """two points that differ in one hyperparameter only, then the first again"""
        entry = C.ENTRIES[ch.choose("model", names)]
        base = ch.choose("parameters", [0, 1] if backend == "numpy" or th else [0])
        first = dict(entry.params[base])
        key = ch.choose("changed", sorted(k for k, v in first.items() if np.ndim(v) == 0 and not isinstance(v, (str, bool))))
        how = ch.choose("by", ["other point", "little"])
        second = dict(first)
        other = entry.params[1 - base].get(key, first[key])
        # towards the other point, which is within the allowed range
        second[key] = first[key] + (0.3 if how == "other point" else 1e-6) * (other - first[key])
        if second[key] == first[key]:
            second[key] = first[key] * (1 - 1e-6)
        nodes = sorted((k for k in first if "f" + k in first), key=lambda k: first[k])
        if key in nodes:
            # spline nodes stay equally spaced: all of them move
            log = entry.name == "InterpolatedPowerlaw"
            for k in nodes:
                second[k] = first[k] * (1 + 1e-3) if log else first[k] + 1e-3
        data = api.data(C.dataset("A"))
        model = ch.op("construct", entry.make, api)
        for par in (first, second, first):
            got = ch.op(f"evaluate {par}", entry.call, model, data, par)
            fresh = ch.op("fresh instance", lambda: entry.call(entry.make(api), api.data(C.dataset("A")), par))
            ch.equal("an instance used before", got, as_numpy(fresh), rtol=1e-12, atol=1e-290)

    def contents(ch):
        """datasets that agree in shape and in part of their content"""
        entry = C.ENTRIES[ch.choose("model", names)]
        session = Session(ch, api, entry, tol(entry))
        for ii in range(3):
            label = ch.choose("dataset", [["A"], ["A-reversed", "A-inner", "A-first", "A-last"], ["A", "refill A-inner"]][ii])
            session.step(0, 0, label)

    def mixed(ch):
        """instances of different models of one family"""
        first = C.ENTRIES[ch.choose("model", names)]
        others = [n for n, e in C.ENTRIES.items() if e.family == family and n != first.name]
        second = C.ENTRIES[ch.choose("other model", others if backend == "numpy" or th else others[:2])]
        sessions = [Session(ch, api, e, tol(e)) for e in (first, second)]
        sessions[1].data = sessions[0].data  # shared datasets
        for ii in range(3):
            which = ch.choose("which", [0] if ii == 0 else [1] if ii == 1 else [0, 1])
            label = ch.choose("dataset", ["A", "B"])
            sessions[which].step(0, ii % 2, label)
        for s in sessions:
            s.guard.check(ch)
        for old, copy in sessions[0].results + sessions[1].results:
            ch.check(np.array_equal(as_numpy(old), copy, equal_nan=True), "an earlier result changed")

    def switched(ch):
        """backend switches and evaluations before the instance was made"""
        entry = C.ENTRIES[ch.choose("model", names)]
        other = "jax" if backend == "numpy" else "numpy"
        before = ch.choose("before", [(other,), (backend, other)] + ([(other, backend, other)] if th else []))
        used = ch.choose("evaluated before", [True, False])
        try:
            for b in before:
                here = ch.op(f"set_backend {b}", Api, b)
                if used:
                    model = ch.op("construct", entry.make, here)
                    ch.op("evaluate", entry.call, model, here.data(C.dataset("B")), entry.params[1])
        finally:
            here = ch.op(f"set_backend {backend}", Api, backend)
        session = Session(ch, here, entry, tol(entry))
        for pi, label in [(0, "A"), (1, "B"), (1, "A")]:
            session.step(0, pi, label)

    explore_dfs(sequences, stats, "sequences", findings)
    explore_dfs(switched, stats, "switched", findings)
    explore_dfs(neighbours, stats, "neighbours", findings)
    if stateful:
        explore_dfs(contents, stats, "contents", findings)
        explore_dfs(returning, stats, "returning", findings)
    if family in ("smoothed", "spline", "redshift"):
        explore_dfs(mixed, stats, "mixed", findings)
    # (C21 covers compiled evaluation; here the node positions are traced)
    if backend == "jax" and (family == "spline" or th and family in ("smoothed", "redshift")):
        explore_dfs(make_jit(api, names, th), stats, "jit", findings)


def make_jit(api, names, th):
    """
    the model inside jax.jit, evaluated once outside before (as JittedLikelihood
    does), then at a sequence of hyperparameters
    """

    def jit(ch):
        import jax

        entry = C.ENTRIES[ch.choose("model", names)]
        model = ch.op("construct", entry.make, api)
        content = ch.choose("dataset", ["A", "E"] if th else ["A"])
        data = api.data(C.dataset(content))
        rtol = max(entry.rtol, 3e-6)
        got = ch.op("evaluate", entry.call, model, data, entry.params[0])
        ch.equal("outside jit", got, expected(entry, 0, 0, content), rtol=rtol, atol=1e-290)
        compiled = jax.jit(lambda p: entry.call(model, data, p))
        first = entry.params[0]
        nodes = [k for k in first if "f" + k in first]
        moved = [pi for pi in (1, 2) if any(entry.params[pi][k] != first[k] for k in nodes)]
        for ii in range(3 if th else 2):
            where, pi = ch.choose("call", [("same nodes", k) for k in (0, 1, 2)] + [("moved nodes", k) for k in moved])
            par = {k: float(v) for k, v in entry.params[pi].items()}
            if where == "same nodes":
                par.update({k: float(first[k]) for k in nodes})
            got = ch.op("evaluate compiled", compiled, par)
            exp = np.asarray(entry.oracle(C.dataset(content), par))
            if where == "moved nodes":
                old = np.asarray(entry.oracle(C.dataset(content), par, at=[first[k] for k in nodes]))
                value = as_numpy(got).astype(float)
                if not close_mask(value, exp, rtol, 1e-290).all() and close_mask(value, old, rtol, 1e-290).all():
                    raise Violation("traced node positions that differ from those of the first call were not followed")
            ch.equal("compiled", got, exp, rtol=rtol, atol=1e-290)
            again = ch.op("evaluate", entry.call, model, data, first)
            ch.equal("outside jit afterwards", again, expected(entry, 0, 0, content), rtol=rtol, atol=1e-290)

    return jit
