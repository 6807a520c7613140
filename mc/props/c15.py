"""C15: the grid selection function integrates every axis exactly once."""
import itertools

import numpy as np

from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs

NAMES = ["mass_1", "mass_ratio", "redshift"]
COORDS = {
    "mass_1": {2: [5.0, 20.0], 3: [5.0, 7.0, 20.0], 4: [5.0, 7.0, 20.0, 21.0], 5: [2.0, 3.0, 10.0, 11.0, 50.0]},
    "mass_ratio": {2: [0.1, 0.9], 3: [0.1, 0.4, 0.9], 4: [0.1, 0.2, 0.6, 0.9], 5: [0.1, 0.15, 0.5, 0.8, 1.0]},
    "redshift": {2: [0.0, 1.0], 3: [0.0, 0.3, 1.0], 4: [0.0, 0.05, 0.3, 1.0], 5: [-1.0, 0.0, 0.5, 0.6, 2.0]},
}


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    rtol = 1e-11
    lens = [2, 3, 4] if not th else [2, 3, 4, 5]
    ndim = int(part)

    def model_for(keys, calls):
        def one(dataset, slope):
            out = 1.0
            for ii, key in enumerate(sorted(keys)):
                out = out * (1 + 0.3 * (ii + 1) * dataset[key]) ** (slope / (ii + 1))
            calls.append(1)
            return out

        def two(dataset, offset):
            return offset + dataset[sorted(keys)[0]] ** 2

        return one, two

    def grid(ch):
        keys = ch.choose("parameters", list(itertools.permutations(NAMES, ndim))[:: 1 if (th or ndim < 3) else 5])
        axes = keys
        order = ch.choose("key order", list(itertools.permutations(range(ndim + 1))))
        lengths = ch.choose("lengths", list(itertools.product(lens, repeat=ndim)))
        form = ch.choose("model", ["function", "list", "Model"] if (th or ndim < 3) else ["list"])
        const = ch.choose("sensitivity", ["varying", "axis", "zeros"] if (th or ndim < 3) else ["varying", "axis"])
        coords = [np.array(COORDS[k][n]) for k, n in zip(axes, lengths)]
        mesh = np.meshgrid(*coords, indexing="ij")
        vts = np.ones(lengths)
        for ii, m in enumerate(mesh):
            vts = vts * (1 + 0.1 * (ii + 1) * m) ** (-1.5 - ii)
        if const == "axis":
            vts = np.broadcast_to(np.arange(1.0, lengths[0] + 1).reshape((-1,) + (1,) * (ndim - 1)), lengths).copy()
        elif const == "zeros":
            vts = vts * (mesh[0] > coords[0][0])
        entries = list(zip(axes, mesh)) + [("vt", vts)]
        data = {entries[ii][0]: api.arr(entries[ii][1]) for ii in order}
        guard = Guard(data)
        calls = []
        one, two = model_for(keys, calls)
        if form == "function":
            models, par = one, dict(slope=0.7)
            expect = one(dict(zip(axes, mesh)), 0.7)
        elif form == "list":
            models, par = [one, two], dict(slope=0.7, offset=0.5)
            expect = one(dict(zip(axes, mesh)), 0.7) * two(dict(zip(axes, mesh)), 0.5)
        else:
            from bilby.hyper.model import Model

            models, par = Model([two]), dict(offset=0.5)
            expect = two(dict(zip(axes, mesh)), 0.5)
        expect = expect * vts
        for ax in reversed(range(ndim)):
            expect = O.trapz(expect, coords[ax], axis=ax)
        vt = ch.op("GridVT", api.vt.GridVT, models, data)
        guard.check(ch, "the supplied grid")
        pguard = Guard(par)
        got = ch.op("call", vt, par)
        pguard.check(ch)
        guard.check(ch, "the supplied grid")
        ch.equal("integral", got, expect, rtol=rtol)
        again = ch.op("call", vt, par)
        ch.equal("second call", again, as_numpy(got), rtol=0)
        # the data can be used for another object
        vt2 = ch.op("GridVT", api.vt.GridVT, models, data)
        ch.equal("second object", ch.op("call", vt2, par), expect, rtol=rtol)

    explore_dfs(grid, stats, "grid", findings)
