"""C07: redshift models follow the comoving volume and are normalised."""
import functools

import numpy as np

from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs

COSMO = [
    ("Planck15", {}, (67.74, 0.3075, -1.0)),
    ("Planck15_LAL", {}, (67.90, 0.3065, -1.0)),
    ("FlatLambdaCDM", dict(H0=70, Om0=0.3), (70, 0.3, -1.0)),
    ("FlatLambdaCDM", dict(H0=20.5, Om0=0.9), (20.5, 0.9, -1.0)),
    ("FlatwCDM", dict(H0=67.7, Om0=0.31, w0=-1), (67.7, 0.31, -1.0)),
    ("FlatwCDM", dict(H0=140.0, Om0=0.1, w0=-0.6), (140.0, 0.1, -0.6)),
    ("FlatwCDM", dict(H0=60.0, Om0=0.25, w0=-1.4), (60.0, 0.25, -1.4)),
]


@functools.lru_cache(None)
def grid_dvc(z_max, cosmo):
    return O.dvc_dz(np.linspace(1e-6, z_max, 2500), *cosmo)


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    red = api.redshift
    th = tier == "thorough"
    full = backend == "numpy" or th
    # the distances are Pade / analytic approximations inside wcosmo
    rtol = 3e-6

    zmaxs = [2.3, 1, 0.3, 10.0] if full else [2.3, 0.7]
    lambs = [-8.0, -1, 0, 1, 2.7, 8] if full else [-1, 0, 2.7]
    md = [(g, k, p) for g in ((-2, 0, 2.7, 6) if th else (-2, 0, 2.7)) for k in (-1, 0, 5.6, 12.0)
          for p in ((0.1, 1, 1.9, 4.0) if th else (0.1, 1.9))] if full else [
        (2.7, 5.6, 1.9), (0, 0, 1), (-2, 12.0, 0.1), (6, -1, 4.0)]

    def family(ch, which):
        if which == "powerlaw":
            lamb = ch.choose("lamb", lambs)
            return red.PowerLawRedshift, dict(lamb=lamb), lambda z: O.psi_powerlaw(z, lamb)
        g, k, p = ch.choose("gamma, kappa, z_peak", md)
        return red.MadauDickinsonRedshift, dict(gamma=g, kappa=k, z_peak=p), lambda z: O.psi_md(z, g, k, p)

    def density(ch):
        cosmo_model, cpar, cosmo = ch.choose("cosmology", COSMO if full else COSMO[:1] + COSMO[2:3] + COSMO[5:6])
        z_max = ch.choose("z_max", zmaxs)
        cls, par, psi = family(ch, part)
        model = ch.op("construct", cls, z_max=z_max, cosmo_model=cosmo_model)
        zs = np.array([1e-3, 0.1, 0.5, z_max * 0.4, z_max * (1 - 1e-9), z_max, z_max * (1 + 1e-9) + 1e-9,
                       z_max + 0.5, 2 * z_max, z_max * 0.77])
        shape = ch.choose("shape", [(10,), (2, 5)])
        zs = zs.reshape(shape)
        kw = dict(par, **cpar)
        data = api.data(dict(redshift=zs))
        guard = Guard(data, kw)
        got = ch.op("call", model, data, **kw)
        same = ch.op("probability", model.probability, data, **kw)
        diff = ch.op("differential_spacetime_volume", model.differential_spacetime_volume, data, bounds=True, **kw)
        nob = ch.op("differential_spacetime_volume", model.differential_spacetime_volume, data, **kw)
        norm = ch.op("normalisation", model.normalisation, dict(kw))
        guard.check(ch)
        vol = psi(zs) * O.dvc_dz(zs, *cosmo) / (1 + zs)
        inside = zs <= z_max
        grid = np.linspace(1e-6, z_max, 2500)
        enorm = O.trapz(psi(grid) * grid_dvc(z_max, cosmo) / (1 + grid), grid)
        ch.check(not np.isnan(as_numpy(got)).any(), "NaN density")
        ch.equal("normalisation vs quadrature", norm, O.volume_integral(psi, z_max, *cosmo, n=200), rtol=2e-3)
        ch.equal("normalisation", norm, enorm, rtol=rtol * 10)
        ch.equal("density", got, np.where(inside, vol / enorm, 0.0), rtol=10 * rtol)
        ch.equal("probability", same, as_numpy(got), rtol=1e-13)
        ch.equal("volume element", diff, np.where(inside, vol, 0.0), rtol=rtol * 10)
        ch.equal("unbounded volume element", nob, vol, rtol=rtol * 10)
        ch.equal("psi(0)", ch.op("psi", model.psi_of_z, api.arr([0.0]), **kw), [1.0], rtol=1e-12)
        ch.equal("psi", ch.op("psi", model.psi_of_z, api.arr(zs), **kw), psi(zs), rtol=1e-10)
        # additional hyperparameters of other models are ignored
        more = ch.op("call", model, data, unrelated=3.0, mmin=5, **kw)
        ch.equal("unrelated parameters", more, as_numpy(got), rtol=1e-13)

    def again(ch):
        """two instances, parameters that differ in exactly one, in every order of three"""
        name = ch.choose("cosmology", ["FlatLambdaCDM", "FlatwCDM"])
        base = dict(H0=70.0, Om0=0.3, **(dict(w0=-0.9) if name == "FlatwCDM" else {}))
        base.update(dict(lamb=1.3) if part == "powerlaw" else dict(gamma=2.7, kappa=5.6, z_peak=1.9))
        other = dict(base)
        key = ch.choose("changed", sorted(base))
        other[key] *= ch.choose("by", [1.01, 0.8] if full else [0.8])
        cls = red.PowerLawRedshift if part == "powerlaw" else red.MadauDickinsonRedshift
        z_max = [2.3, ch.choose("z_max of the second", [1.1, 2.3, 4.0])]
        models = [ch.op("construct", cls, z_max=z, cosmo_model=name) for z in z_max]
        zs = np.array([0.02, 0.7, 1.0, 1.5, 2.29, 3.3])
        data = api.data(dict(redshift=zs))
        for ii in range(3):
            which = ch.choose("instance", [0, 1])
            par = base if ii % 2 == 0 else other
            cosmo = par["H0"], par["Om0"], par.get("w0", -1.0)
            if part == "powerlaw":
                psi = lambda z: O.psi_powerlaw(z, par["lamb"])
            else:
                psi = lambda z: O.psi_md(z, par["gamma"], par["kappa"], par["z_peak"])
            grid = np.linspace(1e-6, z_max[which], 2500)
            enorm = O.trapz(psi(grid) * grid_dvc(z_max[which], cosmo) / (1 + grid), grid)
            got = ch.op("call", models[which], data, **par)
            ch.equal("density", got, np.where(zs <= z_max[which], psi(zs) * O.dvc_dz(zs, *cosmo) / (1 + zs) / enorm, 0.0), rtol=10 * rtol)
            norm = ch.op("normalisation", models[which].normalisation, dict(par))
            ch.equal("normalisation", norm, enorm, rtol=rtol * 10)

    def integral(ch):
        cosmo_model, cpar, cosmo = ch.choose("cosmology", [COSMO[0], COSMO[3], COSMO[5]])
        z_max = ch.choose("z_max", [2.3, 0.5])
        cls, par, psi = family(ch, part)
        if max(abs(v) for v in par.values()) > 7:
            return
        model = ch.op("construct", cls, z_max=z_max, cosmo_model=cosmo_model)
        t, w = np.polynomial.legendre.leggauss(100)
        z = 0.5 * z_max * (t + 1)
        vals = ch.op("call", model, api.data(dict(redshift=z)), **dict(par, **cpar))
        ch.equal("integral", np.sum(as_numpy(vals) * 0.5 * z_max * w), 1.0, rtol=1e-3)

    def four_volume(ch):
        lamb = ch.choose("lamb", [-3, 0, 0.0, 1, 2.7, 5])
        time = ch.choose("analysis_time", [1, 0.5, 3.0, 1 / 365.25])
        z_max = ch.choose("max_redshift", ["default", 2.3, 1, 0.2, 6])
        kw = {} if z_max == "default" else dict(max_redshift=z_max)
        z_max = 2.3 if z_max == "default" else z_max
        got = ch.op("total_four_volume", red.total_four_volume, lamb, time, **kw)
        exp = O.volume_integral(lambda z: O.psi_powerlaw(z, lamb), z_max, 67.74, 0.3075, n=300) / 1e9 * time
        ch.equal("total_four_volume", got, exp, rtol=1e-4)
        model = red.PowerLawRedshift(z_max=z_max)
        norm = ch.op("normalisation", model.normalisation, dict(lamb=lamb))
        ch.equal("model and stand-alone volume", as_numpy(norm) / 1e9 * time, as_numpy(got), rtol=1e-5)

    def abstract(ch):
        """user-defined evolution through the documented base class"""
        names = ch.choose("declares", [None, ["slope"]])
        z_max = ch.choose("z_max", [2.3, 1.5])
        slope = ch.choose("slope", [0, 1.0, 3.3])

        class Mine(red._Redshift):
            base_variable_names = names

            def psi_of_z(self, redshift, **parameters):
                return 1 + parameters.get("slope", 0) * redshift

        model = ch.op("construct", Mine, z_max=z_max)
        ch.check(list(model.variable_names) == (names or []), f"names {model.variable_names}")
        zs = np.array([0.01, 0.4, 1.4999, 1.51, 2.2, 2.31, 9.0])
        got = ch.op("call", model, api.data(dict(redshift=zs)), slope=slope)
        grid = np.linspace(1e-6, z_max, 2500)
        f = lambda z: (1 + slope * z) * O.dvc_dz(z, 67.74, 0.3075) / (1 + z)
        ch.equal("density", got, np.where(zs <= z_max, f(zs) / O.trapz(f(grid), grid), 0), rtol=10 * rtol)
        ch.raises("psi of the base class", NotImplementedError, red._Redshift().psi_of_z, api.arr([0.1]))

    explore_dfs(density, stats, "density", findings)
    explore_dfs(again, stats, "again", findings)
    explore_dfs(integral, stats, "integral", findings)
    if part == "powerlaw":
        explore_dfs(four_volume, stats, "four_volume", findings)
        explore_dfs(abstract, stats, "abstract", findings)
