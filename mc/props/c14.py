"""C14: injection-based detection probability, variance and convergence rule."""
import itertools

import numpy as np

from mc import like as L
from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs
from mc.props.c07 import COSMO


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    full = backend == "numpy" or th
    VT = api.vt.ResamplingVT
    planck = (67.74, 0.3075, -1.0)

    def reference(w, total, n_events, marginalise, enforce):
        w = np.asarray(w, dtype=float)
        mu = np.sum(w) / total
        var = np.sum(w**2) / total**2 - mu**2 / total
        converged = mu**2 > 4 * n_events * var
        if marginalise:
            if not converged:
                return mu, var, np.inf
            with np.errstate(all="ignore"):
                return mu, var, mu / np.exp((3 + n_events) / 2 * (var / mu**2))
        if enforce and not converged:
            return mu, var, (np.inf, var)
        return mu, var, (mu, var)

    # weights and totals are powers of two: the rule is evaluated without rounding
    SETS = [np.array(w) for n in (1, 2, 3) for w in itertools.product([0.0, 1.0, 4.0], repeat=n)]
    SETS += [np.ones(4), np.ones(8), np.array([1.0, 1, 2, 4]), np.array([0.25] * 16)]

    def rule(ch):
        w = ch.choose("weights", SETS if full else SETS[:12] + SETS[-4:])
        total = ch.choose("total", ["default", "twice", "1024"])
        n_events = ch.choose("n_events", [0, 1, 2, 100] if full else [1, 2])
        marg = ch.choose("marginalize_uncertainty", [False, True, "default"])
        enf = ch.choose("enforce_convergence", [True, False, "default"])
        pr = ch.choose("prior", ["ones", "column"] if full else ["column"])
        prior = np.ones(len(w)) if pr == "ones" else 2.0 ** (np.arange(len(w)) % 3 - 1)
        density = w * prior
        t = dict(default=len(w), twice=2 * len(w)).get(total, 1024)
        data = dict(x=api.arr(np.arange(len(w))), prior=api.arr(prior))
        if total != "default":
            data["total_generated"] = t
        kw = {}
        if marg != "default":
            kw["marginalize_uncertainty"] = marg
        if enf != "default":
            kw["enforce_convergence"] = enf
        guard = Guard(data)
        vt = ch.op("ResamplingVT", VT, L.Table(api, density).function(), data, n_events=n_events, **kw)
        par = dict(scale=1.0)
        pguard = Guard(par)
        mu, var, out = reference(w, t, n_events, marg is True, enf is not False)
        got_mu, got_var = ch.op("detection_efficiency", vt.detection_efficiency, par)
        ch.equal("estimate", got_mu, mu, rtol=1e-12)
        ch.equal("variance", got_var, var, rtol=1e-9, atol=1e-18)
        got = ch.op("call", vt, par)
        guard.check(ch, "the injections")
        pguard.check(ch)
        if isinstance(out, tuple):
            ch.check(isinstance(got, tuple) and len(got) == 2, "estimate and variance expected")
            ch.equal("selection", got[0], out[0], rtol=1e-12)
            ch.equal("selection variance", got[1], out[1], rtol=1e-9, atol=1e-18)
        else:
            ch.check(not isinstance(got, tuple), "a number expected")
            ch.equal("marginalised selection", got, out, rtol=1e-10)
        direct = ch.op("vt_factor", vt.vt_factor, par)
        ch.equal("vt_factor", direct, reference(w, t, n_events, True, True)[2], rtol=1e-10)

    def default_events(ch):
        """without a number of events nothing with a variance has converged"""
        w = ch.choose("weights", [np.array([1.0, 2.0]), np.array([0.0, 4.0, 1.0])])
        kw = ch.choose("options", [{}, dict(enforce_convergence=False), dict(marginalize_uncertainty=True), dict(n_events=np.inf)])
        vt = ch.op("ResamplingVT", VT, L.Table(api, w).function(),
                   dict(x=api.arr(np.arange(len(w))), prior=api.arr(np.ones(len(w))), total_generated=64), **kw)
        got = ch.op("call", vt, dict(scale=1.0))
        mu, var, _ = reference(w, 64, 1, False, False)
        if kw.get("marginalize_uncertainty"):
            ch.equal("marginalised", got, np.inf)
        else:
            ch.equal("selection", got[0], mu if kw.get("enforce_convergence") is False else np.inf, rtol=1e-12)
            ch.equal("variance", got[1], var, rtol=1e-10)

    def threshold(ch):
        """check_convergence on both sides of, and exactly at, the threshold"""
        n = ch.choose("n_events", [0, 1, 3, 50])
        mu = ch.choose("mu", [1e-3, 0.25, 1.0, 8.0])
        rel = ch.choose("mu^2 / (4 N var)", [0.5, 1 - 1e-6, 1.0, 1 + 1e-6, 4.0])
        var = mu**2 / (4 * n * rel) if n else rel
        vt = VT(L.Table(api, [1.0]).function(), dict(x=api.arr([0]), prior=api.arr([1.0])), n_events=n)
        conv, corr = ch.op("check_convergence", vt.check_convergence, api.arr(mu), api.arr(var))
        if n and rel == 1.0 and not (mu in (0.25, 1.0, 8.0) and n == 1):
            return  # rounding of the product decides
        exp = rel > 1 or n == 0
        ch.check(bool(as_numpy(conv)) == exp, f"converged={conv}, expected {exp}")
        ch.equal("correction", corr, 0.0 if exp else np.inf)

    def scaled(ch):
        """parameters reach the population model; priors divide"""
        scale = ch.choose("scale", [0.5, 1, 3.0])
        total = ch.choose("total", [5, 2, 1000, 10.0, 10**7])
        n = ch.choose("n_events", [1, 4])
        form = ch.choose("model", ["function", "list", "Model"])
        w = np.array([0.1, 2.3, 0.7, 0.0, 1.9])
        prior = np.array([0.2, 0.3, 1.7, 0.9, 1.1])

        table = L.Table(api, w)
        second = lambda dataset, slope: (1 + dataset["x"]) ** slope
        ew = w * scale / prior
        if form == "function":
            model, par = table.function(), dict(scale=scale)
        else:
            model, par = [table.function(), second], dict(scale=scale, slope=0.5, unrelated=3)
            ew = ew * (1 + np.arange(5)) ** 0.5
            if form == "Model":
                from bilby.hyper.model import Model
                model = Model(model)
        vt = ch.op("ResamplingVT", VT, model, dict(x=api.arr(np.arange(5)), prior=api.arr(prior), total_generated=total), n_events=n)
        mu, var, out = reference(ew, total, n, False, True)
        got = ch.op("call", vt, par)
        ch.equal("selection", got[0], out[0], rtol=1e-10)
        ch.equal("variance", got[1], out[1], rtol=1e-9)

    def hypervolume(ch):
        time = ch.choose("analysis_time", ["default", 1, 0.5, 3.0])
        kind = ch.choose("redshift model", ["none", "powerlaw", "madau", "subclass"])
        t = 1 if time == "default" else time
        data = dict(redshift=api.arr([0.1, 0.5]), x=api.arr([0, 1]), prior=api.arr([1.0, 1.0]), total_generated=10)
        if time != "default":
            data["analysis_time"] = time
        table = L.Table(api, [1.0, 0.5]).function()
        if kind == "none":
            models = ch.choose("form", [table, [table]])
            vt = ch.op("ResamplingVT", VT, models, data)
            got = ch.op("surveyed_hypervolume", vt.surveyed_hypervolume, dict(scale=1.0, lamb=5.0))
            exp = O.volume_integral(lambda z: 1 + 0 * z, 2.3, *planck) / 1e9 * t
            ch.equal("hypervolume", got, exp, rtol=1e-4)
            return
        name, cpar, cosmo = ch.choose("cosmology", [COSMO[0], COSMO[2], COSMO[5]])
        z_max = ch.choose("z_max", [2.3, 1.0])
        if kind == "powerlaw":
            z = api.redshift.PowerLawRedshift(z_max=z_max, cosmo_model=name)
            par = dict(lamb=ch.choose("lamb", [0, 2.7, -2.0]))
            psi = lambda zz: O.psi_powerlaw(zz, par["lamb"])
        elif kind == "madau":
            z = api.redshift.MadauDickinsonRedshift(z_max=z_max, cosmo_model=name)
            par = dict(gamma=2.7, kappa=5.6, z_peak=ch.choose("z_peak", [0.8, 1.9]))
            psi = lambda zz: O.psi_md(zz, 2.7, 5.6, par["z_peak"])
        else:
            class Mine(api.redshift._Redshift):
                base_variable_names = ["slope"]

                def psi_of_z(self, redshift, **parameters):
                    return 1 + parameters["slope"] * redshift
            z = Mine(z_max=z_max, cosmo_model=name)
            par = dict(slope=ch.choose("slope", [0.0, 2.0]))
            psi = lambda zz: 1 + par["slope"] * zz
        where = ch.choose("position", ["alone", "first", "last", "middle", "Model"])
        from bilby.hyper.model import Model
        other = lambda dataset, offset: dataset["x"] + offset
        models = dict(alone=z, first=[z, table], last=[table, z], middle=[table, z, other])
        models = Model([other, z, table]) if where == "Model" else models[where]
        vt = ch.op("ResamplingVT", VT, models, data)
        full_par = dict(par, scale=1.0, offset=1.0, **cpar)
        guard = Guard(full_par, data)
        exp = O.volume_integral(psi, z_max, *cosmo) / 1e9 * t
        got = ch.op("surveyed_hypervolume", vt.surveyed_hypervolume, full_par)
        guard.check(ch)
        ch.equal("hypervolume", got, exp, rtol=1e-4)
        # follows the parameters
        for key in list(par):
            more = dict(full_par)
            more[key] = more[key] + 0.5
            ch.op("surveyed_hypervolume", vt.surveyed_hypervolume, more)
        again = ch.op("surveyed_hypervolume", vt.surveyed_hypervolume, full_par)
        ch.equal("hypervolume again", again, as_numpy(got), rtol=1e-13)
        mu, var = ch.op("detection_efficiency", vt.detection_efficiency, full_par)
        zz = np.array([0.1, 0.5])
        dens = psi(zz) * O.dvc_dz(zz, *cosmo) / (1 + zz) / (exp * 1e9 / t)
        if where != "alone":
            dens = dens * np.array([1.0, 0.5])
        if where in ("middle", "Model"):
            dens = dens * np.array([1.0, 2.0])
        ch.equal("efficiency", mu, dens.sum() / 10, rtol=1e-3)

    explore = dict(rule=[rule, default_events, threshold], volume=[scaled, hypervolume])[part]
    for driver in explore:
        explore_dfs(driver, stats, driver.__name__, findings)
