"""C17: detector-to-source conversion and its Jacobian are order independent."""
import itertools

import numpy as np

from mc import oracle as O
from mc.api import Api
from mc.core import Guard, as_numpy, explore_dfs
from mc.props.c07 import COSMO

Z = np.array([0.02, 0.3, 0.9, 2.1])
ENTRIES = ["redshift", "luminosity_distance", "mass_1_detector", "mass_2_detector", "mass_ratio", "a_1"]


def run(group, tier, stats, findings):
    backend, part = group.split("/")
    api = Api(backend)
    th = tier == "thorough"
    cosmos = COSMO if (th or backend == "numpy") else [COSMO[0], COSMO[2], COSMO[5]]
    rtol = 2e-5

    def dataset(keys, cosmo, shape, scale=1.0):
        z = Z * scale
        values = dict(
            redshift=np.array([0.05, 0.31, 0.8, 2.0]) * scale,
            luminosity_distance=O.luminosity_distance(z, *cosmo),
            mass_1_detector=np.array([30.0, 40, 50, 60]),
            mass_2_detector=np.array([10.0, 20, 30, 12]),
            mass_ratio=np.array([0.1, 0.5, 0.7, 1.0]),
            a_1=np.array([0.0, 0.2, 0.4, 0.99]),
            detector=np.array([1.0, 2, 3, 4]),
            chirp_mass_detector=np.array([11.0, 22, 33, 44]),
            lambda_detector=np.array([-100.0, 0.0, 300, 4e4]),
            time_detector=np.array([1e-3, 0.5, 2, 1.126e9]),
            _detector=np.array([5.0, 6, 7, 8]),
            detector_mass=np.array([3.0, 2, 1, 0.5]),
            mass_1=np.array([9.0, 8, 7, 6]),
        )
        data = {k: values[k].reshape(shape) for k in keys}
        zz = (values["redshift"] if "redshift" in keys else z).reshape(shape)
        zd = z.reshape(shape)
        return data, zz, zd

    def reference(data, zz, zd, cosmo):
        jac = np.ones(zz.shape)
        if "luminosity_distance" in data:
            jac = O.ddl_dz(zd, *cosmo)
        out = dict(redshift=zz)
        for k, v in data.items():
            if k.endswith("_detector"):
                out[k[: -len("_detector")]] = v / (1 + zz)
                jac = jac * (1 + zz)
            elif k not in ("luminosity_distance", "redshift"):
                out[k] = v
        return out, jac

    def compare(ch, mixin, data, zz, zd, cosmo, cpar):
        real = api.data(data)
        guard = Guard(real, cpar)
        if "redshift" not in data and "luminosity_distance" not in data:
            ch.raises("detector_frame_to_source_frame", ValueError,
                      mixin.detector_frame_to_source_frame, real, **cpar)
            guard.check(ch)
            return
        got, jac = ch.op("detector_frame_to_source_frame", mixin.detector_frame_to_source_frame, real, **cpar)
        guard.check(ch)
        exp, ejac = reference(data, zz, zd, cosmo)
        ch.check(set(got) == set(exp), lambda: f"entries {sorted(got)}, expected {sorted(exp)}")
        exact = "luminosity_distance" not in data or "redshift" in data
        for key in exp:
            ch.equal(key, got[key], exp[key], rtol=1e-12 if exact else rtol)
        ch.equal("jacobian", jac, ejac, rtol=1e-12 if "luminosity_distance" not in data else rtol)

    def orders(ch):
        """every subset of the entries in every order"""
        subset = ch.choose("entries", [c for n in range(len(ENTRIES) + 1)
                                       for c in itertools.combinations(ENTRIES, n) if n <= (5 if th else 4)])
        name, cpar, cosmo = ch.choose("cosmology", cosmos if len(subset) <= 3 else cosmos[::3])
        mixin = ch.op("CosmoMixin", api.cosmo.CosmoMixin, cosmo_model=name)
        perms = list(itertools.permutations(subset))
        if backend == "jax" and not th:
            perms = perms[:1] + perms[-1:] if len(perms) > 2 else perms
        for perm in perms:
            data, zz, zd = dataset(perm, cosmo, (4,))
            compare(ch, mixin, data, zz, zd, cosmo, cpar)

    def shapes(ch):
        name, cpar, cosmo = ch.choose("cosmology", cosmos)
        shape = ch.choose("shape", [(4,), (2, 2), (1, 4)])
        keys = ch.choose("entries", [
            ("luminosity_distance", "mass_1_detector"), ("mass_1_detector", "redshift"),
            ("mass_1_detector", "detector", "chirp_mass_detector", "luminosity_distance"),
            ("redshift", "chirp_mass_detector", "luminosity_distance", "mass_2_detector", "mass_1_detector"),
            ("lambda_detector", "luminosity_distance", "time_detector", "detector_mass"),
            ("time_detector", "redshift", "lambda_detector", "mass_1"), ("_detector", "redshift", "a_1")])
        scale = ch.choose("redshift scale", [1.0, 0.1, 3.0])
        extra = ch.choose("other hyperparameters", [{}, dict(alpha=2.0, mmin=5)])
        mixin = ch.op("CosmoMixin", api.cosmo.CosmoMixin, cosmo_model=name)
        data, zz, zd = dataset(keys, cosmo, shape, scale)
        compare(ch, mixin, data, zz, zd, cosmo, dict(cpar, **extra))

    def neighbours(ch):
        """one object at cosmologies that differ in exactly one parameter, and back"""
        what = ch.choose("object", ["CosmoMixin", "CosmoModel"])
        name = ch.choose("cosmology", ["FlatLambdaCDM", "FlatwCDM"])
        base = dict(H0=70.0, Om0=0.3, **(dict(w0=-0.9) if name == "FlatwCDM" else {}))
        key = ch.choose("changed", list(base))
        other = dict(base)
        other[key] = base[key] * ch.choose("factor", [1.001, 0.8])
        keys = ch.choose("entries", [("luminosity_distance", "mass_1_detector", "mass_ratio"), ("mass_1_detector", "redshift", "mass_ratio")])
        if what == "CosmoMixin":
            obj = ch.op("CosmoMixin", api.cosmo.CosmoMixin, cosmo_model=name)
        else:
            obj = ch.op("CosmoModel", api.cosmo.CosmoModel, [api.mass.power_law_primary_mass_ratio], cosmo_model=name)
        values = lambda c: (c["H0"], c["Om0"], c.get("w0", -1.0))
        data, _, _ = dataset(keys, values(base), (4,))
        held = api.data(data)
        mass = dict(alpha=2.3, mmin=5, mmax=80, beta=1.1)
        for cpar in (base, other, base):
            cosmo = values(cpar)
            if "redshift" in keys:
                zz = zd = data["redshift"]
            else:
                zz = zd = solve(data["luminosity_distance"], cosmo)
            src, jac = reference(data, zz, zd, cosmo)
            if what == "CosmoMixin":
                got, gjac = ch.op("detector_frame_to_source_frame", obj.detector_frame_to_source_frame, held, **cpar)
                ch.equal("mass_1", got["mass_1"], src["mass_1"], rtol=rtol)
                ch.equal("redshift", got["redshift"], src["redshift"], rtol=rtol)
                ch.equal("jacobian", gjac, jac, rtol=rtol)
            else:
                got = ch.op("prob", obj.prob, held, **mass, **cpar)
                exp = O.power_law_mass(src["mass_1"], 2.3, 5, 80) * O.p_q(src["mass_1"], src["mass_ratio"], 1.1, 5)
                ch.equal("prob", got, exp / jac, rtol=2e-4)

    def solve(distance, cosmo):
        """redshift by bisection"""
        low, high = np.zeros(len(distance)), np.full(len(distance), 10.0)
        for _ in range(60):
            mid = 0.5 * (low + high)
            far = O.luminosity_distance(mid, *cosmo) > distance
            low, high = np.where(far, low, mid), np.where(far, mid, high)
        return 0.5 * (low + high)

    def sequence(ch):
        """one object, cosmological parameters changing between calls"""
        name = ch.choose("cosmology", ["FlatLambdaCDM", "FlatwCDM"])
        opts = [c for c in COSMO if c[0] == name]
        if name == "FlatwCDM":
            opts = opts[1:]
        mixin = ch.op("CosmoMixin", api.cosmo.CosmoMixin, cosmo_model=name)
        for ii in range(3):
            _, cpar, cosmo = ch.choose(f"parameters {ii}", opts)
            keys = ch.choose(f"entries {ii}", [("luminosity_distance", "mass_1_detector"), ("mass_1_detector", "redshift")])
            data, zz, zd = dataset(keys, cosmo, (4,))
            compare(ch, mixin, data, zz, zd, cosmo, cpar)

    def model(ch):
        """CosmoModel: components on source-frame samples divided by the Jacobian"""
        name, cpar, cosmo = ch.choose("cosmology", cosmos)
        keys = ch.choose("entries", [
            ("mass_1_detector", "mass_ratio", "luminosity_distance"), ("luminosity_distance", "mass_ratio", "mass_1_detector"),
            ("redshift", "mass_ratio", "mass_1_detector"), ("mass_1_detector", "mass_2_detector", "luminosity_distance", "mass_ratio"),
            ("mass_1_detector", "luminosity_distance", "redshift", "mass_ratio"), ("mass_1_detector", "mass_ratio")])
        shape = ch.choose("shape", [(4,), (2, 2)])
        parts = ch.choose("components", ["mass", "mass+redshift", "redshift+mass+user"])
        data, zz, zd = dataset(keys, cosmo, shape)
        seen = []

        def user(dataset, offset):
            seen.append(sorted(dataset))
            return offset + dataset["mass_ratio"]

        funcs = dict(mass=lambda: api.mass.power_law_primary_mass_ratio,
                     redshift=lambda: api.redshift.PowerLawRedshift(cosmo_model=name), user=lambda: user)
        comps = [funcs[p]() for p in parts.split("+")]
        par = dict(alpha=2.3, mmin=5, mmax=80, beta=1.1, **cpar)
        if "redshift" in parts:
            par["lamb"] = 1.5
        if "user" in parts:
            par["offset"] = 0.4
        real = api.data(data)
        cm = ch.op("CosmoModel", api.cosmo.CosmoModel, comps, cosmo_model=name)
        guard = Guard(real, par)
        if "redshift" not in data and "luminosity_distance" not in data:
            ch.raises("prob", ValueError, cm.prob, real, **par)
            guard.check(ch)
            return
        got = ch.op("prob", cm.prob, real, **par)
        guard.check(ch)
        src, jac = reference(data, zz, zd, cosmo)
        exp = O.power_law_mass(src["mass_1"], 2.3, 5, 80) * O.p_q(src["mass_1"], src["mass_ratio"], 1.1, 5)
        if "redshift" in parts:
            grid = np.linspace(1e-6, 2.3, 2500)
            f = lambda z: O.psi_powerlaw(z, 1.5) * O.dvc_dz(z, *cosmo) / (1 + z)
            exp = exp * f(src["redshift"]) / O.trapz(f(grid), grid)
        if "user" in parts:
            exp = exp * (0.4 + src["mass_ratio"])
        ch.equal("prob", got, exp / jac, rtol=2e-4)
        ch.check(np.any(as_numpy(got) > 0), "vacuous")
        again = ch.op("prob", cm.prob, real, **par)
        ch.equal("prob again", again, as_numpy(got), rtol=1e-13)
        if seen:
            ch.check(all(s == sorted(src) for s in seen), lambda: f"the component saw {seen}")

    if part == "orders":
        explore_dfs(orders, stats, "orders", findings)
    else:
        explore_dfs(shapes, stats, "shapes", findings)
        explore_dfs(sequence, stats, "sequence", findings)
        explore_dfs(neighbours, stats, "neighbours", findings)
        explore_dfs(model, stats, "model", findings)
