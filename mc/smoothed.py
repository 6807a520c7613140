"""Shared between C02, C05, C09, C19: the smoothed mass models and their oracle."""
import numpy as np

from mc import oracle as O

PRIMARY = dict(
    SinglePeakSmoothedMassDistribution=(O.two_component, True),
    MultiPeakSmoothedMassDistribution=(O.three_component, True),
    BrokenPowerLawSmoothedMassDistribution=(O.bpl, False),
    BrokenPowerLawPeakSmoothedMassDistribution=(O.bpl_peak, True),
    UserPowerLaw=(O.power_law_mass, False),
)


SPLINE = "InterpolatedPowerlaw"  # a power law times a spline through nodes over (2, 150)
NODES = np.geomspace(2, 150, 6)


def make(api, name, **kwargs):
    if name == SPLINE:
        kwargs.pop("cache", None)
        return api.mass.InterpolatedPowerlaw(nodes=len(NODES), **kwargs)
    if name == "UserPowerLaw":

        class UserPowerLaw(api.mass.BaseSmoothedMassDistribution):
            primary_model = api.mass.power_law_mass

        return UserPowerLaw(**kwargs)
    return getattr(api.mass, name)(**kwargs)


def expected(name, dataset, params, lo=2, hi=100, shape=(1000, 500)):
    kw = dict(params)
    if name == SPLINE:
        kw.setdefault("delta_m", 0)
        kw = {k: v for k, v in kw.items() if "mass" not in k}
        values = [params[f"fmass{ii}"] for ii in range(len(NODES))]

        def factor(m):
            inside = (m >= NODES[0]) & (m <= NODES[-1])
            with np.errstate(all="ignore"):
                return np.where(inside, np.exp(O.spline(np.log(NODES), values, np.log(m), "cubic")), 0.0)

        return O.smoothed(dataset, O.power_law_mass, lo=lo, hi=hi, shape=shape, m1_factor=factor,
                          always_norm=True, **kw)
    primary, peak = PRIMARY[name]
    extra = dict(gaussian_mass_maximum=hi) if peak else {}
    kw.setdefault("delta_m", 0)
    return O.smoothed(dataset, primary, lo=lo, hi=hi, shape=shape, extra=extra, **kw)
