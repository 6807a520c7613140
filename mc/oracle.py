"""
Reference model: the documented densities and estimators, written from the
documentation with plain numpy/scipy, independent of the package under test.
Scalars in, arrays out; no caching, no state.
"""

import numpy as np
from scipy import special as sp
from scipy.interpolate import CubicSpline


def A(x):
    return np.asarray(x, dtype=float)


# ----------------------------------------------------------------- primitives
def powerlaw(x, alpha, high, low):
    x, alpha, high, low = np.broadcast_arrays(A(x), A(alpha), A(high), A(low))
    out = np.zeros(x.shape)
    inside = (x >= low) & (x <= high)
    for idx in zip(*np.nonzero(inside)) if x.ndim else ([()] if inside else []):
        a, h, l, xx = alpha[idx], high[idx], low[idx], x[idx]
        if h == l:
            out[idx] = np.inf
            continue
        if a == -1:
            norm = np.log(h / l)
        else:
            norm = (h ** (a + 1) - l ** (a + 1)) / (a + 1)
        out[idx] = xx**a / norm if norm else np.inf
    return out


def powerlaw_fast(x, alpha, high, low):
    """As powerlaw for scalar alpha; used on large grids."""
    x, high, low = np.broadcast_arrays(A(x), A(high), A(low))
    inside = (x >= low) & (x <= high)
    with np.errstate(all="ignore"):
        if alpha == -1:
            norm = np.log(high) - np.log(low)
        else:
            norm = (high ** (alpha + 1.0) - low ** (alpha + 1.0)) / (alpha + 1.0)
        value = np.where(inside, x, 1.0) ** float(alpha) / norm
    return np.where(inside, value, 0.0)


def truncnorm(x, mu, sigma, high, low):
    """Tail-safe through the scaled complementary error function."""
    x, mu, sigma, high, low = np.broadcast_arrays(
        A(x), A(mu), A(sigma), A(high), A(low)
    )
    z, a, b = (x - mu) / sigma, (low - mu) / sigma, (high - mu) / sigma
    flip = b <= 0  # reflect so that a > 0 whenever the range lies in one tail
    a, b = np.where(flip, -b, a), np.where(flip, -a, b)
    z = np.where(flip, -z, z)
    r2 = np.sqrt(2.0)
    with np.errstate(all="ignore"):
        tail = (
            np.sqrt(2 / np.pi)
            / sigma
            * np.exp((a * a - z * z) / 2)
            / (sp.erfcx(a / r2) - np.exp((a * a - b * b) / 2) * sp.erfcx(b / r2))
        )
        straddle = (
            np.exp(-z * z / 2)
            / (sigma * np.sqrt(2 * np.pi))
            / (0.5 * (sp.erf(b / r2) - sp.erf(a / r2)))
        )
    value = np.where(a > 0, tail, straddle)
    return np.where((x >= low) & (x <= high), value, 0.0)


def beta_dist(x, alpha, beta, scale=1.0):
    x, alpha, beta, scale = np.broadcast_arrays(A(x), A(alpha), A(beta), A(scale))
    inside = (x >= 0) & (x <= scale)
    u = np.where(inside, x / scale, 0.5)
    with np.errstate(all="ignore"):
        value = (
            u ** (alpha - 1) * ((scale - np.where(inside, x, 0.5 * scale)) / scale)
            ** (beta - 1)
            / sp.beta(alpha, beta)
            / scale
        )
    return np.where(inside, value, 0.0)


def von_mises(x, mu, kappa):
    return np.exp(kappa * np.cos(A(x) - mu) - kappa) / (
        2 * np.pi * sp.ive(0, kappa)
    )


def gauss2d(x, y, mx, my, sx, sy, rho):
    cov = np.array([[sx**2, rho * sx * sy], [rho * sx * sy, sy**2]])
    inv = np.linalg.inv(cov)
    dx, dy = A(x) - mx, A(y) - my
    quad = inv[0, 0] * dx * dx + (inv[0, 1] + inv[1, 0]) * dx * dy + inv[1, 1] * dy * dy
    return np.exp(-0.5 * quad)


# --------------------------------------------------------------- mass, 1-D
def power_law_mass(m, alpha, mmin, mmax):
    return powerlaw_fast(m, -alpha, mmax, mmin)


def bpl(m, alpha_1, alpha_2, mmin, mmax, break_fraction):
    """Broken power law, continuous at the break, normalised over [mmin, mmax]."""
    m = A(m)
    mb = mmin + break_fraction * (mmax - mmin)

    def integral(a, lo, hi):  # of (m/mb)^-a
        if a == 1:
            return mb * np.log(hi / lo)
        return mb * ((hi / mb) ** (1.0 - a) - (lo / mb) ** (1.0 - a)) / (1.0 - a)

    total = integral(alpha_1, mmin, mb) + integral(alpha_2, mb, mmax)
    inside = (m >= mmin) & (m <= mmax)
    x = np.where(inside, m, mb) / mb
    value = np.where(m < mb, x ** (-float(alpha_1)), x ** (-float(alpha_2))) / total
    return np.where(inside, value, 0.0)


def two_component(m, alpha, mmin, mmax, lam, mpp, sigpp, gaussian_mass_maximum=100):
    return (1 - lam) * power_law_mass(m, alpha, mmin, mmax) + lam * truncnorm(
        m, mpp, sigpp, gaussian_mass_maximum, mmin
    )


def three_component(
    m, alpha, mmin, mmax, lam, lam_1, mpp_1, sigpp_1, mpp_2, sigpp_2,
    gaussian_mass_maximum=100,
):
    return (
        (1 - lam) * power_law_mass(m, alpha, mmin, mmax)
        + lam * lam_1 * truncnorm(m, mpp_1, sigpp_1, gaussian_mass_maximum, mmin)
        + lam * (1 - lam_1) * truncnorm(m, mpp_2, sigpp_2, gaussian_mass_maximum, mmin)
    )


def bpl_peak(
    m, alpha_1, alpha_2, mmin, mmax, break_fraction, lam, mpp, sigpp,
    gaussian_mass_maximum=100,
):
    return (1 - lam) * bpl(m, alpha_1, alpha_2, mmin, mmax, break_fraction) + (
        lam * truncnorm(m, mpp, sigpp, gaussian_mass_maximum, mmin)
    )


def p_q(m1, q, beta, mmin):
    return powerlaw_fast(q, beta, 1.0, mmin / A(m1))


# --------------------------------------------------------------- mass, smoothed
def window(m, mmin, mmax, delta_m):
    m = A(m)
    inside = (m >= mmin) & (m <= mmax)
    if delta_m == 0:
        return np.ones(m.shape)
    u = (m - mmin) / delta_m
    with np.errstate(all="ignore"):
        mid = sp.expit(-(1.0 / u - 1.0 / (1.0 - u)))
    value = np.where(u <= 0, 0.0, np.where(u >= 1, 1.0, mid))
    return np.where(inside, value, 0.0)


def trapz(y, x, axis=-1):
    y = np.moveaxis(A(y), axis, -1)
    x = A(x)
    return np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x), axis=-1)


def smoothed(
    dataset, primary, beta, delta_m, mmin, lo, hi, shape, extra=None, m1_factor=None,
    always_norm=False, **kw
):
    """
    primary(m, **kw): unsmoothed density of the primary mass.
    lo, hi, shape: construction range and grid.
    """
    m1, q = np.broadcast_arrays(A(dataset["mass_1"]), A(dataset["mass_ratio"]))
    ms = np.linspace(lo, hi, shape[0])
    qs = np.linspace(0.001, 1, shape[1])
    kw = dict(kw, mmin=mmin, **(extra or {}))

    def unnorm(m):
        val = primary(m, **kw) * window(m, mmin, hi, delta_m)
        if m1_factor is not None:
            val = val * m1_factor(m)
        return val

    p1 = unnorm(m1)
    if delta_m != 0 or always_norm:
        p1 = p1 / trapz(unnorm(ms), ms)
    pq = p_q(m1, q, beta, mmin) * window(m1 * q, mmin, m1, delta_m)
    if delta_m != 0:
        mg, qg = ms[:, None], qs[None, :]
        with np.errstate(all="ignore"):
            vals = p_q(mg, qg, beta, mmin) * window(mg * qg, mmin, mg, delta_m)
        norms = trapz(np.nan_to_num(vals), qs)
        idx = np.clip(np.floor((m1 - ms[0]) / (ms[1] - ms[0])).astype(int), 0, len(ms) - 2)
        t = (m1 - ms[idx]) / (ms[idx + 1] - ms[idx])
        norm = norms[idx] + t * (norms[idx + 1] - norms[idx])
        with np.errstate(all="ignore"):
            pq = np.where(pq == 0, 0.0, pq / norm)
    with np.errstate(all="ignore"):
        return np.where(p1 == 0, 0.0, p1 * pq)


# --------------------------------------------------------------- splines
def spline(nodes, values, points, kind):
    nodes, values, points = A(nodes), A(values), A(points)
    if kind == "cubic":
        return CubicSpline(nodes, values, bc_type="not-a-knot")(points)
    if kind == "linear":
        idx = np.clip(np.searchsorted(nodes, points, "right") - 1, 0, len(nodes) - 2)
        t = (points - nodes[idx]) / (nodes[idx + 1] - nodes[idx])
        return values[idx] * (1 - t) + values[idx + 1] * t
    if kind == "nearest":
        step = (nodes[-1] - nodes[0]) / (len(nodes) - 1)
        idx = np.clip(np.round((points - nodes[0]) / step).astype(int), 0, len(nodes) - 1)
        return values[idx]
    raise ValueError(kind)


def spline_identical(
    dataset, parameters, nodes_x, nodes_f, lo, hi, kind, n_nodes, rms=None, log=False, at=None
):
    """at: positions through which the interpolant is drawn, if not nodes_x"""
    f = A(nodes_f)
    if rms is not None:
        f = f * rms / np.sqrt(np.mean(f**2))
    func = np.log if log else np.asarray
    xs = np.linspace(lo, hi, 10 * n_nodes)
    x = A(nodes_x)
    t = x if at is None else A(at)
    with np.errstate(all="ignore"):
        grid = np.where((xs >= x[0]) & (xs <= x[-1]), np.exp(spline(func(t), f, func(xs), kind)), 0.0)
    norm = trapz(grid, xs)
    out = 1.0
    for par in parameters:
        d = A(dataset[par])
        out = out * np.where(
            (d >= x[0]) & (d <= x[-1]),
            np.exp(spline(func(t), f, func(d), kind)) / norm,
            0.0,
        )
    return out


# --------------------------------------------------------------- spins
def spin_mag(dataset, alpha_chi_1, alpha_chi_2, beta_chi_1, beta_chi_2, amax_1, amax_2):
    return beta_dist(dataset["a_1"], alpha_chi_1, beta_chi_1, amax_1) * beta_dist(
        dataset["a_2"], alpha_chi_2, beta_chi_2, amax_2
    )


def spin_tilt(dataset, xi_spin, sigma_1, sigma_2, mu_1=1.0, mu_2=1.0):
    return (1 - xi_spin) / 4 + xi_spin * truncnorm(
        dataset["cos_tilt_1"], mu_1, sigma_1, 1, -1
    ) * truncnorm(dataset["cos_tilt_2"], mu_2, sigma_2, 1, -1)


def chi_eff_chi_p(
    dataset, mu_chi_eff, sigma_chi_eff, mu_chi_p, sigma_chi_p, spin_covariance
):
    args = (mu_chi_eff, mu_chi_p, sigma_chi_eff, sigma_chi_p, spin_covariance)
    e = np.linspace(-1, 1, 500)
    p = np.linspace(0, 1, 250)
    norm = trapz(trapz(gauss2d(e[None, :], p[:, None], *args), e), p)
    ce, cp = A(dataset["chi_eff"]), A(dataset["chi_p"])
    inside = (np.abs(ce) <= 1) & (cp >= 0) & (cp <= 1)
    return np.where(inside, gauss2d(ce, cp, *args) / norm, 0.0)


# --------------------------------------------------------------- cosmology
C_KM_S = 299792.458


def efunc_inv(z, Om0, w0=-1.0):
    z = A(z)
    return 1.0 / np.sqrt(Om0 * (1 + z) ** 3 + (1 - Om0) * (1 + z) ** (3 * (1 + w0)))


def comoving_distance(z, H0, Om0, w0=-1.0, n=64):
    """Gauss-Legendre quadrature of c/H0 int dz/E(z); smooth, so spectrally exact."""
    z = A(z)
    t, w = np.polynomial.legendre.leggauss(n)
    zz = 0.5 * z[..., None] * (t + 1)
    return C_KM_S / H0 * 0.5 * z * np.sum(w * efunc_inv(zz, Om0, w0), axis=-1)


def dvc_dz(z, H0, Om0, w0=-1.0):
    """4 pi c/H(z) D_C^2, Mpc^3."""
    return (
        4 * np.pi * C_KM_S / H0 * efunc_inv(z, Om0, w0)
        * comoving_distance(z, H0, Om0, w0) ** 2
    )


def luminosity_distance(z, H0, Om0, w0=-1.0):
    return (1 + A(z)) * comoving_distance(z, H0, Om0, w0)


def ddl_dz(z, H0, Om0, w0=-1.0):
    return comoving_distance(z, H0, Om0, w0) + (1 + A(z)) * C_KM_S / H0 * efunc_inv(
        z, Om0, w0
    )


def psi_powerlaw(z, lamb):
    return (1 + A(z)) ** float(lamb)


def psi_md(z, gamma, kappa, z_peak):
    z = A(z)
    return (
        (1 + z) ** float(gamma)
        / (1 + ((1 + z) / (1 + z_peak)) ** float(kappa))
        * (1 + (1 + z_peak) ** (-float(kappa)))
    )


def volume_integral(psi, z_max, H0, Om0, w0=-1.0, n=200):
    t, w = np.polynomial.legendre.leggauss(n)
    z = 0.5 * z_max * (t + 1)
    return 0.5 * z_max * np.sum(w * psi(z) * dvc_dz(z, H0, Om0, w0) / (1 + z))
