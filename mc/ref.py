"""Independent closed-form reference of the documented model (plain numpy, nothing of rt1 used).

Scattering functions are described by nested tuples
    ("Rayleigh",) ("HG", t, a) ("HGRay", t, a)                       (volume)
    ("Iso",) ("Cos", i, a) ("HGs", t, a) ("HGn", t, a)               (surface)
    ("Lin", ((weight, member), ...))
"""
import numpy as np
from numpy.polynomial import legendre as npleg

A_V = (-1.0, 1.0, 1.0)
A_S = (1.0, 1.0, 1.0)


def gen_angle(t_0, t_ex, p_0, p_ex, a):
    return (a[0] * np.cos(t_0) * np.cos(t_ex)
            + a[1] * np.sin(t_0) * np.sin(t_ex) * np.cos(p_0) * np.cos(p_ex)
            + a[2] * np.sin(t_0) * np.sin(t_ex) * np.sin(p_0) * np.sin(p_ex))


def phase(spec, t_0, t_ex, p_0, p_ex):
    """volume phase function"""
    k = spec[0]
    if k == "Lin":
        return sum(w * phase(m, t_0, t_ex, p_0, p_ex) for w, m in spec[1])
    if k == "Rayleigh":
        x = gen_angle(t_0, t_ex, p_0, p_ex, a_of(spec))
        return 3.0 / (16.0 * np.pi) * (1.0 + x**2)
    _, t, a = spec
    x = gen_angle(t_0, t_ex, p_0, p_ex, a)
    hg = (1.0 - t**2) / (1.0 + t**2 - 2.0 * t * x) ** 1.5
    if k == "HG":
        return hg / (4.0 * np.pi)
    if k == "HGRay":
        return 3.0 / (8.0 * np.pi) / (2.0 + t**2) * (1.0 + x**2) * hg
    raise KeyError(k)


def nadir_hemreflect(t, a0):
    """hemispherical reflectance of the peak at nadir: int (1-t^2)/(pi(1+t^2-2 t a0 mu)^1.5) mu dOmega"""
    # substitution u = 1+t^2-2 t a0 mu
    A = 1.0 + t**2
    u0, u1 = A, A - 2.0 * t * a0
    # mu = (A-u)/(2 t a0), dmu = -du/(2 t a0)
    F = lambda u: -2.0 * A * u**-0.5 - 2.0 * u**0.5  # int (A-u) u^-1.5 du
    return 2.0 * (1.0 - t**2) * (F(u0) - F(u1)) / (4.0 * t**2 * a0**2)


def brdf(spec, t_0, t_ex, p_0, p_ex):
    k = spec[0]
    if k == "Lin":
        return sum(w * brdf(m, t_0, t_ex, p_0, p_ex) for w, m in spec[1])
    if k == "Iso":
        return np.full(np.broadcast(t_0, t_ex, p_0, p_ex).shape, 1.0 / np.pi)
    _, t, a = spec
    x = gen_angle(t_0, t_ex, p_0, p_ex, a)
    if k == "Cos":
        return 1.0 / np.pi * np.where(x > 0, x, 0.0) ** t if t != 0 else np.full(np.shape(x), 1.0 / np.pi)
    hg = (1.0 - t**2) / (np.pi * (1.0 + t**2 - 2.0 * t * x) ** 1.5)
    if k == "HGs":
        return hg
    if k == "HGn":
        return hg / nadir_hemreflect(t, a[0])
    raise KeyError(k)


def surface(spec, t_0, t_ex, p_0, p_ex, tau, N, bsf=0.0, I0=1.0):
    m0, me = np.cos(t_0), np.cos(t_ex)
    bs = I0 * m0 * brdf(spec, t_0, t_ex, p_0, p_ex)
    return N * bs * ((1.0 - bsf) * np.exp(-tau / m0 - tau / me) + bsf)


def volume(spec, t_0, t_ex, p_0, p_ex, tau, omega, bsf=0.0, I0=1.0):
    m0, me = np.cos(t_0), np.cos(t_ex)
    return ((1.0 - bsf) * I0 * omega * m0 / (m0 + me) * (1.0 - np.exp(-tau / m0 - tau / me))
            * phase(spec, t_0, t_ex, p_0, p_ex))


def mono(vspec, sspec, inc, tau, omega, N, bsf=0.0):
    """(surface, volume) in backscattering geometry, intensity"""
    z, p = np.zeros_like(inc), np.full_like(inc, np.pi)
    return (surface(sspec, inc, inc, z, p, tau, N, bsf), volume(vspec, inc, inc, z, p, tau, omega, bsf))


def to_units(val, inc, sig0, dB):
    if sig0:
        val = 4.0 * np.pi * np.cos(inc) * val
    if dB:
        val = 10.0 * np.log10(val)
    return val


# ---------------------------------------------------------------- Legendre expansions and the interaction integral
def a_of(spec):
    """the weights of the generalised scattering angle"""
    return tuple(spec[-1]) if len(spec) > 1 else {"Rayleigh": A_V, "Iso": A_S}[spec[0]]


def _glnodes(breaks, n):
    x, w = npleg.leggauss(n)
    xs, ws = [], []
    for a, b in zip(breaks[:-1], breaks[1:]):
        xs.append(0.5 * (b - a) * x + 0.5 * (a + b))
        ws.append(0.5 * (b - a) * w)
    return np.concatenate(xs), np.concatenate(ws)


def profile(spec, x):
    """the function of the generalised scattering angle x = cos(Theta)"""
    k = spec[0]
    if k == "Rayleigh":
        return 3.0 / (16.0 * np.pi) * (1.0 + x**2)
    if k == "Iso":
        return np.full_like(x, 1.0 / np.pi)
    t = spec[1]
    if k == "Cos":
        return np.where(x > 0, np.abs(x) ** t, 0.0) / np.pi
    hg = (1.0 - t**2) / (1.0 + t**2 - 2.0 * t * x) ** 1.5
    if k == "HG":
        return hg / (4.0 * np.pi)
    if k == "HGRay":
        return 3.0 / (8.0 * np.pi) / (2.0 + t**2) * (1.0 + x**2) * hg
    if k == "HGs":
        return hg / np.pi
    if k == "HGn":
        return hg / np.pi / nadir_hemreflect(t, spec[2][0])
    raise KeyError(k)


def legcoefs(spec, n):
    """the first n coefficients of the Legendre series, by projection"""
    x, w = _glnodes([-1.0, -0.5, 0.0, 0.5, 0.8, 0.95, 1.0], 60)
    f = profile(spec, x)
    return np.array([(2 * k + 1) / 2.0 * np.sum(w * f * npleg.Legendre.basis(k)(x)) for k in range(n)])


def series(spec, ncoefs, t_0, t_ex, p_0, p_ex):
    """truncated expansion at the given angles; members of a linear combination: ncoefs is a tuple"""
    if spec[0] == "Lin":
        return sum(w * series(m, n, t_0, t_ex, p_0, p_ex) for (w, m), n in zip(spec[1], ncoefs))
    x = gen_angle(t_0, t_ex, p_0, p_ex, a_of(spec))
    return npleg.legval(x, legcoefs(spec, ncoefs))


_MU, _WMU = _glnodes([0.0, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0], 40)
_PHI = np.arange(48) * (2.0 * np.pi / 48)


def f_int(vspec, vn, sspec, sn, t_0, t_ex, p_0, p_ex, tau):
    """int p(theta_0 -> theta) BRDF(theta -> theta_ex) mu/(mu_0-mu) (exp(-tau/mu_0)-exp(-tau/mu)) dmu dphi"""
    m0 = np.cos(t_0)
    th = np.arccos(_MU)[:, None]
    d = m0 - _MU
    with np.errstate(all="ignore"):
        # (exp(-tau/m0)-exp(-tau/mu))/(m0-mu), stable at mu = m0
        z = tau * (1.0 / _MU - 1.0 / m0)
        att = np.where(np.abs(d) > 1e-7, -np.exp(-tau / m0) * np.expm1(-z) / d, np.exp(-tau / m0) * tau / m0**2)
    p = series(vspec, vn, np.pi - t_0, th, p_0, _PHI)
    b = series(sspec, sn, th, t_ex, _PHI, p_ex)
    inner = (p * b).mean(axis=1) * 2.0 * np.pi if np.ndim(p * b) == 2 else p * b * 2.0 * np.pi
    return np.sum(_WMU * _MU * att * inner)


def interaction(vspec, vn, sspec, sn, t_0, t_ex, p_0, p_ex, tau, omega, N, bsf=0.0, I0=1.0):
    m0, me = np.cos(t_0), np.cos(t_ex)
    F1 = f_int(vspec, vn, sspec, sn, t_0, t_ex, p_0, p_ex, tau)
    F2 = f_int(vspec, vn, sspec, sn, t_ex, t_0, p_ex, p_0, tau)
    return N * (1.0 - bsf) * I0 * m0 * omega * (np.exp(-tau / me) * F1 + np.exp(-tau / m0) * F2)
