"""rt1 objects and reference descriptions built from the same small descriptors.

scattering functions:  [kind, args..., ncoefs, a]   (t may be a string: an expression of symbolic parameters)
    ["Rayleigh", (a)]  ["HG", t, ncoefs, a]  ["HGRay", t, ncoefs, a]  ["LinV", [[w, member], ...]]
    ["Iso"]  ["Cos", i, ncoefs, a]  ["HGs", t, ncoefs, a]  ["HGn", t, ncoefs, a]  ["LinS", [[w, member], ...]]
"""
import numpy as np
import sympy as sp

from mc import ref


def num(x, vals):
    """value of a number or of an expression of the symbolic parameters"""
    if isinstance(x, str):
        return eval(x, {"__builtins__": {}, "np": np}, dict(vals))  # noqa: S307 (own descriptors)
    return x


def _sym(x):
    return sp.sympify(x) if isinstance(x, str) else x


def default_a(kind):
    return list(ref.A_V if kind in ("Rayleigh", "HG", "HGRay", "LinV") else ref.A_S)


def make_v(d, tau=0.3, omega=0.2):
    from rt1 import volume as V

    tau, omega = _sym(tau), _sym(omega)
    k = d[0]
    if k == "Rayleigh":
        return V.Rayleigh(tau=tau, omega=omega, **(dict(a=[float(x) for x in d[1]]) if len(d) > 1 else {}))
    if k == "LinV":
        return V.LinCombV(Vchoices=[[_sym(w), make_v(m)] for w, m in d[1]], tau=tau, omega=omega)
    cls = {"HG": V.HenyeyGreenstein, "HGRay": V.HGRayleigh}[k]
    kw = {} if len(d) < 4 or d[3] is None else dict(a=[float(x) for x in d[3]])
    return cls(t=_sym(d[1]), ncoefs=d[2], tau=tau, omega=omega, **kw)


def make_s(d, N=1.0):
    from rt1 import surface as S

    N = _sym(N)
    k = d[0]
    if k == "Iso":
        return S.Isotropic(NormBRDF=N)
    if k == "LinS":
        return S.LinCombSRF(SRFchoices=[[_sym(w), make_s(m)] for w, m in d[1]], NormBRDF=N)
    kw = {} if len(d) < 4 or d[3] is None else dict(a=[float(x) for x in d[3]])
    if k == "Cos":
        return S.CosineLobe(i=d[1], ncoefs=d[2], NormBRDF=N, **kw)
    cls = {"HGs": S.HenyeyGreenstein, "HGn": S.HG_nadirnorm}[k]
    return cls(t=_sym(d[1]), ncoefs=d[2], NormBRDF=N, **kw)


def spec(d, vals=()):
    """(reference description, ncoefs) for the given values of the symbolic parameters"""
    k = d[0]
    if k == "Rayleigh":
        return (k, *map(tuple, d[1:])), 3
    if k == "Iso":
        return (k,), 1
    if k in ("LinV", "LinS"):
        ms = [(num(w, vals), *spec(m, vals)) for w, m in d[1]]
        return ("Lin", tuple((w, s) for w, s, _ in ms)), tuple(n for _, _, n in ms)
    a = tuple(d[3]) if len(d) > 3 and d[3] is not None else tuple(default_a(k))
    return (k, num(d[1], vals), a), d[2]


def label(d):
    if d[0] in ("LinV", "LinS"):
        return d[0] + "(" + ",".join(f"{w}*{label(m)}" for w, m in d[1]) + ")"
    return d[0] + ("" if len(d) < 2 else "(" + ",".join(str(x).replace(" ", "") for x in d[1:]) + ")")
