"""Fits built from small descriptors, together with an independent reference of what they have to compute."""
import inspect
from contextlib import contextmanager

import numpy as np
import pandas as pd

from mc import ref

# ---------------------------------------------------------------- datasets
T = pd.Timestamp


def _rows(days, counts):
    out = []
    for d, c in zip(days, counts):
        out += [d] * c
    return out


DATASETS = {
    # timestamps of the observations
    "single": _rows(pd.to_datetime(["2020-01-01"]), [2]),
    "daily": _rows(pd.date_range("2020-01-01", periods=4), [1, 1, 1, 1]),
    "ragged": _rows(pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-03", "2020-01-06"]), [1, 3, 2, 1]),
    "intraday": _rows(pd.to_datetime(["2020-01-01 06:00", "2020-01-01 18:00", "2020-01-02 05:00", "2020-01-09 12:00",
                                      "2020-02-01 00:00"]), [2, 1, 2, 1, 2]),
    "unsorted": [T("2020-01-04"), T("2020-01-01"), T("2020-01-03"), T("2020-01-02 12:00"), T("2020-02-11")],
    "repeat": _rows(pd.date_range("2020-01-30", periods=5), [2, 1, 3, 2, 1]),
    "long": _rows(pd.date_range("2019-12-28", periods=11, freq="36h"), [1, 2] * 5 + [3]),
}

MANUAL = {  # values of a "_dyn" column (repeated along the rows of the sorted dataset)
    "near": [2.5, 2.25, 2.5, 1.0],
    "text": ["A", "B", "B", "A", "C"],
    "neg": [-3, 3, 12, -3, 1, 2],
    "huge": [2**60, 2**60 + 1, 5, 2**60],
    "runs": [1, 1, 1, 2, 2, 1],
    # two columns whose digits may be confused if they are concatenated
    "digits1": [1, 11, 1, 11, 111],
    "digits2": [11, 1, 111, 11, 1],
}


def dataset(kind, weights=False, manual=(), start=(), aux=(), seed=0):
    """the rows are unique in every column; returned as given to the fit (possibly unsorted)"""
    t = DATASETS[kind]
    n = len(t)
    order = np.argsort(np.array(t, dtype="datetime64[ns]"), kind="stable")
    rank = np.empty(n, int)
    rank[order] = np.arange(n)
    df = pd.DataFrame(index=pd.DatetimeIndex(t))
    df["sig"] = 0.05 + 0.011 * rank + 0.0007 * rank**2
    df["inc"] = 0.25 + 0.93 * ((rank * 0.37 + 0.11) % 1.0)
    if kind == "repeat":  # the same angles in many observations
        df["inc"] = 0.3 + 0.15 * (rank % 4)
    if weights:
        df["data_weights"] = 0.5 + ((rank * 0.61 + 0.3) % 1.0)
    for key, pattern in dict(manual).items():
        pat = MANUAL[pattern]
        df[key + "_dyn"] = np.array([pat[r % len(pat)] for r in rank], dtype=object if pattern == "text" else None)
    for key in start:
        df[key + "_start"] = 0.2 + 0.01 * rank
    for j, key in enumerate(aux):
        df[key] = 0.1 + 0.3 * ((rank * 0.29 + 0.17 * (j + 1)) % 1.0)
    return df


# ---------------------------------------------------------------- grouping (reference)
def groups(df, freq, manual=None):
    """group number (order of first appearance) of every row of the sorted dataset"""
    idx = df.index
    n = len(idx)
    first = idx[0].normalize()
    parts = [] if freq is None else [p.strip() for p in str(freq).split("+")]
    keys = []
    for p in parts:
        if p == "manual":
            keys.append(list(manual))
        elif p == "index":
            keys.append(list(idx))
        elif p.lstrip("-").isdigit():
            f = int(p)
            u = list(dict.fromkeys(idx))
            ng = max(len(u) // f, 1)
            sizes = [len(u) // ng + (1 if i < len(u) % ng else 0) for i in range(ng)]
            lab = {}
            it = iter(u)
            for g, s in enumerate(sizes):
                for _ in range(s):
                    lab[next(it)] = g
            keys.append([lab[x] for x in idx])
        elif p.endswith("D"):
            w = int(p[:-1] or 1)
            keys.append([((x - first) // pd.Timedelta(days=w)) for x in idx])
        elif p.endswith("h"):
            w = int(p[:-1] or 1)
            keys.append([((x - first) // pd.Timedelta(hours=w)) for x in idx])
        elif p in ("M", "ME", "MS"):
            keys.append([(x.year, x.month) for x in idx])
        else:
            raise KeyError(p)
    if not keys:
        return [0] * n
    seen = {}
    return [seen.setdefault(k, len(seen)) for k in zip(*keys)]


# ---------------------------------------------------------------- models
def V(name, **kw):
    return dict(V_name=name, **kw)


def S(name, **kw):
    return dict(SRF_name=name, **kw)


def _call_vsrf(tau, omega, N, t, **kw):
    from rt1.surface import HG_nadirnorm, Isotropic, LinCombSRF
    from rt1.volume import HenyeyGreenstein

    return (HenyeyGreenstein(tau=2 * tau, omega=omega**2 + 0.1, t=0.25, ncoefs=3),
            LinCombSRF([[t, HG_nadirnorm(t=0.3, ncoefs=3, a=[0.9, 1.0, 1.0])], [1 - t, Isotropic()]], NormBRDF=N / 2))


class Model:
    """set_V_SRF, fitted parameters {name: (start, min, max)}, fixed numbers, auxiliary columns, reference"""

    def __init__(self, vsrf, fit, fixed, aux, fn):
        self.vsrf, self.fit, self.fixed, self.aux, self.fn = vsrf, fit, fixed, aux, fn


MODELS = dict(
    plain=Model(
        dict(V_props=V("HenyeyGreenstein", tau="tau", omega="omega", t=0.3, ncoefs=3),
             SRF_props=S("HG_nadirnorm", NormBRDF="N", t="t", ncoefs=3)),
        dict(tau=(0.3, 0.001, 2.0), t=(0.2, 0.001, 0.6)), dict(omega=0.25, bsf=0.15), ("N",),
        lambda p: (("HG", 0.3, ref.A_V), ("HGn", p["t"], ref.A_S), p["tau"], p["omega"], p["N"], p["bsf"])),
    bsf=Model(
        dict(V_props=V("Rayleigh", tau="tau", omega="om"),
             SRF_props=S("Isotropic", NormBRDF="NormBRDF")),
        dict(om=(0.3, 0.001, 1.0), bsf=(0.4, 0.0, 1.0), NormBRDF=(0.3, 0.01, 2.0)), dict(tau=0.7), (),
        lambda p: (("Rayleigh",), ("Iso",), p["tau"], p["om"], p["NormBRDF"], p["bsf"])),
    expr=Model(
        dict(V_props=V("Rayleigh", tau="x**2 + 0.1*y", omega="om"),
             SRF_props=S("CosineLobe", NormBRDF="x*n", i=3, ncoefs=4)),
        dict(x=(0.5, 0.01, 2.0), om=(0.3, 0.001, 1.0)), dict(n=0.35), ("y", "bsf"),
        lambda p: (("Rayleigh",), ("Cos", 3, ref.A_S), p["x"] ** 2 + 0.1 * p["y"], p["om"], p["x"] * p["n"], p["bsf"])),
    shared=Model(
        dict(V_props=V("HenyeyGreenstein", tau="q", omega="q / 3", t="t", ncoefs=3),
             SRF_props=S("HenyeyGreenstein", NormBRDF="0.1 + t", t="t", ncoefs=3)),
        dict(t=(0.3, 0.01, 0.7), q=(0.4, 0.01, 2.0)), dict(), (),
        lambda p: (("HG", p["t"], ref.A_V), ("HGs", p["t"], ref.A_S), p["q"], p["q"] / 3, 0.1 + p["t"], 0.0)),
    lin=Model(
        dict(V_props=V("LinCombV", tau="tau", omega=0.2,
                       Vchoices=[["w", V("Rayleigh", tau=0.0, omega=0.0)],
                                 ["1 - w", V("HGRayleigh", t="t", ncoefs=3, tau=0.0, omega=0.0)]]),
             SRF_props=S("LinCombSRF", NormBRDF="N",
                         SRFchoices=[[0.4, S("CosineLobe", i=2, ncoefs=3)],
                                     ["w", S("HenyeyGreenstein", t="ts", ncoefs=3, a=[0.8, 1.0, 1.0])]])),
        dict(w=(0.4, 0.01, 1.0), tau=(0.5, 0.01, 2.0)), dict(t=0.25, N=0.3), ("ts",),
        lambda p: (("Lin", ((p["w"], ("Rayleigh",)), (1 - p["w"], ("HGRay", p["t"], ref.A_V)))),
                   ("Lin", ((0.4, ("Cos", 2, ref.A_S)), (p["w"], ("HGs", p["ts"], (0.8, 1.0, 1.0))))),
                   p["tau"], 0.2, p["N"], 0.0)),
    call=Model(
        _call_vsrf, dict(omega=(0.2, 0.001, 1.0), N=(0.3, 0.01, 2.0)), dict(t=0.35, tau=0.4), (),
        lambda p: (("HG", 0.25, ref.A_V), ("Lin", ((p["t"], ("HGn", 0.3, (0.9, 1.0, 1.0))), (1 - p["t"], ("Iso",)))),
                   2 * p["tau"], p["omega"] ** 2 + 0.1, p["N"] / 2, 0.0)),
    # names of parameters that are also names used inside the rt1 modules
    names=Model(
        dict(V_props=V("Rayleigh", tau="log", omega="np"), SRF_props=S("HenyeyGreenstein", NormBRDF="pd", t="expi", ncoefs=3)),
        dict(log=(0.3, 0.01, 2.0), expi=(0.2, 0.01, 0.7)), dict(np=0.2), ("pd",),
        lambda p: (("Rayleigh",), ("HGs", p["expi"], ref.A_S), p["log"], p["np"], p["pd"], 0.0)),
)


def build(model, ds, dyn, sig0=False, dB=False, weights=False, manual=(), start=(), int_Q=False, lsq=None, **kw):
    """dyn: {param: freq} -> (fit, sorted dataset)"""
    from rt1.rtfits import Fits

    m = MODELS[model]
    df = dataset(ds, weights=weights, manual=manual, start=start, aux=m.aux)
    dd = {}
    for k, (s, lo, hi) in m.fit.items():
        dd[k] = [True, "auxiliary" if k in start else s, dyn.get(k), ([lo], [hi])]
    for k, v in m.fixed.items():
        dd[k] = [False, v]
    for k in m.aux:
        dd[k] = [False, "auxiliary"]
    if sig0 or dB:
        df["sig"] = ref.to_units(df["sig"], df["inc"], sig0, dB)
    fit = Fits(sig0=sig0, dB=dB, dataset=df, defdict=dd, set_V_SRF=m.vsrf, int_Q=int_Q, lsq_kwargs=lsq, verbose=0, **kw)
    return fit, df.sort_index(kind="stable")


class Reference:
    """what the fit has to do with the (sorted) dataset"""

    def __init__(self, model, df, dyn, sig0=False, dB=False):
        self.m, self.df, self.sig0, self.dB = MODELS[model], df, sig0, dB
        self.grp = {k: groups(df, dyn.get(k), df.get(k + "_dyn")) for k in self.m.fit}
        self.n = {k: max(g) + 1 for k, g in self.grp.items()}
        self.total = sum(self.n.values())

    def params(self, res_dict):
        p = {k: np.asarray(res_dict[k], float)[np.array(g)] for k, g in self.grp.items()}
        p.update(self.m.fixed)
        p.update({k: self.df[k].to_numpy(float) for k in self.m.aux})
        return p

    def model(self, res_dict):
        p = self.params(res_dict)
        v, s, tau, om, N, bsf = self.m.fn(p)
        inc = self.df.inc.to_numpy()
        sv = ref.mono(v, s, inc, tau, om, N, bsf)
        return ref.to_units(sv[0] + sv[1], inc, self.sig0, self.dB)

    def residuals(self, res_dict):
        w = self.df["data_weights"].to_numpy() if "data_weights" in self.df else 1.0
        return w * (self.model(res_dict) - self.df.sig.to_numpy())

    def startvals(self, key):
        if key + "_start" in self.df:
            s = pd.Series(self.df[key + "_start"].to_numpy())
            return s.groupby(np.array(self.grp[key])).mean().to_numpy()
        return np.full(self.n[key], self.m.fit[key][0])


@contextmanager
def capture_optimizer(solution=None):
    """stand-in for scipy's least_squares: records what it is given; solution(x0, bounds) -> x"""
    import scipy.optimize as so

    import rt1.rtfits as rf

    real = so.least_squares
    sig = inspect.signature(real)
    calls = []

    def stub(*args, **kw):
        b = sig.bind(*args, **kw).arguments
        b = {**b, **b.pop("kwargs", {})} if isinstance(b.get("kwargs"), dict) else dict(b)
        x0 = np.atleast_1d(np.asarray(b["x0"], float))
        x = solution(x0, b.get("bounds")) if solution else x0
        calls.append(b)
        f = np.asarray(b["fun"](x))
        return so.OptimizeResult(x=x, fun=f, cost=0.5 * float(f @ f), success=True, status=1, message="stub", nfev=1,
                                 njev=1, optimality=0.0, active_mask=np.zeros_like(x), jac=np.zeros((f.size, x.size)),
                                 grad=np.zeros_like(x))

    had = getattr(rf, "least_squares", None)
    so.least_squares = stub
    if had is not None:
        rf.least_squares = stub
    try:
        yield calls
    finally:
        so.least_squares = real
        if had is not None:
            rf.least_squares = had


def distinct(x0, bounds=None):
    """a point with a different value in every entry (to identify them)"""
    return x0 + 0.001 + 0.02 * (((1 + np.arange(x0.size)) * 0.6180339887498949) % 1.0)


def unpack(x, res_dict):
    """positions of the entries of res_dict in x (entries are distinct)"""
    return {k: [int(np.argmin(np.abs(x - v))) for v in np.atleast_1d(vals)] for k, vals in res_dict.items()}


def same_multiset(a, b, tol=1e-9):
    a, b = np.sort(np.ravel(a)), np.sort(np.ravel(b))
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=1e-12)


def tau_defect(ref_, res_dict, key):
    """known finding C15: the derivative of the volume contribution with respect to tau uses (1/mu_0 + mu_ex)
    instead of (1/mu_0 + 1/mu_ex).  -> resulting deviation of d(residual)/d(value of key) for every row"""
    p = ref_.params(res_dict)
    h = 1e-6
    up, dn = dict(p), dict(p)
    up[key] = p[key] + h
    dn[key] = p[key] - h
    tau = lambda q: np.broadcast_to(np.asarray(ref_.m.fn(q)[2], float), len(ref_.df))
    dtau = (tau(up) - tau(dn)) / (2 * h)
    v, s, t, om, N, bsf = ref_.m.fn(p)
    inc = ref_.df.inc.to_numpy()
    mu = np.cos(inc)
    d = ((1.0 - bsf) * om * 0.5 * (mu - 1.0 / mu) * np.exp(-2.0 * t / mu)
         * ref.phase(v, inc, inc, np.zeros_like(inc), np.full_like(inc, np.pi)))
    if ref_.dB:
        sv = ref.mono(v, s, inc, t, om, N, bsf)
        d = d * 10.0 / np.log(10.0) / (sv[0] + sv[1])
    elif ref_.sig0:
        d = d * 4.0 * np.pi * mu
    w = ref_.df["data_weights"].to_numpy() if "data_weights" in ref_.df else 1.0
    return d * dtau * w


def add_tau_defect(N, f, ref_, res_dict, pos):
    """the jacobian N (rows ordered as in f) with the known deviation"""
    e = ref_.residuals(res_dict)
    row = np.empty(len(e), int)  # row of the jacobian of every row of the dataset
    row[np.argsort(e)] = np.argsort(f)
    out = N.copy()
    for k, p in pos.items():
        d = tau_defect(ref_, res_dict, k)
        for i, g in enumerate(ref_.grp[k]):
            out[row[i], p[g]] += d[i]
    return out


# ------------------------------------------------------------------ speed
def memo_lambdify():
    """lambdify is a pure function of its arguments; many objects with the same functions are created here"""
    import sympy

    orig = sympy.lambdify
    if hasattr(orig, "_memo"):
        return
    memo = {}

    def lambdify(args, expr, modules=None, **kw):
        try:
            key = (tuple(args) if isinstance(args, (list, tuple)) else args, isinstance(args, (list, tuple)),
                   tuple(expr) if isinstance(expr, list) else expr, isinstance(expr, list), repr(modules), repr(sorted(kw.items())))
            hash(key)
        except TypeError:
            return orig(args, expr, modules, **kw)
        # (numbers of different type compare equal)
        key += (repr(type(expr)),)
        if key not in memo:
            memo[key] = orig(args, expr, modules, **kw)
        return memo[key]

    lambdify._memo = True
    sympy.lambdify = lambdify
