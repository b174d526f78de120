"""C17: scattering functions equal their formulas, are normalised, and agree with their Legendre expansions."""
import itertools

import numpy as np
import sympy as sp

from mc import core, ref, rtgen
from mc.checks import c14
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every scattering function of the alphabet (all implemented functions, parameter values incl. negative and extreme, "
    "generalised scattering angles, numeric/symbolic/functional parameters, nested weights of linear combinations): values at "
    "a grid of angles in scalar, 1-d and 2-d form, normalisation integrals, every Legendre coefficient up to n=12 against a "
    "projection, the evaluated expansion for every geometry setting, and the objects rebuilt from their init_dict; "
    "distinct = distinct (function, quantity)"
)
NOTE = "Complete for the stated alphabet of functions and angles."
TIMEOUT = 600
VALS = dict(q=0.33, t=0.27, w=0.4)
SMALL = [[-1.0, 1.0, 1.0], [-0.9, 0.8, 1.1], [-0.5, 1.0, 0.2]]


def functions(tier):
    T = [0.05, 0.3, 0.7, -0.4, "q", "q*0.5+0.1"] + ([0.9, -0.75, "1-q", "q**2"] if tier != "quick" else [])
    N = [1, 3, 6] + ([2, 9, 12] if tier != "quick" else [])
    vs = [["Rayleigh"], ["Rayleigh", [-0.9, 0.8, 1.1]]]
    ss = [["Iso"]]
    for t, n, a in itertools.product(T, N, [None, [-0.9, 0.8, 1.1], [-0.5, 1.0, 0.2]]):
        vs += [["HG", t, n, a], ["HGRay", t, n, a]]
    for t, n, a in itertools.product([x if not isinstance(x, str) else x.replace("q", "t") for x in T], N,
                                     [None, [0.9, 1.0, 0.7], [0.6, 0.9, 1.0]]):
        ss += [["HGs", t, n, a], ["HGn", t, n, a]]
    for i, n, a in itertools.product([0, 1, 2, 5] + ([3, 4, 9] if tier != "quick" else []), N, [None, [0.9, 1.0, 0.7]]):
        ss.append(["Cos", i, n, a])
    W = [0.3, "w", "1-w", 0.0, 1.5]
    lv = [["Rayleigh"], ["Rayleigh", [-0.5, 0.8, 1.0]], ["HG", 0.3, 4, None], ["HG", "q", 4, [-0.9, 0.8, 1.1]], ["HGRay", "q", 4, None]]
    ls = [["Iso"], ["HGs", 0.3, 3, None], ["Cos", 2, 3, [0.9, 1.0, 0.7]], ["HGn", "t", 3, [0.9, 1.0, 0.7]]]
    for (i, a), (j, b) in itertools.product(enumerate(lv), repeat=2):
        vs.append(["LinV", [[W[(i + j) % 5], a], [W[(i + 2 * j + 1) % 5], b]]])
    for (i, a), (j, b) in itertools.product(enumerate(ls), repeat=2):
        ss.append(["LinS", [[W[(i + j) % 5], a], [W[(i + 2 * j + 1) % 5], b]]])
    vs.append(["LinV", [[w, m] for w, m in zip(["w", 0.2, "1-w", 0.1], lv)]])
    ss.append(["LinS", [[w, m] for w, m in zip(["w", 0.2, "1-w", 0.1], ls)]])
    vs.append(["LinV", [["w", ["HGRay", 0.4, 3, None]]]])
    ss.append(["LinS", [[0.7, ["Iso"]]]])
    return vs, ss


def cases(tier, seed):
    vs, ss = functions(tier)
    return [["V", v] for v in vs] + [["S", s] for s in ss]


def case_key(c):
    return rtgen.label(c[1])


T0 = np.array([0.0, 0.3, 0.8, 1.2, 1.5])
TX = np.array([0.4, 0.3, 1.1, 0.0, 1.3])
P0 = np.array([0.0, 0.5, 2.0, 1.0, 3.0])
PX = np.array([np.pi, 0.5 + np.pi, 1.0, 4.0, 6.0])


def run_case(case):
    kind, d = case
    res = core.Result()
    lab = rtgen.label(d)
    names = sorted(c14._free(d))
    pd_ = {k: VALS[k] for k in names}
    spec, nc = rtgen.spec(d, VALS)
    X = rtgen.make_v(d, 0.4, 0.3) if kind == "V" else rtgen.make_s(d, 0.7)
    ev = X.p if kind == "V" else X.brdf
    rf = ref.phase if kind == "V" else ref.brdf

    def chk(cond, what, msg):
        res.evaluations += 1
        res.state((lab, what))
        return expect(res, cond, f"{lab}/{what}", msg)

    def same(got, want, what, tol=1e-10):
        try:
            got = np.asarray(got, float)
        except Exception:  # noqa: BLE001
            return chk(False, what, f"not a number: {got}")
        return chk(got.shape in ((np.shape(want)), np.broadcast_shapes(np.shape(got), np.shape(want)))
                   and np.allclose(np.broadcast_to(got, np.shape(want)), want, rtol=tol, atol=1e-13), what,
                   lambda: f"{got} instead of {want}")

    # values
    want = rf(spec, T0, TX, P0, PX)
    same(ev(T0, TX, P0, PX, dict(pd_)), want, "array")
    for i in range(len(T0)):
        same(ev(T0[i], TX[i], P0[i], PX[i], param_dict=dict(pd_)), want[i], f"scalar{i}")
    A = [x[:, None] for x in (T0, TX)] + [x[None, :] for x in (P0, PX)]
    same(ev(*np.broadcast_arrays(*A), dict(pd_)), rf(spec, *A), "2d")
    if pd_:
        # array-valued parameters
        ramp = np.array([0.8, 0.9, 1.0, 1.05, 1.1])
        got = np.asarray(ev(T0, TX, P0, PX, {k: v * ramp for k, v in pd_.items()}), float)
        w2 = []
        for i in range(5):
            s2, _ = rtgen.spec(d, {k: v * ramp[i] for k, v in pd_.items()})
            w2.append(float(rf(s2, T0[i], TX[i], P0[i], PX[i])))
        same(got, np.array(w2), "array-parameters")
        # after other parameter names were evaluated; order of the parameters, and further parameters
        same(ev(T0, TX, P0, PX, {**dict(reversed(list(pd_.items()))), "unused": 3.0}), want, "more-parameters")
    # albedo, optical depth, normalisation
    if kind == "V":
        same([X.tau, X.omega], [0.4, 0.3], "tau-omega")
    else:
        same(X.NormBRDF, 0.7, "NormBRDF")

    # reciprocity (the generalised scattering angle is symmetric)
    same(ev(TX, T0, PX, P0, dict(pd_)), want, "reciprocal")

    # normalisation
    std = lambda m: (len(m) < 4 or m[3] is None) if m[0] != "Rayleigh" else len(m) < 2
    if kind == "V" and d[0] != "LinV" and std(d):
        x, w = ref._glnodes([0, np.pi / 4, np.pi / 2, np.pi], 30)
        ph = np.arange(64) * 2 * np.pi / 64
        val = ev(np.full((x.size, 64), 0.7), np.broadcast_to(x[:, None], (x.size, 64)).copy(),
                 np.full((x.size, 64), 0.4), np.broadcast_to(ph, (x.size, 64)).copy(), dict(pd_))
        tot = float(np.sum(w * np.sin(x) * np.mean(val, axis=1)) * 2 * np.pi)
        same(tot, 1.0, "normalised", 1e-6 if d[0] == "Rayleigh" or abs(rtgen.num(d[1], VALS)) < 0.8 else 1e-3)
    if kind == "S" and d[0] in ("HGn", "Iso"):
        x, w = ref._glnodes([0, np.pi / 4, np.pi / 2], 30)
        z = np.zeros_like(x)
        val = np.broadcast_to(ev(z, x, z, z, dict(pd_)), x.shape)
        same(float(np.sum(w * np.cos(x) * np.sin(x) * val) * 2 * np.pi), 1.0, "normalised")

    # Legendre coefficients
    subs = {sp.Symbol(k): v for k, v in pd_.items()}
    if d[0] not in ("LinV", "LinS"):
        coefs = ref.legcoefs(spec, 13)
        n = sp.Symbol("n")
        for k in range(13):
            if d[0] in ("Rayleigh", "Iso") or True:
                got = X.legcoefs.xreplace({n: sp.Integer(k)}).subs(subs)
                same(complex(got.doit().evalf()).real, coefs[k], f"legcoef{k}", 1e-7 if d[0] != "Cos" else 1e-6)
                if not pd_:
                    same(float(X._get_legcoef(k)), coefs[k], f"get_legcoef{k}", 1e-7 if d[0] != "Cos" else 1e-6)
        if abs(d[1] if len(d) > 1 and isinstance(d[1], (int, float)) else 0.5) <= 0.71 and d[0] not in ("Cos",):
            x = np.linspace(-1, 1, 21)
            many = ref.legcoefs(spec, 80)
            same(ref.npleg.legval(x, many), ref.profile(spec, x), "series-represents-function", 1e-4)
    # number of coefficients, and evaluated expansion
    ncm = max(nc) if isinstance(nc, tuple) else nc
    chk(X.ncoefs == ncm, "ncoefs", lambda: f"{X.ncoefs} coefficients instead of {ncm}")
    for g in ["mono", "vvvv", "ffff", "vffv"]:
        pt = (0.5, 0.5, 0.4, 0.4 + np.pi) if g == "mono" else (0.5, 0.9, 0.4, 1.7)
        ex = X.legexpansion(*[np.array([x]) for x in pt], g)
        ex = ex.doit() if hasattr(ex, "doit") else ex
        sub = dict(zip(map(sp.Symbol, ("theta_0", "theta_ex", "phi_0", "phi_ex")), pt))
        for ts, ps in ((0.2, 1.0), (1.1, 4.0)):
            got = sp.sympify(ex).subs({**sub, **subs, sp.Symbol("theta_s"): ts, sp.Symbol("phi_s"): ps}).evalf()
            if kind == "V":
                w = ref.series(spec, nc, np.pi - pt[0], ts, pt[2], ps)
            else:
                w = ref.series(spec, nc, ts, pt[1], ps, pt[3])
            same(complex(got).real, w, f"legexpansion/{g}/{ts}", 1e-7)
            if len(res.violations) > 4:
                return res

    # rebuilt from its own description
    from rt1.rtfits import Fits

    vp = X.init_dict if kind == "V" else dict(V_name="Rayleigh", tau=0.1, omega=0.1)
    spd = X.init_dict if kind == "S" else dict(SRF_name="Isotropic", NormBRDF=0.3)
    dd = {k: [False, v] for k, v in pd_.items()}
    fit = Fits(sig0=False, dB=False, dataset=None, defdict=dd, set_V_SRF=dict(V_props=vp, SRF_props=spd), verbosity=0)
    Y = fit.V if kind == "V" else fit.SRF
    ev2 = Y.p if kind == "V" else Y.brdf
    same(ev2(T0, TX, P0, PX, dict(pd_)), want, "init_dict")
    chk(Y.ncoefs == X.ncoefs, "init_dict/ncoefs", lambda: f"{Y.ncoefs} != {X.ncoefs}")
    res.sample({"function": lab})
    return res
