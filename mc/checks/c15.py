"""C15: analytic derivatives equal the derivatives of the model."""
import itertools

import numpy as np

from mc import core, ref, rtgen
from mc.checks import c14
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every pair of scattering functions of the alphabet (with numeric, symbolic and functional parameters, linear "
    "combinations) x geometry x unit x parameter values: the jacobian with respect to every parameter, slopes and "
    "curvatures of surface, volume and total, and the angular derivatives of every scattering function are compared to "
    "differences of closed-form evaluations; distinct = distinct (functions, geometry, unit, quantity)"
)
NOTE = "Complete for the stated functions, parameter values, units and angles; compared to high-order finite differences."
TIMEOUT = 600
VALS = c14.VALS
KNOWN = "jacobian/d_volume_d_tau=1/mu_0+mu_ex"
MONO = [0.2, 0.6, 0.95, 1.25]
BI = [(0.3, 0.5, 0.2, 2.0), (0.9, 0.2, 0.4, 1.0), (1.2, 1.1, 1.0, 4.0), (0.6, 0.6, 0.3, 0.3 + np.pi)]
PARS = [dict(tau=0.4, omega=0.3, NormBRDF=0.25, bsf=0.2), dict(tau=1.7, omega=0.8, NormBRDF=0.9, bsf=0.0)]
UNITS = list(itertools.product((False, True), repeat=2))


def cases(tier, seed):
    vs, ss = (c14.VS, c14.SS) if tier == "quick" else (c14.VS_T, c14.SS_T)
    out = [["jac", v, s, tier] for v, s in itertools.product(vs, ss)]
    out += [["fn", v, None, tier] for v in vs] + [["fn", None, s, tier] for s in ss]
    out += [["slope", v, s, tier] for v, s in itertools.product(vs, ss)]
    return out


def case_key(c):
    return c[0] + "/" + "|".join(rtgen.label(x) for x in c[1:3] if x)


def d1(f, x, h=2e-3):
    """first derivative, 6th order"""
    return (45 * (f(x + h) - f(x - h)) - 9 * (f(x + 2 * h) - f(x - 2 * h)) + (f(x + 3 * h) - f(x - 3 * h))) / (60 * h)


def d2(f, x, h=4e-3):
    """second derivative, 6th order"""
    return ((f(x + 3 * h) + f(x - 3 * h)) * 2 - (f(x + 2 * h) + f(x - 2 * h)) * 27
            + (f(x + h) + f(x - h)) * 270 - 490 * f(x)) / (180 * h**2)


def ok(a, b, rtol=2e-6):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    z = np.isfinite(b)  # (not where the model itself is not defined, e.g. 0 in dB)
    a, b = a[z], b[z]
    if not b.size:
        return True
    return bool(np.all(np.abs(a - b) <= rtol * np.maximum(np.abs(b).max(), 1e-6) + rtol * np.abs(b)))


def model(v, s, arr, p, vals):
    (vs, _), (ss, _) = rtgen.spec(v, vals), rtgen.spec(s, vals)
    return (ref.surface(ss, *arr, p["tau"], p["NormBRDF"], p["bsf"]),
            ref.volume(vs, *arr, p["tau"], p["omega"], p["bsf"]))


def run_jac(res, v, s, tier):
    from rt1.rt1 import RT1

    names = sorted(c14._free(v) | c14._free(s))
    for geometry, pi, mode in itertools.product(["mono", "vvvv", "fvfv"], range(len(PARS)), ["scalar", "array"]):
        if geometry == "fvfv" and mode == "array":
            continue
        pts = [(t, t, 0.3, 0.3 + np.pi) for t in MONO] if geometry == "mono" else BI
        if geometry == "fvfv":
            pts = [(BI[0][0], a[1], BI[0][2], a[3]) for a in BI]
        arr = [np.array(x) for x in zip(*pts)]
        p = dict(PARS[pi])
        vals = dict(VALS)
        if mode == "array":
            ramp = np.linspace(0.9, 1.1, len(pts))
            p = {k: x * ramp for k, x in p.items()}
            vals = {k: x * ramp for k, x in vals.items()}
        R = RT1(1.0, *arr, V=rtgen.make_v(v, p["tau"], p["omega"]), SRF=rtgen.make_s(s, p["NormBRDF"]), geometry=geometry,
                bsf=p["bsf"], param_dict={k: vals[k] for k in names}, verbosity=0, int_Q=False)
        for sig0, dB in UNITS:
            plist = ["omega", "tau", "NormBRDF", "bsf"] + names
            key = f"{case_key(['jac', v, s])}/{geometry}/{mode}{pi}/sig0={sig0},dB={dB}"
            J = R.jacobian(dB=dB, sig0=sig0, param_list=plist)
            if not expect(res, len(J) == len(plist), key, f"{len(J)} derivatives for {plist}"):
                continue
            for name, j in zip(plist, J):
                def f(x):
                    if name in p:
                        a = sum(model(v, s, arr, {**p, name: x}, vals))
                    else:
                        a = sum(model(v, s, arr, p, {**vals, name: x}))
                    return ref.to_units(a, arr[0], sig0, dB)

                x0 = np.broadcast_to(np.asarray(p.get(name, vals.get(name)), float), arr[0].shape)
                want = d1(f, x0, 1e-3)
                good = ok(j, want)
                if not good and name == "tau":
                    m0, me = np.cos(arr[0]), np.cos(arr[1])
                    (vs, _) = rtgen.spec(v, vals)
                    dev = ((1 - p["bsf"]) * p["omega"] * m0 / (m0 + me) * (me - 1 / me)
                           * np.exp(-p["tau"] / m0 - p["tau"] / me) * ref.phase(vs, *arr))
                    sv = sum(model(v, s, arr, p, vals))
                    fac = 10 / np.log(10) / sv if dB else 4 * np.pi * m0 if sig0 else 1.0
                    if ok(j, want + dev * fac):
                        res.count("tau_derivatives_with_known_defect")
                        if not any(x[0] == KNOWN for x in res.violations):
                            res.violation(KNOWN, "derivative of the volume contribution with respect to tau")
                        good = True
                expect(res, good, key + "/" + name, lambda: f"d/d{name}: {j} instead of {want}")
                res.evaluations += len(pts)
                res.state((key, name))
        if len(res.violations) > 4:
            return


def run_slope(res, v, s, tier):
    from rt1.rt1 import RT1

    names = sorted(c14._free(v) | c14._free(s))
    t = np.array(MONO)
    one = np.ones_like(t)

    def S(x, p):
        return model(v, s, [x, x, 0.3 * one, (0.3 + np.pi) * one], p, VALS)

    for pi, p in enumerate(PARS):
        R = RT1(1.0, t, t, 0.3 * one, 0.3 * one, V=rtgen.make_v(v, p["tau"], p["omega"]), SRF=rtgen.make_s(s, p["NormBRDF"]),
                geometry="mono", bsf=p["bsf"], param_dict={k: VALS[k] for k in names}, verbosity=0, int_Q=False)
        for sig0, dB in UNITS:
            for what, part in (("surface", lambda x: S(x, p)[0]), ("volume", lambda x: S(x, p)[1]),
                               ("tot", lambda x: sum(S(x, p)))):
                f = lambda x: ref.to_units(part(x), x, sig0, dB)
                key = f"{case_key(['slope', v, s])}/{pi}/sig0={sig0},dB={dB}/{what}"
                for q, d, tol in (("slope", d1, 2e-6), ("curv", d2, 2e-5)):
                    got, want = getattr(R, f"{what}_{q}")(sig0=sig0, dB=dB), d(f, t)
                    expect(res, ok(got, want, tol), key + "_" + q, lambda: f"{what}_{q}: {got} instead of {want}")
                    res.evaluations += len(t)
                    res.state(key + q)
        if len(res.violations) > 4:
            return


def run_fn(res, v, s, tier):
    d = v or s
    names = sorted(c14._free(d))
    pd_ = {k: VALS[k] for k in names}
    sp_, _ = rtgen.spec(d, VALS)
    X = rtgen.make_v(v) if v else rtgen.make_s(s)
    fun = X.p_theta_diff if v else X.brdf_theta_diff
    r = ref.phase if v else ref.brdf
    for geometry in ["mono"] + c14.GEOMS:
        pts = [(t, t, 0.3, 0.3 + np.pi) for t in MONO] if geometry == "mono" else BI
        if geometry != "mono":
            pts = [tuple(a[i] if c == "v" else BI[1][i] for i, c in enumerate(geometry)) for a in BI]
        arr = [np.array(x) for x in zip(*pts)]
        for n, d_, tol in ((1, d1, 2e-6), (2, d2, 2e-5)):
            key = f"{case_key(['fn', v, s])}/{geometry}/n={n}"
            if geometry == "mono":
                f = lambda x: r(sp_, x, x, arr[2], arr[3])
                want = d_(f, arr[0])
            elif geometry[1] == "f":
                want = 0.0  # the angle is a constant
            else:
                f = lambda x: r(sp_, arr[0], x, arr[2], arr[3])
                want = d_(f, arr[1])
            got = fun(*arr, geometry, param_dict=dict(pd_), n=n)
            expect(res, ok(got, want, tol), key, lambda: f"derivative: {got} instead of {want}")
            res.evaluations += len(pts)
            res.state(key)


def run_case(case):
    kind, v, s, tier = case
    res = core.Result()
    dict(jac=run_jac, slope=run_slope, fn=run_fn)[kind](res, v, s, tier)
    res.sample({"case": case_key(case)})
    return res
