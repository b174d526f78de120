"""C13: total = surface + volume + interaction, closed forms, and the documented limits."""
import itertools

import numpy as np

from mc import core, ref, rtgen
from mc.checks import c14
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every pair of scattering functions of the alphabet x geometry (mono, vvvv, ffff, mixed) x every combination of "
    "optical depth, albedo, normalisation, bare-soil fraction and intensity from boundary and interior values, as scalars, "
    "arrays and symbols, with and without interaction term; plus fits in all four units with components returned; the "
    "contributions are compared to closed forms, their sum to the total, and the limits (tau=0, omega=0, bsf=1, N=0) are "
    "checked; distinct = distinct (functions, geometry, parameters)"
)
NOTE = "Complete for the stated functions, parameter values and angles."
TIMEOUT = 600
VALS = c14.VALS
TAU = [0.0, 0.02, 0.7, 4.0]
OM = [0.0, 0.3, 1.0]
NB = [0.0, 0.25, 1.0]
BSF = [0.0, 0.35, 1.0]
ANG = [(0.0, 0.3, 0.0, 2.0), (0.5, 0.5, 0.2, 0.2 + np.pi), (0.9, 0.2, 0.4, 1.0), (1.3, 1.2, 1.0, 4.0)]


def cases(tier, seed):
    vs, ss = (c14.VS, c14.SS) if tier == "quick" else (c14.VS_T, c14.SS_T)
    out = []
    for n, (v, s) in enumerate(itertools.product(vs, ss)):
        gs = ["mono", "vvvv"] if tier == "quick" and n % 5 else ["mono", "vvvv", "fvfv", "vfvf"]
        out.append(["rt1", v, s, gs, tier])
    from mc import fitgen

    for m in fitgen.MODELS:
        for ds in ["ragged", "intraday", "long"]:
            out.append(["fit", m, ds, tier])
    return out


def case_key(c):
    return c[0] + "/" + (c14.case_key(c[1:]) if c[0] == "rt1" else f"{c[1]}/{c[2]}")


def close(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    return np.allclose(a, b, rtol=1e-9, atol=1e-14)


def judge(res, key, out, int_Q, want_s, want_v, tau, om, N, bsf, bare):
    """out: what calc() returned"""
    want_n = 4 if int_Q else 3
    if not expect(res, len(out) == want_n, key + "/len", f"calc() returned {len(out)} values"):
        return
    tot, s, v = (np.asarray(x, float) for x in out[:3])
    i = np.asarray(out[3], float) if int_Q else 0.0
    expect(res, close(tot, s + v + i), key + "/sum", lambda: f"total {tot} != {s} + {v} + {i}")
    expect(res, close(s, want_s), key + "/surface", lambda: f"surface {s} instead of {want_s}")
    expect(res, close(v, want_v), key + "/volume", lambda: f"volume {v} instead of {want_v}")
    tot, s, v, i, bare, tau, om, N, bsf = np.broadcast_arrays(*(np.asarray(x, float)
                                                                for x in (tot, s, v, i, bare, tau, om, N, bsf)))
    z = tau == 0
    expect(res, close(tot[z], bare[z]) and close(v[z], 0) and close(i[z], 0), key + "/tau=0",
           lambda: f"no vegetation: {tot[z]} instead of {bare[z]} (volume {v[z]}, interaction {i[z]})")
    z = om == 0
    expect(res, close(v[z], 0) and close(i[z], 0), key + "/omega=0",
           lambda: f"zero albedo: volume {v[z]}, interaction {i[z]}")
    z = bsf == 1
    expect(res, close(tot[z], bare[z]), key + "/bsf=1", lambda: f"only bare soil: {tot[z]} instead of {bare[z]}")
    z = N == 0
    expect(res, close(s[z], 0) and close(i[z], 0), key + "/N=0",
           lambda: f"black soil: surface {s[z]}, interaction {i[z]}")
    expect(res, np.all(np.isfinite(tot)), key + "/finite", lambda: f"total {tot}")


def run_rt1(res, v, s, geoms, tier):
    from rt1.rt1 import RT1

    (vs, _), (ss, _) = rtgen.spec(v, VALS), rtgen.spec(s, VALS)
    names = sorted(c14._free(v) | c14._free(s))
    pd_ = {k: VALS[k] for k in names}
    lab = c14.case_key([v, s])
    I0 = 1.3
    for g in geoms:
        ang = [(t, t, p, p + np.pi) for t, p in ((0.0, 0.4), (0.6, 0.4), (1.2, 0.4))] if g == "mono" else ANG
        if "f" in g:
            ang = [tuple(a[i] if c == "v" else ANG[2][i] for i, c in enumerate(g)) for a in ang]
        arr = [np.array(x) for x in zip(*ang)]
        fn = None
        for bi, bsf in enumerate(BSF + ["arr"]):
            if bsf == "arr":
                bsf = np.linspace(0.0, 1.0, len(ang))
            combos = [(tau, om, N) for N, om, tau in itertools.product(NB, OM, TAU)]
            m = len(combos)
            flat = [np.tile(x, m) for x in arr]
            fb = np.tile(bsf, m) if np.ndim(bsf) else bsf
            T, O, N_ = (np.repeat(np.array(x), len(ang)) for x in zip(*combos))
            objs = []
            full = "@array"
            R = RT1(I0, *flat, V=rtgen.make_v(v, T, O), SRF=rtgen.make_s(s, N_), geometry=g, bsf=fb, param_dict=dict(pd_),
                    verbosity=0, _fnevals_input=fn)
            if fn is None and not ("f" in g):
                fn = R._fnevals
            objs.append((full, R, T, O, N_, True, flat, fb))
            if bi == 1:
                R = RT1(I0, *flat, V=rtgen.make_v(v, T, O), SRF=rtgen.make_s(s, N_), geometry=g, bsf=fb,
                        param_dict=dict(pd_), verbosity=0, int_Q=False)
                objs.append((full + "/int_Q=False", R, T, O, N_, False, flat, fb))
            for j, (tau, om, N) in enumerate(combos):
                if j % 3 != bi % 3:
                    continue
                R = RT1(I0, *arr, V=rtgen.make_v(v, tau, om), SRF=rtgen.make_s(s, N), geometry=g, bsf=bsf,
                        param_dict=dict(pd_), verbosity=0, _fnevals_input=fn, int_Q=bool(fn) and j % 2 == 0)
                objs.append((f"@tau={tau},omega={om},N={N}", R, tau, om, N, bool(fn) and j % 2 == 0, arr, bsf))
            for lbl, R, tau, om, N, iq, A, B in objs:
                key = f"{lab}/{g}/bsf={np.round(bsf, 2)}{lbl}"
                with np.errstate(all="ignore"):
                    out = R.calc()
                want_s = ref.surface(ss, *A, tau, N, B, I0)
                want_v = ref.volume(vs, *A, tau, om, B, I0)
                bare = I0 * np.cos(A[0]) * N * ref.brdf(ss, *A)
                judge(res, key, out, iq, want_s, want_v, tau, om, N, B, bare)
                # the partial evaluations agree with calc()
                expect(res, close(R.surface(), out[1]) and close(R.volume(), out[2]), key + "/partial",
                       "surface() / volume() differ from calc()")
                n = np.broadcast(want_s, want_v).size
                res.evaluations += n
                res.state((lab, g, np.round(bsf, 3).tolist(), lbl))
            if len(res.violations) > 4:
                return


def run_fit(res, model, ds, tier):
    from mc import fitgen as G

    p1, p2 = [*G.MODELS[model].fit][:2]
    for (sig0, dB), int_Q in itertools.product(itertools.product((False, True), repeat=2), (True, False)):
        fit, df = G.build(model, ds, {p1: "D", p2: 2}, sig0=sig0, dB=dB, int_Q=int_Q)
        R = G.Reference(model, df, {p1: "D", p2: 2}, sig0=sig0, dB=dB)
        with G.capture_optimizer(G.distinct):
            fit.performfit()
        rd = {k: np.asarray(v, float) for k, v in fit.res_dict.items()}
        p = R.params(rd)
        vv, sss, tau, om, N, bsf = R.m.fn(p)
        inc = df.inc.to_numpy()
        want_s, want_v = ref.mono(vv, sss, inc, tau, om, N, bsf)
        comp = fit.calc_model(return_components=True)
        key = f"fit/{model}/{ds}/sig0={sig0},dB={dB},int_Q={int_Q}"
        srt = lambda x: np.sort(np.broadcast_to(np.asarray(x, float), inc.shape))
        names = {"tot", "surf", "vol"} | ({"inter"} if int_Q else set())
        if not expect(res, names == set(comp.columns), key + "/names", f"components {list(comp.columns)}"):
            continue
        # (the factor between intensity and sigma0 is the same for all contributions)
        lin = {c: 10.0 ** (comp[c].to_numpy(float) / 10.0) if dB else comp[c].to_numpy(float) for c in comp}
        expect(res, np.allclose(lin["tot"], lin["surf"] + lin["vol"] + lin.get("inter", 0.0), rtol=1e-9), key + "/sum",
               lambda: f"the components do not sum up to the total: {lin}")
        with np.errstate(all="ignore"):
            for c, w in (("surf", want_s), ("vol", want_v)):
                w = ref.to_units(w, inc, sig0, dB)
                expect(res, np.allclose(srt(comp[c]), srt(w), rtol=1e-8, atol=1e-14), key + "/" + c,
                       lambda: f"{c}: {srt(comp[c])} instead of {srt(w)}")
        tot = fit.calc_model()["tot"].to_numpy(float)
        expect(res, np.allclose(np.sort(tot), np.sort(comp["tot"].to_numpy(float))), key + "/total",
               "calc_model() differs from calc_model(return_components=True)")
        res.evaluations += len(df)
        res.state(key)


def run_case(case):
    res = core.Result()
    if case[0] == "rt1":
        run_rt1(res, *case[1:])
    else:
        run_fit(res, *case[1:])
    res.sample({"case": case_key(case)})
    return res
