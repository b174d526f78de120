"""C18: conversions between the four units of backscatter are consistent everywhere."""
import itertools

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc import ref
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "all 16 conversions between (dB, sig0) and (dB', sig0') for scalars, arrays, masked arrays and Series over a grid of "
    "values (8 decades) x incidence angles, their inverses and all 4^3 / 4^4 closed chains of conversions; fits of every "
    "model x dataset given in each of the four units: start of the fit (residuals of a perfect dataset vanish), modelled "
    "values, components, slope and curvature, evaluation at new angles and the plotted timeseries in all four target units; "
    "distinct = distinct (conversion, value) / (fit, unit, quantity)"
)
NOTE = "Complete for the stated grids, models and datasets."
TIMEOUT = 600
UNITS = [(False, False), (False, True), (True, False), (True, True)]  # dB, sig0
VAL = [1e-6, 0.0004, 0.03, 0.25, 1.0, 2.5, 40.0, 900.0]
INC = [0.0, 0.1, 0.7, 1.0, 1.35, 1.55]


def cases(tier, seed):
    out = [["direct", i, tier] for i in range(4)]
    for ds in G.DATASETS:
        for m in G.MODELS:
            if tier == "quick" and ds == "unsorted" and m not in ("plain", "lin"):
                continue
            out.append(["fit", ds, m, tier])
    return out


def case_key(c):
    return "/".join(map(str, c[:-1]))


def conv(lin, inc, u):
    return ref.to_units(lin, inc, u[1], u[0])


def run_direct(res, i, tier):
    from rt1.general_functions import dBsig0convert

    u = UNITS[i]
    v, a = (x.ravel() for x in np.meshgrid(VAL, INC, indexing="ij"))
    idx = pd.date_range("2020-01-01", periods=v.size)
    with np.errstate(all="ignore"):
        start = conv(v, a, u)

        def to(val, inc, w, frm):
            return dBsig0convert(val, inc, w[0], w[1], frm[0], frm[1])

        for w in UNITS:
            want = conv(v, a, w)
            key = f"{u}->{w}"
            for kind, val, inc in (("array", start.copy(), a.copy()), ("2D", start.reshape(len(VAL), -1), a.reshape(len(VAL), -1)),
                                   ("series", pd.Series(start, idx), a), ("series2", pd.Series(start, idx), pd.Series(a, idx)),
                                   ("masked", np.ma.masked_array(start, np.arange(v.size) % 3 == 1), a)):
                before = np.array(val, copy=True), np.array(inc, copy=True)
                got = to(val, inc, w, u)
                g = np.ma.getdata(got) if kind == "masked" else np.asarray(got)
                m = ~np.ma.getmaskarray(got) if kind == "masked" else np.ones(g.shape, bool)
                expect(res, g.shape == np.shape(val) and np.allclose(g[m], want.reshape(g.shape)[m], rtol=1e-11, atol=1e-13),
                       f"{key}/{kind}", lambda: f"{g} instead of {want}")
                if kind == "masked":
                    expect(res, list(~m) == list(np.arange(v.size) % 3 == 1), f"{key}/mask", "the mask changed")
                if kind.startswith("series"):
                    expect(res, list(got.index) == list(idx), f"{key}/{kind}/index", "the index changed")
                expect(res, np.array_equal(before[0], np.asarray(val)) and np.array_equal(before[1], np.asarray(inc)),
                       f"{key}/{kind}/inplace", "the input was changed")
                back = to(got, inc, u, w)
                expect(res, np.allclose(np.asarray(back)[m], before[0][m], rtol=1e-11, atol=1e-13), f"{key}/{kind}/inverse",
                       lambda: f"{back} instead of {val}")
                res.evaluations += v.size
            for x, t, b in zip(start, a, want):
                got = to(float(x), float(t), w, u)
                expect(res, np.isclose(got, b, rtol=1e-11, atol=1e-13), f"{key}/{x}@{t}", lambda: f"{got} instead of {b}")
                res.state((key, round(float(x), 9), t))
        depth = 4 if tier == "quick" else 5
        for n in range(2, depth + 1):
            for chain in itertools.product(UNITS, repeat=n - 1):
                cur, val = u, start
                for w in (*chain, u):
                    val = to(val, a, w, cur)
                    cur = w
                expect(res, np.allclose(val, start, rtol=1e-10, atol=1e-12), f"cycle/{u}/{chain}", lambda: f"{val} instead of {start}")
                res.transitions += n
                res.state((u, chain))
        for w in UNITS:
            got = to(np.array([]), np.array([]), w, u)
            expect(res, np.shape(got) == (0,), f"{u}->{w}/empty", str(got))


def run_fit(res, ds, model, tier):
    import matplotlib.pyplot as plt

    p1, p2 = [*G.MODELS[model].fit][:2]
    dyns = [{p1: "2D", p2: "D"}, {p1: 2}] if tier == "quick" else [{p1: "2D", p2: "D"}, {p1: 2}, {}, {p2: "index"}]
    for di, (dyn, int_Q) in enumerate(itertools.product(dyns, (False, True))):
        out = {}
        for u in UNITS:
            fit, df = G.build(model, ds, dyn, sig0=u[1], dB=u[0], int_Q=int_Q)
            key = f"fit/{ds}/{model}/{dyn}/{int_Q}/dB={u[0]},sig0={u[1]}"
            inc = df.inc.to_numpy()
            expect(res, np.allclose(fit.dataset.sig, df.sig), key + "/dataset", "the dataset was changed")
            with G.capture_optimizer(G.distinct):
                fit.performfit()
            R = G.Reference(model, df, dyn, sig0=u[1], dB=u[0])
            rd = {k: np.asarray(v, float) for k, v in fit.res_dict.items()}
            comp = fit.calc_model(return_components=True)
            q = {c: comp[c].to_numpy(float) for c in comp}
            q["only_tot"] = fit.calc_model()["tot"].to_numpy(float)
            back = {k: np.power(10.0, v / 10.0) if u[0] else v for k, v in q.items()}
            if u[1]:
                back = {k: v / (4 * np.pi * np.cos(inc)) for k, v in back.items()}
            if not int_Q:
                want = ref.to_units(10 ** (R.model(rd) / 10) if u[0] else R.model(rd), inc, False, False)
                want = want / (4 * np.pi * np.cos(inc)) if u[1] else want
                expect(res, np.allclose(back["tot"], want, rtol=1e-8), key + "/model", lambda: f"{back['tot']} instead of {want}")
            out[u] = (rd, back, fit, df)
            # new angles for every date
            first = {k: v[:1] for k, v in rd.items()}
            fixed = {k: np.atleast_1d(np.asarray(v, float).ravel()[0]) for k, v in fit.fixed_dict.items()}
            new = np.array([0.15, 0.6, 1.1])
            with np.errstate(all="ignore"):
                c = np.array(np.broadcast_arrays(*np.asarray(fit.calc(dict(first), new, fixed_param=dict(fixed)), float)))
            c = 10 ** (c / 10) if u[0] else c
            c = c / (4 * np.pi * np.cos(new)) if u[1] else c
            back["calc"] = c
            # a dataset generated by the model itself has vanishing residuals
            if di < 2 or tier != "quick":
                perfect = fit.dataset.copy()
                perfect["sig"] = q["only_tot"]
                f2 = fit.reinit_object(dataset=perfect)
                try:
                    with G.capture_optimizer(lambda x0, b: G.distinct(x0)) as calls:
                        f2.performfit()
                    x = np.asarray(G.distinct(np.asarray(calls[0]["x0"], float)))
                    r = calls[0]["fun"](x)
                    expect(res, np.allclose(r, 0, atol=1e-9), key + "/perfect", lambda: f"residuals {r} of a perfect fit")
                except Exception as e:  # noqa: BLE001
                    res.violation(key + "/perfect/error", core.exc_text(e))
            # the timeseries plotted in any unit
            if di == 0 or tier != "quick":
                for w in UNITS:
                    try:
                        f = fit.plot.fit_timeseries(dB=w[0], sig0=w[1])
                    except Exception as e:  # noqa: BLE001
                        res.violation(f"{key}/plot{w}/error", core.exc_text(e))
                        continue
                    lines = {ln.get_label(): np.asarray(ln.get_ydata(), float) for ln in f.axes[0].get_lines()}
                    plt.close(f)
                    with np.errstate(all="ignore"):
                        want = {k: conv(back[k], inc, w) for k in comp}
                    want["$\\sigma_0$ dataset"] = conv(G.dataset(ds, aux=G.MODELS[model].aux).sort_index(kind="stable").sig.to_numpy(), inc, w)
                    expect(res, set(lines) == set(want), f"{key}/plot{w}/names", str(list(lines)))
                    for k in set(lines) & set(want):
                        expect(res, G.same_multiset(lines[k], want[k], 1e-7), f"{key}/plot{w}/{k}",
                               lambda: f"plotted {lines[k]} instead of {want[k]}")
            res.evaluations += len(df)
            res.state(key)
            if len(res.violations) > 4:
                return
        rd0, b0, _, _ = out[UNITS[0]]
        for u in UNITS[1:]:
            rd, b, _, _ = out[u]
            key = f"fit/{ds}/{model}/{dyn}/{int_Q}/dB={u[0]},sig0={u[1]}"
            expect(res, set(rd) == set(rd0) and all(np.allclose(rd[k], rd0[k]) for k in rd0), key + "/values",
                   "the parameters differ from the fit in linear intensity")
            expect(res, set(b) == set(b0), key + "/names", f"{set(b)} instead of {set(b0)}")
            for k in set(b) & set(b0):
                good = b[k].shape == b0[k].shape and np.allclose(b[k], b0[k], rtol=1e-8, atol=1e-14, equal_nan=True)
                expect(res, good, f"{key}/{k}", lambda: f"{k}: {b[k]} instead of {b0[k]} (fit in linear intensity)")
        # slope and curvature per unit (by differences of the evaluated model)
        if not int_Q and (tier != "quick" or di == 2):
            for u in UNITS:
                rd, b, fit, df = out[u]
                key = f"fit/{ds}/{model}/{dyn}/{int_Q}/dB={u[0]},sig0={u[1]}"
                slope(res, fit, df, u, key, rd)


def slope(res, fit, df, u, key, rd):
    inc0 = fit.dataset.inc.copy()
    if not hasattr(fit, "_calc_slope_curv"):
        return  # (not part of the public interface)
    got = fit._calc_slope_curv()
    got = [np.asarray(got[k], float) for k in ("slope", "curv")]
    h = 1e-4
    vals = []
    for s in (-h, 0.0, h):
        d = df.copy()
        d["inc"] = inc0 + s
        f = fit.reinit_object(dataset=d)
        f.res_dict = fit.res_dict
        vals.append(np.asarray(f._calc_model(R=f.R, res_dict=f.res_dict, fixed_dict=f.fixed_dict), float))
    num = (vals[2] - vals[0]) / (2 * h), (vals[2] - 2 * vals[1] + vals[0]) / h**2
    m = ~fit.mask
    for name, g, n, tol in (("slope", got[0], num[0], 1e-5), ("curvature", got[1], num[1], 1e-3)):
        g, n = np.broadcast_arrays(g, n)
        expect(res, np.allclose(g[m], n[m], rtol=tol, atol=tol), f"{key}/{name}", lambda: f"{name} {g[m]} instead of {n[m]}")


def run_case(case):
    res = core.Result()
    if case[0] == "direct":
        run_direct(res, *case[1:])
    else:
        run_fit(res, *case[1:])
    res.sample({"case": case_key(case)})
    return res
