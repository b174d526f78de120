"""C19: performance metrics equal their definitions."""
import itertools

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every pair of series of length 2-4 over a small alphabet for every metric (values, symmetry, identical series), and "
    "for fits over every dataset shape (repeated dates, unsorted, name collisions between dataset and results) every metric "
    "for every ordered pair of available series against the textbook definition applied to the series aligned by date, "
    "re-evaluated after the fit changed; distinct = distinct (metric, pair)"
)
NOTE = "Complete for the stated series and datasets; series with missing values are not included."
TIMEOUT = 600
ALPHA = [-2.0, -0.5, 1.0, 3.25]
SYM = ["pearson", "spearman", "rmsd", "ub_rmsd", "mae"]


def cases(tier, seed):
    out = [["direct", list(a), tier] for a in itertools.product(ALPHA, repeat=2)]
    for ds in G.DATASETS:
        for m in G.MODELS:
            out.append(["fit", ds, m, tier])
    return out


def case_key(c):
    return "/".join(map(str, c[:-1]))


def rank(x):
    x = np.asarray(x)
    return np.array([np.sum(x < v) + (np.sum(x == v) + 1) / 2.0 for v in x])


def pear(a, b):
    a, b = a - a.mean(), b - b.mean()
    den = np.sqrt(np.sum(a * a) * np.sum(b * b))
    if den < 1e-13 * max(1.0, np.abs(a).max(), np.abs(b).max()) or len(a) < 2:
        return np.nan
    return float(np.sum(a * b) / den)


def textbook(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    n = len(a)
    d = a - b
    with np.errstate(all="ignore"):
        out = dict(pearson=pear(a, b), spearman=pear(rank(a), rank(b)), rmsd=np.sqrt(np.mean(d**2)),
                   ub_rmsd=np.sqrt(np.mean(((a - a.mean()) - (b - b.mean())) ** 2)), bias=a.mean() - b.mean(),
                   mae=np.mean(np.abs(d)), mape=np.mean(np.abs(d / a)) if np.all(a != 0) else np.nan)
        sa, sb = (np.sqrt(np.sum((x - x.mean()) ** 2) / (n - 1)) if n > 1 else np.nan for x in (a, b))
        out["std_ratio"] = sa / sb if sb > 1e-13 * max(1, np.abs(b).max()) else np.nan
        sxx = np.sum((a - a.mean()) ** 2)
        if n > 1 and sxx > 1e-13:
            slope = np.sum((a - a.mean()) * (b - b.mean())) / sxx
            out["linregress"] = dict(slope=slope, intercept=b.mean() - slope * a.mean(), rvalue=out["pearson"])
        else:
            out["linregress"] = None
    return out


def judge(res, got, a, b, key):
    """got: name -> value"""
    want = textbook(a, b)
    for m, w in want.items():
        g = got[m]
        if m == "linregress":
            if w is None:
                continue  # not defined
            good = g is not None and all(
                np.isclose(g[k], w[k], rtol=1e-6, atol=1e-9) for k in w if np.isfinite(w[k]))
        elif not np.isfinite(w):
            continue  # not defined
        else:
            good = np.isclose(g, w, rtol=1e-6, atol=1e-9)
        if not expect(res, good, f"{key}/{m}", lambda: f"{m}({list(a)}, {list(b)}) = {g} instead of {w}"):
            return
        res.evaluations += 1


def flat(d):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v)
        elif isinstance(v, (float, int)):
            yield k, v


def shown(res, key, a, b, got, table=None, plot=None, names=None):
    """printed tables and scatter plots show the values of the metrics and series"""
    import contextlib
    import io

    want = sorted((k, float(v)) for k, v in flat(got))
    if table is not None:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            table()
        rows = [r.split("|") for r in out.getvalue().splitlines()[2:] if r.strip()]
        rows = sorted((r[0].strip(" -"), float(r[1])) for r in rows if len(r) > 1 and r[1].strip())
        good = [r[0] for r in rows] == [w[0] for w in want] and np.allclose(
            [r[1] for r in rows], [w[1] for w in want], rtol=1e-6, atol=0.51e-6, equal_nan=True)
        expect(res, good, key + "/table", lambda: f"printed {rows} instead of {want}")
        res.evaluations += 1
    if plot is not None:
        import matplotlib.pyplot as plt

        fig = plot()
        ax, at = fig.axes[:2]
        pts = np.array(sorted(map(tuple, np.concatenate([np.asarray(c.get_offsets()) for c in ax.collections]))))
        exp = np.array(sorted(zip(map(float, a), map(float, b))))
        expect(res, pts.shape == exp.shape and np.allclose(pts, exp), key + "/points", lambda: f"points {pts.tolist()} instead of {exp.tolist()}")
        if names:
            expect(res, (ax.get_xlabel(), ax.get_ylabel()) == names, key + "/labels", f"{ax.get_xlabel()} {ax.get_ylabel()}")
        w = textbook(a, b)["linregress"]
        if w is not None and np.isfinite(w["slope"]):
            x = np.array([min(a), max(a)], float)
            lines = [(c, np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.lines for c in [ln.get_color()]]
            y = w["intercept"] + w["slope"] * x
            expect(res, any(np.allclose(lx, x) and np.allclose(ly, y, atol=1e-7) for c, lx, ly in lines if c == "k"), key + "/regression",
                   lambda: f"no line {x} {y}: {lines}")
            n = len(a)
            if n > 2:
                aa, bb = np.asarray(a, float), np.asarray(b, float)
                sse = np.sum((bb - w["intercept"] - w["slope"] * aa) ** 2)
                err = np.sqrt(max(sse, 0) / (n - 2) / np.sum((aa - aa.mean()) ** 2))
                mid = x.mean()
                for s in (w["slope"] + err, w["slope"] - err):
                    y = w["intercept"] + w["slope"] * mid + s * (x - mid)
                    expect(res, any(np.allclose(lx, x) and np.allclose(ly, y, atol=1e-6) for c, lx, ly in lines if c == "r"),
                           key + "/slope-error", lambda: f"no line {x} {y}: {lines}")
        cells = at.tables[0].get_celld()
        rows = {}
        for (i, j), c in cells.items():
            rows.setdefault(i, {})[j] = c.get_text().get_text()
        rows = sorted((r[-1].strip(" -"), r[0]) for i, r in rows.items() if -1 in r and r.get(0, "").strip())
        exp = sorted((k, "%1.3f" % v) for k, v in want)
        expect(res, [r[0] for r in rows] == [e[0] for e in exp] and all(r[1] == e[1] or abs(float(r[1]) - float(e[1])) < 0.00101 for r, e in zip(rows, exp)),
               key + "/plot-table", lambda: f"{rows} instead of {exp}")
        plt.close(fig)
        res.evaluations += 1


def run_direct(res, first, tier):
    from rt1.rtmetrics import RTmetrics

    names = [m for m in RTmetrics.metrics_registry]
    expect(res, set(names) >= {"pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio"},
           "registry", f"registry {names}")
    lens = [2, 3, 4] if tier == "quick" else [2, 3, 4, 5]
    for n in lens:
        tails = list(itertools.product(ALPHA, repeat=n - 2))
        firsts = [tuple(first) + t for t in tails]
        seconds = list(itertools.product(ALPHA, repeat=n))
        idx = pd.date_range("2020-01-01", periods=n)
        for i, (a, b) in enumerate(itertools.product(firsts, seconds)):
            if n >= 4 and i % (23 if tier == "quick" or n > 4 else 1) != 5:
                if tier == "quick" or n > 4:
                    continue
            A, B = pd.Series(a, idx, name="x"), pd.Series(b, idx, name="y")
            got = RTmetrics.allmetrics(A, B)
            if i % 7 == 0:
                judge(res, {m: getattr(RTmetrics, m)(A, B) for m in names}, a, b, f"single/{a}/{b}")
            expect(res, set(got) == set(names), "allmetrics", f"allmetrics: {[*got]}")
            key = f"direct/{a}/{b}"
            judge(res, got, a, b, key)
            res.state((a, b))
            for m in SYM:
                x, y = got[m], getattr(RTmetrics, m)(B, A)
                expect(res, np.isclose(x, y, equal_nan=True, atol=1e-12), f"{key}/{m}/symmetric", f"{m}: {x} != {y}")
            if i % 11 == 3:
                plot = (lambda: RTmetrics.scatterplot(A, B, "first", "second")) if i % 121 == 3 and len(set(a)) > 1 else None
                shown(res, key, a, b, got, lambda: RTmetrics.metrics_table(A, B), plot, ("first", "second"))
            if a == b:
                expect(res, got["rmsd"] == 0 and got["mae"] == 0 and got["bias"] == 0, key + "/identical", str(got))
            if len(res.violations) > 4:
                return


def aligned(f, s1, k1, s2, k2, series):
    a, b = series[s1][k1], series[s2][k2]
    if len(a) == len(b) and s1 != "res_df" and s2 != "res_df":
        return a.to_numpy(), b.to_numpy()
    # the (unique) dates of the results: every observation with the value of its date
    if s1 == "res_df" and s2 == "res_df":
        d = a.index
        return a.loc[d].to_numpy(), b.loc[d].to_numpy()
    if s1 == "res_df":
        return a.loc[b.index].to_numpy(), b.to_numpy()
    return a.to_numpy(), b.loc[a.index].to_numpy()


def run_fit(res, ds, model, tier):
    p1, p2 = [*G.MODELS[model].fit][:2]
    part = [*G.DATASETS].index(ds) + [*G.MODELS].index(model)
    for j, (dyn, int_Q) in enumerate((({p1: "2D", p2: "D"}, False), ({p1: 2, p2: None}, True), ({p1: "manual", p2: None}, False),
                                      ({p1: "manual", p2: "D"}, True))):
        if tier == "quick" and (part + j) % 2 and ds != "unsorted":
            continue
        manual = {k: [*G.MANUAL][0] for k, v in dyn.items() if v == "manual"}
        fit, df = G.build(model, ds, dyn, int_Q=int_Q, manual=manual)
        for k in manual:  # (one group for each date, the groups are not sorted in time)
            df[k + "_dyn"] = df.groupby(df.index)[k + "_dyn"].transform("first")
            fit.dataset = df
        assert fit.dataset.index.is_monotonic_increasing
        with G.capture_optimizer(G.distinct):
            fit.performfit()
        # further columns, one with the name of a fitted parameter, one with the name of a model contribution
        extra = fit.dataset.copy()
        n = len(extra)
        extra["extra"] = 0.3 + 0.21 * np.arange(n) % 0.7
        extra[p1] = 0.4 - 0.013 * np.arange(n)
        extra["surf"] = 0.2 + 0.017 * np.arange(n)
        for step in range(3):
            if step == 1:  # further columns
                fit.dataset = extra
            if step == 2:  # the results changed
                with G.capture_optimizer(lambda x0, b: G.distinct(x0) + 0.01 * np.arange(x0.size)):
                    fit.performfit()
            comp = fit.calc_model(return_components=True)
            # (the model is sorted by the groups of the fit)
            if not manual and step == 0:
                expect(res, list(comp.index) == list(fit.dataset.index), f"{ds}/{model}/order",
                       "the modelled series have other dates than the dataset")
            comp = comp.sort_index(kind="stable")
            if not expect(res, list(comp.index) == list(fit.dataset.index), f"{ds}/{model}/dates",
                          "the modelled series have other dates than the dataset"):
                return
            series = dict(dataset=fit.dataset, calc_model=comp.assign(tot=fit.calc_model()["tot"].sort_index(kind="stable").to_numpy()),
                          res_df=fit.res_df)
            num = list(fit.dataset.select_dtypes(include="number"))
            cols = [("dataset", c) for c in num] + [("calc_model", c) for c in comp] + [("res_df", c) for c in fit.res_df]
            count = {}
            for s, c in cols:
                count[c] = count.get(c, 0) + 1
            M = fit.metric
            pairs = 0
            for (s1, c1), (s2, c2) in itertools.permutations(cols, 2):
                k1 = c1 if count[c1] == 1 else f"{c1}__{s1}"
                k2 = c2 if count[c2] == 1 else f"{c2}__{s2}"
                key = f"fit/{ds}/{model}/{dyn}/{step}/{k1}/{k2}"
                try:
                    got = getattr(getattr(M, k1), k2).allmetrics
                    a, b = aligned(fit, s1, c1, s2, c2, series)
                except Exception as e:  # noqa: BLE001
                    res.violation(key + "/error", core.exc_text(e))
                    if len(res.violations) > 4:
                        return
                    continue
                if np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
                    judge(res, got, a, b, key)
                    pairs += 1
                    single = getattr(getattr(fit.metric, k1), k2)
                    if tier != "quick" or pairs % 8 == step:
                        judge(res, {m: getattr(single, m) for m in got}, a, b, key + "/single")
                    if pairs in (1, 12) and dyn[p2] is None:
                        shown(res, key, a, b, got, lambda: single.metrics_table, single.scatterplot if len(set(a)) > 1 else None)
                res.state((ds, model, str(dyn), step, k1, k2))
                if len(res.violations) > 4:
                    return


def run_case(case):
    import matplotlib

    matplotlib.use("Agg")
    res = core.Result()
    if case[0] == "direct":
        run_direct(res, *case[1:])
    else:
        run_fit(res, *case[1:])
    res.sample({"case": case_key(case)})
    return res
