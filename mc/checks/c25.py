"""C25: every value that is drawn belongs to the observation, group, date, incidence-angle and unit it is drawn for.

All plots of all enumerated fits are drawn with the real code; the content of the artists (lines, collections, images,
texts) is compared to an independent table of the observations (dates, angles, data, closed-form model).
"""
import itertools

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc import ref
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all combinations of datasets, parameter variabilities (incl. groups that are not contiguous in time), units and models of "
    "the stated lists with all plots and all stated values of their options; phase functions, angles and parameters for the "
    "polar plots and hemispherical reflectances; state = (fit, plot, options); all artists of every figure are compared to a "
    "table of the observations"
)
ASSUMPTIONS = [
    "plots are drawn with a non-interactive backend",
    "the optimiser is replaced by a stand-in (results do not have to be minima)",
    "the interaction term is evaluated with Fits.calc (decided by C08 / C18)",
]
NOTE = "Complete for the listed fits, plots and options."
TIMEOUT = 900

UNITS = [(False, False), (True, False), (False, True), (True, True)]
SIG = "$\\sigma_0$ dataset"
# name: model, dataset, variabilities, manual groups, weights, int_Q
CONF = {
    "single": ("plain", "single", dict(tau="D"), {}, False, False),
    "day": ("plain", "daily", dict(tau="D"), {}, False, False),
    "ragged": ("plain", "ragged", dict(tau="D", t="M"), {}, True, False),
    "one": ("bsf", "ragged", dict(), {}, False, False),
    "within": ("bsf", "intraday", dict(om="D", bsf="M"), {}, True, False),
    "index": ("expr", "intraday", dict(x="index"), {}, False, False),
    "two": ("shared", "unsorted", dict(q="2D", t="M"), {}, False, False),
    "count": ("plain", "long", dict(tau="3", t="M"), {}, False, False),
    "runs": ("plain", "daily", dict(tau="manual"), dict(tau="near"), False, False),
    "interleaved": ("bsf", "long", dict(om="manual", bsf="M"), dict(om="near"), True, False),
    "split": ("bsf", "ragged", dict(om="manual"), dict(om="runs"), False, False),
    "repeat": ("bsf", "repeat", dict(om="2D", bsf="D"), {}, False, False),
    "iq": ("shared", "ragged", dict(q="D"), {}, False, True),
    "iq-runs": ("shared", "long", dict(q="manual"), dict(q="near"), False, True),
}
_FITS = {}


class Table:
    """fit with its (distinct) results, and what has to be shown"""

    def __init__(self, conf, unit):
        model, ds, dyn, manual, weights, iq = CONF[conf] if isinstance(conf, str) else conf
        self.sig0, self.dB = unit
        self.iq = iq
        self.fit, self.df = G.build(model, ds, dyn, sig0=unit[0], dB=unit[1], weights=weights, manual=manual, int_Q=iq)
        with G.capture_optimizer(G.distinct) as calls:
            self.fit.performfit(intermediate_results=True)
            x = np.atleast_1d(calls[0]["x0"])
            for k in range(4):
                calls[0]["fun"](G.distinct(x) * (1 + 0.01 * k)), calls[0]["jac"](G.distinct(x) * (1 - 0.01 * k))
        self.ref = G.Reference(model, self.df, dyn, sig0=unit[0], dB=unit[1])
        f, df = self.fit, self.df
        self.res_dict = {k: np.array(v, float) for k, v in f.res_dict.items()}
        self.p = self.ref.params(self.res_dict)
        m = self.ref.m
        self.inc, self.deg = df.inc.to_numpy(), np.rad2deg(df.inc.to_numpy())
        self.data = df.sig.to_numpy()
        self.dates = df.index
        self.comp = self.components(self.p)
        combos = list(zip(*(self.ref.grp[k] for k in m.fit)))
        seen = {}
        self.g = np.array([seen.setdefault(c, len(seen)) for c in combos])
        self.ng = len(seen)
        self.gdate = [self.mean_date(self.dates[self.g == i]) for i in range(self.ng)]

    def mean_date(self, d):
        return pd.Timestamp(int(np.round(np.mean([int(i.value) - int(d[0].value) for i in d]))) + int(d[0].value))

    def intensity(self, p, inc=None):
        """surface, volume (and interaction) contribution of all rows (or all angles)"""
        inc = self.inc if inc is None else inc
        p = {k: np.broadcast_to(np.asarray(v, float), inc.shape) for k, v in p.items()}
        v, s, tau, om, N, bsf = self.ref.m.fn(p)
        out = list(ref.mono(v, s, inc, tau, om, N, bsf))
        if self.iq:
            r = self.fit.calc({k: p[k] for k in self.ref.m.fit}, inc, fixed_param={k: p[k] for k in self.ref.m.aux})
            i = np.diagonal(r[3])
            i = 10 ** (i / 10) if self.dB else i
            out.append(i / (4 * np.pi * np.cos(inc)) if self.sig0 else i)
        return out

    def components(self, p, unit=None, inc=None):
        """tot, surf, vol(, inter) of all rows"""
        sig0, dB = unit or (self.sig0, self.dB)
        inc = self.inc if inc is None else inc
        parts = self.intensity(p, inc)
        vals = [sum(parts)] + parts
        return dict(zip(("tot", "surf", "vol", "inter"), (ref.to_units(i, inc, sig0, dB) for i in vals)))

    def residuals(self, res_dict):
        w = self.df["data_weights"].to_numpy() if "data_weights" in self.df else 1.0
        return w * (self.components(self.ref.params(res_dict))["tot"] - self.data)

    def data_in(self, unit):
        d = self.data
        if self.dB:
            d = 10 ** (d / 10)
        if self.sig0:
            d = d / (4 * np.pi * np.cos(self.inc))
        return ref.to_units(d, self.inc, *unit)


# ------------------------------------------------------------------ artists
def num(x):
    import matplotlib.dates as md

    return np.asarray(md.date2num(pd.DatetimeIndex(np.atleast_1d(x)).to_pydatetime()), float)


def points(x, y):
    """finite points, sorted"""
    x, y = (np.ma.filled(np.ma.asarray(i).astype(float), np.nan).ravel() for i in (x, y))
    p = np.column_stack([x, y])
    p = p[np.all(np.isfinite(p), axis=1)]
    return p[np.lexsort((np.round(p[:, 1], 9), np.round(p[:, 0], 6)))]


def line(l):  # noqa: E741
    return points(l.get_xdata(orig=False), l.get_ydata(orig=False))


def offsets(c):
    o = np.ma.asarray(c.get_offsets()).reshape(-1, 2)
    return points(o[:, 0], o[:, 1])


def unique(p):
    """without repeated points"""
    if not len(p):
        return p
    keep = np.r_[True, np.any(np.abs(np.diff(p, axis=0)) > 1e-9, axis=1)]
    return p[keep]


def same(a, b, tol=1e-8):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=2e-8)


def match(res, key, what, drawn, wanted):
    """the drawn artists are the wanted ones (as multisets of sets of points)"""
    drawn = [d for d in drawn if len(d)]
    wanted = [w for w in wanted if len(w)]
    left = list(drawn)
    for w in wanted:
        hit = next((i for i, d in enumerate(left) if same(d, w)), None)
        if hit is None:
            near = min(left, key=lambda d: (abs(len(d) - len(w)), np.abs(d[0] - w[0]).sum()), default=None)
            return expect(res, False, f"{key}/{what}", f"{what} is not drawn:\n{w.tolist()}\nclosest:\n{None if near is None else near.tolist()}")
        left.pop(hit)
    return expect(res, not left, f"{key}/{what}", lambda: f"drawn as {what}, but nothing of the kind: {[i.tolist() for i in left]}")


def same_set(res, key, what, got, want):
    return expect(res, same(got, want), f"{key}/{what}", lambda: f"{what}: drawn {got.tolist()} instead of {want.tolist()}")


def color(c):
    import matplotlib.colors as mc

    return mc.to_hex(c)


def is_black(l):  # noqa: E741
    return color(l.get_color()) == "#000000"


def has_line(l):  # noqa: E741
    return l.get_linestyle() not in ("None", "none", " ", "") and l.get_linewidth() > 0


def cat(parts):
    parts = list(parts)
    p = np.concatenate(parts) if parts else np.empty((0, 2))
    return points(p[:, 0], p[:, 1])


# ------------------------------------------------------------------ plots
def p_scatter(t, res, key, opt):
    f = t.fit.plot.scatter(**opt)
    ax = f.axes[0]
    same_set(res, key, "observations", cat(offsets(c) for c in ax.collections), points(t.comp["tot"], t.data))
    texts = [x.get_text() for x in ax.texts]
    if opt.get("regression", True) and len(t.data) > 2:
        a, b = np.polyfit(t.comp["tot"], t.data, 1)
        r2 = np.corrcoef(t.comp["tot"], t.data)[0, 1] ** 2
        reg = [ln for ln in ax.lines if color(ln.get_color()) == color("r")]
        expect(res, len(reg) == 1 and np.allclose(line(reg[0])[:, 1], a * line(reg[0])[:, 0] + b, rtol=1e-5, atol=1e-7), key + "/regression",
               "the line is not the regression line of the drawn points")
        shown = [float(x.split("=")[1].replace("$", "")) for x in texts if "R^2" in x]
        expect(res, len(shown) == 1 and abs(shown[0] - r2) <= 0.00501, key + "/R2", lambda: f"R2={r2} is shown as {texts}")
    if "mima" in opt:
        d = [ln for ln in ax.lines if is_black(ln)]
        expect(res, len(d) == 1 and same(line(d[0]), points(opt["mima"], opt["mima"])), key + "/mima", "45 degree line")
    for lab, q in ((ax.get_xlabel(), "modelled"), (ax.get_ylabel(), "measured")):
        expect(res, q in lab and ("dB" in lab) == t.dB and ("sigma" in lab) == t.sig0, key + "/labels", f"label {lab!r}")


def p_timeseries(t, res, key, opt):
    f = t.fit.plot.fit_timeseries(**opt)
    unit = (opt.get("sig0", True), opt.get("dB", True))
    sel = np.ones(len(t.dates), bool)
    if opt.get("years") is not None:
        sel &= np.isin(t.dates.year, opt["years"])
    if opt.get("months") is not None:
        sel &= np.isin(t.dates.month, opt["months"])
    vals = t.components(t.p, unit)
    vals[SIG] = t.data_in(unit)
    flags = {"tot": "printtot", "surf": "printsurf", "vol": "printvol", "inter": "printint", SIG: "printorig"}
    show = [k for k in vals if opt.get(flags[k], True)]
    ax = f.axes[0]
    got = {ln.get_label(): ln for ln in ax.lines}
    # (an interaction of 0 may be listed as well)
    expect(res, set(got) - {"inter"} == set(show) - {"inter"}, key + "/curves", lambda: f"curves {list(got)} instead of {show}")
    cols = {}
    for k in show:
        if k in got:
            same_set(res, key, f"{k} over time", line(got[k]), points(num(t.dates[sel]), vals[k][sel]))
            expect(res, np.all(np.diff(got[k].get_xdata(orig=False)) >= 0), f"{key}/{k}/order", "curve is not sorted by date")
            cols[color(got[k].get_color())] = k
    if opt.get("printinc", True):
        ai = f.axes[1]
        for k in show:
            c = next((c for c, n in cols.items() if n == k), None)
            pts = [x for x in ai.collections if hasattr(x, "get_offsets") and len(np.ravel(x.get_sizes() if hasattr(x, "get_sizes") else [])) > 0
                   and len(x.get_facecolor()) and color(x.get_facecolor()[0]) == c]
            same_set(res, key, f"{k} over incidence angles", cat(offsets(x) for x in pts), points(t.deg[sel], vals[k][sel]))
            segs = [x for x in ai.collections if type(x).__name__ == "LineCollection" and color(x.get_color()[0]) == c]
            days = t.dates[sel]
            want = [unique(points(t.deg[sel][days == d], vals[k][sel][days == d])) for d in dict.fromkeys(days)]
            match(res, key, f"{k} curves over incidence angles", [unique(points(*np.asarray(s, float).reshape(-1, 2).T)) for x in segs for s in x.get_segments()],
                  [w for w in want if len(w)])
    if opt.get("params"):
        pa = [a for a in f.axes if a.get_ylabel() == "parameter-values"]
        got = {ln.get_label(): line(ln) for a in pa for ln in a.lines}
        expect(res, set(got) == set(opt["params"]), key + "/parameters", lambda: f"{list(got)} instead of {opt['params']}")
        for k in opt["params"]:
            if k in got:
                param_series(t, res, key, k, got[k], sel)
    lab = ax.get_ylabel()
    expect(res, ("dB" in lab) == unit[1] and ("sigma" in lab) == unit[0], key + "/ylabel", f"label {lab!r}")


def param_series(t, res, key, k, got, sel=slice(None)):
    """one value per date (if a date belongs to several groups, one of their values)"""
    want = {}
    for d, v in zip(num(t.dates)[sel], t.p[k][sel]):
        want.setdefault(round(d, 6), []).append(v)
    ok = len(got) == len(want) and all(round(d, 6) in want and np.min(np.abs(np.array(want[round(d, 6)]) - v)) < 1e-9 for d, v in got)
    expect(res, ok, f"{key}/{k}", lambda: f"parameter {k}: drawn {got.tolist()} instead of {want}")


def p_errors(t, res, key, opt):
    f = t.fit.plot.fit_errors(**opt)
    sel = opt.get("result_selection", "all")
    sel = list(range(t.ng)) if isinstance(sel, str) else list(sel)
    err = np.abs(t.comp["tot"] - t.data)
    if opt.get("relative"):
        err = err / t.comp["tot"]
    rows = np.isin(t.g, sel)
    top, low = sorted(f.axes, key=lambda a: -a.get_position().y0)
    mean = np.array([err[t.g == i].mean() for i in sel])
    date = np.array([num(t.gdate[i])[0] for i in sel])
    per_row = np.array([num(t.gdate[i])[0] for i in t.g])
    if np.ptp(num(t.dates)):
        same_set(res, key, "residuals per measurement", cat(line(ln) for ln in low.lines if not has_line(ln)), points(per_row[rows], err[rows]))
        match(res, key, "mean residual per measurement", [line(ln) for ln in low.lines if has_line(ln)],
              [points(date, mean), points(date, np.full(len(sel), mean.mean()))])
    angles = np.unique(t.deg[rows])
    match(res, key, "residuals per incidence angle", [line(ln) for ln in top.lines],
          [points(t.deg[t.g == i], err[t.g == i]) for i in sel] + [points(angles, [err[rows & (t.deg == a)].mean() for a in angles])])
    x0, x1 = top.get_xlim()
    expect(res, x0 <= t.deg.min() and x1 >= t.deg.max(), key + "/xlim", f"limits {x0} {x1} for angles {t.deg}")


def p_results(t, res, key, opt):
    f = t.fit.plot.results(**opt)
    sel = opt.get("result_selection", "all")
    sel = list(range(t.ng)) if isinstance(sel, str) else list(sel)
    top, low = sorted(f.axes, key=lambda a: -a.get_position().y0)
    rows = {i: t.g == i for i in sel}
    match(res, key, "measurements", [line(ln) for ln in top.lines if not has_line(ln)], [points(t.inc[r], t.data[r]) for r in rows.values()])
    curves = [points(t.inc[r], t.comp["tot"][r]) for r in rows.values()]
    if opt.get("startvals"):
        p0 = {k: np.asarray(self_start(t, k)) for k in t.ref.m.fit}
        tot0 = t.components(t.ref.params(p0))["tot"]
        start = [points(t.inc[r], tot0[r]) for r in rows.values()]
        match(res, key, "start values", [unique(line(ln)) for ln in top.lines if has_line(ln) and is_black(ln)], start)
    fitted = [ln for ln in top.lines if has_line(ln) and not is_black(ln)]
    match(res, key, "fitted curves", [unique(line(ln)) for ln in fitted], curves)
    # colors: the measurements of a group have the color of its curve
    for i, r in rows.items():
        a = [color(ln.get_color()) for ln in fitted if same(unique(line(ln)), points(t.inc[r], t.comp["tot"][r]))]
        b = [color(ln.get_color()) for ln in top.lines if not has_line(ln) and same(line(ln), points(t.inc[r], t.data[r]))]
        expect(res, a == b, key + "/colors", lambda: f"measurements of group {i}: color {b}, curve {a}")
    if opt.get("legend"):
        fmt = opt.get("legend_fmt", "%d.%m.%Y %H:%M:%S")
        leg = top.get_legend()
        if expect(res, (leg is not None) == (len(sel) <= 20), key + "/legend", f"legend: {leg}") and leg is not None:
            texts = {(x.get_text(), color(h.get_color())) for x, h in zip(leg.get_texts(), leg.legend_handles)}
            for i, r in rows.items():
                a = [color(ln.get_color()) for ln in fitted if same(unique(line(ln)), points(t.inc[r], t.comp["tot"][r]))]
                name = t.gdate[i].strftime(fmt)
                expect(res, any((name, c) in texts for c in a), key + "/legend-label", lambda: f"group {i} ({name}) color {a}; legend: {texts}")
    got = {ln.get_label(): line(ln) for ln in low.lines}
    expect(res, set(got) == set(t.res_dict), key + "/parameters", lambda: f"{list(got)}")
    for k in got:
        param_series(t, res, key, k, got[k])
    if len(sel) < t.ng:
        want = sorted((str(i), round(float(num(t.gdate[i])[0]), 6)) for i in sel)
        got_t = sorted((x.get_text(), round(float(low.convert_xunits(x.get_position()[0])), 6)) for x in low.texts)
        expect(res, want == got_t, key + "/numbers", lambda: f"numbers at {got_t} instead of {want}")


def self_start(t, k):
    return t.ref.startvals(k)


def p_single(t, res, key, opt):
    opt = dict(opt)
    nums = opt.get("fit_numbers")
    if opt.pop("by", None):
        ix = [t.dates[np.flatnonzero(t.g == i)[0]] for i in nums]
        opt.pop("fit_numbers")
        opt["fit_indexes"] = ix if not opt.pop("text", None) else [str(i) for i in ix]
        # (a date that belongs to several groups identifies any of them)
        nums = [min(set(t.g[t.dates == d])) for d in ix]
    f = t.fit.plot.single_results(**opt)
    ax = f.axes[0]
    nums = [min(1, t.ng - 1)] if nums is None else nums
    conv = (lambda y: 10 * np.log10(y)) if opt.get("convertTodB") else (lambda y: y)
    dots = [ln for ln in ax.lines if not has_line(ln) and ln.get_alpha() != 0.0]
    match(res, key, "measurements", [line(ln) for ln in dots], [points(t.deg[t.g == i], conv(t.data[t.g == i])) for i in nums])
    for c in ("#ffffff", None):
        match(res, key, "fitted curves" + ("" if c is None else " (background)"),
              [line(ln) for ln in ax.lines if has_line(ln) and (color(ln.get_color()) == c if c else color(ln.get_color()) != "#ffffff")],
              [points(t.deg[t.g == i], conv(t.comp["tot"][t.g == i])) for i in nums])
    for i in nums:
        d = t.dates[t.g == i]
        n = len(d)
        u = opt.get("datetime_unit", "h")
        a, b = (np.datetime_as_string(np.datetime64(x), unit=u) for x in (d[0], d[-1]))
        lab = a if n == 1 else (f"{a} [{n}]" if a == b else f"({a} - {b}) [{n}]")
        ok = [ln for ln in dots if ln.get_label() == lab and same(line(ln), points(t.deg[t.g == i], conv(t.data[t.g == i])))]
        expect(res, ok, key + "/label", lambda: f"group {i}: no measurements labelled {lab}: {[ln.get_label() for ln in dots]}")
        if ok:
            c = color(ok[0].get_color())
            expect(res, any(color(ln.get_color()) == c and has_line(ln) and same(line(ln), points(t.deg[t.g == i], conv(t.comp["tot"][t.g == i])))
                            for ln in ax.lines), key + "/color", f"curve of group {i} in another color")


def p_intermediate(t, res, key, opt):
    f = t.fit.plot.intermediate_results(**opt)
    it = t.fit.intermediate_results
    names = opt.get("params") or list(t.res_dict)
    nit = len(it["parameters"])
    vals = [{k: np.asarray(v[k], float) for k in t.res_dict} for v in it["parameters"]]
    ts = [k for k in names if t.ref.n[k] > 1]
    axes = [a for a in f.axes]
    # timeseries of all parameters and iterations
    first = axes[0]
    want = []
    for k in ts:
        d = [num(t.mean_date(t.dates[np.array(t.ref.grp[k]) == i]))[0] for i in range(t.ref.n[k])]
        want += [points(d, v[k]) for v in vals]
    match(res, key, "parameters of all iterations", [line(ln) for ln in first.lines], want)
    # development of the parameters / derivatives
    labelled = [ln for a in axes for ln in a.lines if not str(ln.get_label()).startswith("_")]
    for k in t.res_dict:
        lab = f"{k} (mean)" if k in ts else k
        got = [line(ln) for ln in labelled if ln.get_label() == lab]
        jac = [np.asarray(j[k].todense() if hasattr(j[k], "todense") else j[k]).mean() for j in it["jacobian"]]
        want = [points(np.arange(nit), [v[k].mean() for v in vals]), points(np.arange(len(jac)), jac)]
        if names == list(t.res_dict):
            match(res, key, f"development of {k}", got, want)
    for e, lab in (("abserr", "absolute error"), ("relerr", "relative error")):
        got = [line(ln) for ln in labelled if ln.get_label() == lab]
        r = [t.residuals(v) for v in vals]
        if e == "relerr":
            r = [i / t.data for i in r]
        match(res, key, lab, got, [points(np.arange(nit), [abs(i.mean()) for i in r])])


def p_residuals(t, res, key, opt):
    grp, err, sl = opt.get("grp", "M"), opt.get("err", "relerr"), opt.get("iter_slice", slice(2, None))
    opt = dict(opt, plottype="2D")
    f = t.fit.plot.intermediate_residuals(**opt)
    f = getattr(f, "figure", None) or f
    ax = [a for a in f.axes if a.images][0]
    im = ax.images[0]
    shown = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    r = [t.residuals(v) for v in t.fit.intermediate_results["parameters"]][sl]
    if err == "relerr":
        r = [i / t.data for i in r]
    labels, col = None, None
    fmt = opt.get("fmt", "%d.%m.%y %H:%M:%S")
    if grp == "groups":
        rows, labels = [t.g == i for i in range(t.ng)], [d.strftime(fmt) for d in t.gdate]
    elif grp == "dataset":
        u = t.dates.unique()
        rows, labels = [t.dates == d for d in u], [d.strftime(fmt) for d in u]
    elif isinstance(grp, str):
        per = {"M": "MS", "D": "D"}[grp]
        key_ = t.dates.normalize() if per == "D" else t.dates.to_period("M")
        u = list(dict.fromkeys(key_))
        rows = [key_ == d for d in u]
    else:
        col = t.df[grp[0]].to_numpy() if grp[0] in t.df else t.p[grp[0]]
        n = grp[1]
        if np.isscalar(n):
            e = np.linspace(col.min(), col.max(), n + 1)
            e[0] -= 1e-9
        else:
            e = np.array(n)
        rows = [(col > a) & (col <= b) for a, b in zip(e[:-1], e[1:])]
    want = np.array([[abs(i[m].mean()) if m.any() else np.nan for i in r] for m in rows])
    filled = shown[~np.all(np.isnan(shown), axis=1)]
    w = want[~np.all(np.isnan(want), axis=1)]
    eq = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-12, equal_nan=True)  # noqa: E731
    x0, x1, y0, y1 = im.get_extent()
    h = (y1 - y0) / len(shown)
    if labels is not None:
        # every row of the image carries the label of its group
        form = ax.yaxis.get_major_formatter()
        got = [(form(y0 + h * (j + 0.5)), shown[j]) for j in range(len(shown))]
        exp = list(zip(labels, want))
        ok = len(got) == len(exp) and all(any(a == b and eq(x, y) for b, y in got) for a, x in exp)
        expect(res, ok, key + "/labelled rows", lambda: f"rows of the image {got}\n instead of {exp}")
    elif col is None:
        expect(res, eq(filled, w), key + "/rows", lambda: f"image {filled.tolist()} instead of {w.tolist()}")
    else:
        expect(res, eq(filled, w), key + "/rows", lambda: f"image {filled.tolist()} instead of {w.tolist()}")
        # the rows are drawn at the position of their bin
        pos = [y0 + h * (j + 0.5) for j in range(len(shown)) if not np.all(np.isnan(shown[j]))]
        mid = [0.5 * (a + b) for a, b, m in zip(e[:-1], e[1:], rows) if m.any()]
        expect(res, len(pos) == len(mid) and np.allclose(pos, mid, atol=0.02 * (e[-1] - e[0])), key + "/positions",
               lambda: f"rows are drawn at {pos} instead of {mid}")
    n_it = len(t.fit.intermediate_results["parameters"])
    its = np.arange(1, n_it + 1)[sl]
    width = (x1 - x0) / shown.shape[1]
    expect(res, shown.shape[1] == len(its) and np.allclose([x0 + width * (j + 0.5) for j in range(len(its))], its), key + "/iterations",
           lambda: f"iterations {its} are drawn in {x0}..{x1}")
    if opt.get("colorbar", True):
        lab = " ".join(a.get_ylabel() for a in f.axes)
        expect(res, ("Relative" in lab) == (err == "relerr"), key + "/colorbar", lab)


def options(t, tier):
    """all plots with all options"""
    ng, names = t.ng, list(t.res_dict)
    # (years and months of the data: single ones and pairs, present and absent ones)
    ys, ms = sorted(set(t.dates.year)), sorted(set(t.dates.month))
    for reg, mima in itertools.product((True, False), (None, [0.0, 1.0])):
        if len(t.data) > 2 or not reg:
            yield p_scatter, dict(regression=reg, **({} if mima is None else dict(mima=mima)))
    for sig0, dB in UNITS:
        for inc in (True, False):
            yield p_timeseries, dict(sig0=sig0, dB=dB, printinc=inc, params=names)
    flags = ("printtot", "printsurf", "printvol", "printint", "printorig")
    for k in range(len(flags)):
        yield p_timeseries, {flags[k]: False}
        yield p_timeseries, {i: i == flags[k] for i in flags if i != "printint"}
    for y, m in [([i], None) for i in ys] + [(None, [i]) for i in ms] + [(ys, ms[:1])]:
        yield p_timeseries, dict(years=y, months=m, params=names[:1], sig0=False)
    sels = ["all"] + [list(c) for n in ((1, 2) if tier == "quick" else (1, 2, 3)) for c in itertools.permutations(range(ng), n)]
    for rel, s in itertools.product((False, True), sels[: 8 if tier == "quick" else 60]):
        yield p_errors, dict(relative=rel, result_selection=s)
    for s in sels[: 10 if tier == "quick" else 60]:
        yield p_results, dict(result_selection=s, legend=True)
    yield p_results, dict(startvals=True)
    yield p_results, dict(startvals=True, result_selection=sels[-1], legend=True, legend_fmt="%H:%M %Y-%m-%d")
    yield p_single, dict()
    for s in sels[1 : 12 if tier == "quick" else 60]:
        yield p_single, dict(fit_numbers=s, hexbinQ=False)
        yield p_single, dict(fit_numbers=s, hexbinQ=False, by=True)
    yield p_single, dict(fit_numbers=sels[-1], hexbinQ=False, by=True, text=True, datetime_unit="D")
    yield p_single, dict(fit_numbers=sels[-1], hexbinQ=True, datetime_unit="m")
    if not t.dB:
        yield p_single, dict(fit_numbers=sels[-1], convertTodB=True)
    yield p_intermediate, dict()
    for k in names:
        yield p_intermediate, dict(params=[k])
    nonconst = [k for k in names if t.ref.n[k] > 1]
    for err, sl in itertools.product(("abserr", "relerr"), (slice(2, None), slice(None), slice(0, None, 2))):
        for grp in ["groups", "dataset", "D", "M", ("inc", 3), ("inc", [0.0, 0.2, 0.4, 0.6, 0.8, 1.0, 1.2, 1.4, 1.6])] + [(k, 3) for k in nonconst]:
            if sl.step is None or grp == "groups":
                yield p_residuals, dict(grp=grp, err=err, iter_slice=sl)


# ------------------------------------------------------------------ phase functions and hemispherical reflectances
POLAR = {
    # name: class, kwargs, reference, parameters, number of coefficients
    "Rayleigh": ("volume", dict(tau=0.2, omega=0.2), lambda p: ("Rayleigh",), [{}], 3),
    "HG": ("volume", dict(tau=0.2, omega=0.2, t=0.35, ncoefs=4), lambda p: ("HG", 0.35, ref.A_V), [{}], 4),
    "HG-sym": ("volume", dict(tau=0.2, omega=0.2, t="x", ncoefs=4), lambda p: ("HG", p["x"], ref.A_V), [dict(x=0.2), dict(x=0.6)], 4),
    "HGRay": ("volume", dict(tau=0.2, omega=0.2, t="x", ncoefs=4), lambda p: ("HGRay", p["x"], ref.A_V), [dict(x=0.4)], 4),
    "Iso": ("surface", dict(NormBRDF=0.3), lambda p: ("Iso",), [{}], 1),
    "Cos": ("surface", dict(NormBRDF=0.3, i=2, ncoefs=4), lambda p: ("Cos", 2, ref.A_S), [{}], 4),
    "HGs": ("surface", dict(NormBRDF=0.3, t="y", ncoefs=4), lambda p: ("HGs", p["y"], ref.A_S), [dict(y=0.1), dict(y=0.5)], 4),
    "HGn": ("surface", dict(NormBRDF=0.3, t="y", ncoefs=4, a=[0.9, 1.0, 1.0]), lambda p: ("HGn", p["y"], (0.9, 1.0, 1.0)), [dict(y=0.3)], 4),
}
CLS = {"Rayleigh": "Rayleigh", "HG": "HenyeyGreenstein", "HG-sym": "HenyeyGreenstein", "HGRay": "HGRayleigh", "Iso": "Isotropic",
       "Cos": "CosineLobe", "HGs": "HenyeyGreenstein", "HGn": "HG_nadirnorm"}


def symbol(v):
    import sympy as sp

    if isinstance(v, list) and v and isinstance(v[0], list):
        return np.array(v)
    return sp.sympify(v, locals=dict(n=sp.Symbol("n"), x=sp.Symbol("x"), y=sp.Symbol("y"))) if isinstance(v, str) else v


def _object(name):
    import rt1.surface as su
    import rt1.volume as vo

    kind, kw, r, par, n = POLAR[name]
    kw = {k: symbol(v) for k, v in kw.items()}
    return getattr(vo if kind == "volume" else su, CLS[name])(**kw), kind, r, par, n


def wrap(x):
    return np.round((x + 1e-9) % (2 * np.pi), 6)


def polar(res, key, name, inc, aprox, how, given_ax):
    import matplotlib.pyplot as plt

    from rt1.rtplots import polarplot

    X, kind, r, par, n = _object(name)
    kw = dict(inc=list(inc), aprox=aprox, legend=True)
    if how == "all":
        kw["param_dict"] = par if len(par) > 1 else par[0]
    else:
        kw["param_dict"], par = par[how], [par[how]]
    if given_ax:
        kw["polarax"] = plt.figure().add_subplot(111, projection="polar")
    f = polarplot(X=X, **kw)
    ax = kw.get("polarax") or f.axes[0]
    expect(res, f is ax.figure, key + "/figure", f"returned {f}")
    lines = [ln for ln in ax.lines if len(ln.get_xdata())]
    exact = [ln for ln in lines if ln.get_linestyle() == "-"]
    series = [ln for ln in lines if ln.get_linestyle() != "-"]
    want, wants = [], []
    fun = ref.phase if kind == "volume" else ref.brdf
    for p in par:
        for i in np.deg2rad(inc):
            # the drawn directions are those of the lines
            x = np.asarray(exact[0].get_xdata(), float) if exact else np.arange(0, 2 * np.pi, 0.01)
            z = np.zeros_like(x)
            want.append(points(x, fun(r(p), z + i, x, z, z)))
            wants.append(points(x, ref.series(r(p), n, z + i, x, z, z)))
    match(res, key, "function", [line(ln) for ln in exact], want)
    match(res, key, "approximation", [line(ln) for ln in series], wants if aprox else [])
    lo, hi = (0.0, 6.28) if kind == "volume" else (-1.57, 1.57)
    for ln in exact:
        x = np.asarray(ln.get_xdata(), float)
        expect(res, abs(x.min() - lo) < 0.02 and abs(x.max() - hi) < 0.02 and np.diff(np.sort(x)).max() < 0.05, key + "/range",
               f"directions {x.min()}..{x.max()}")
    # the legend assigns the colors to the angles
    leg = ax.get_legend()
    texts = {x.get_text(): color(h.get_color()) for x, h in zip(leg.get_texts(), leg.legend_handles)}
    for i in inc:
        lab = [c for s, c in texts.items() if f"= {float(np.round(i, 1))}$" in s.replace("${}", "$")]
        for p in par:
            x = np.asarray(exact[0].get_xdata(), float)
            z = np.zeros_like(x)
            w = points(x, fun(r(p), z + np.deg2rad(i), x, z, z))
            c = [color(ln.get_color()) for ln in exact if same(line(ln), w)]
            expect(res, lab and c and lab[0] in c, key + "/legend", lambda: f"angle {i}: legend {texts}, curve {c}")


def hemisphere(spec, t0, n=80):
    """int BRDF cos dOmega by Gauss-Legendre quadrature"""
    x, w = ref._glnodes(np.linspace(0, np.pi / 2, 9), n)
    ph, wp = ref._glnodes(np.linspace(0, 2 * np.pi, 9), 30)
    th = x[:, None]
    return np.sum(w[:, None] * wp * np.sin(th) * np.cos(th) * ref.brdf(spec, t0 + 0 * th, th + 0 * ph, 0.0, ph + 0 * th))


def hem(res, key, name, N, via, grid, out):
    from rt1.rt1 import RT1
    from rt1.rtplots import hemreflect
    from rt1.volume import Rayleigh

    import rt1.surface as su

    kind, kw, r, par, n = POLAR[name]
    obj = getattr(su, CLS[name])(**{k: symbol(v) for k, v in dict(kw, NormBRDF=N).items()})
    for p in par:
        p = dict(p)
        norm = [0.3]
        if isinstance(N, str):
            p.update(n=0.37, x=0.8)
            norm = [float(eval(N, {}, dict(p)))]
        elif not np.isscalar(N):
            norm = list(np.ravel(N))
        else:
            norm = [N]
        lo, hi, step = grid
        angles = np.arange(lo, hi, step)
        kw2 = dict(SRF=obj) if via == "SRF" else dict(R=RT1(1.0, 0.3, 0.3, 0.0, np.pi, V=Rayleigh(tau=0.2, omega=0.2), SRF=obj, int_Q=False))
        g = hemreflect(**kw2, t_0_min=lo, t_0_max=hi, t_0_step=step, simps_N=401, param_dict=p, returnarray=out == "array")
        want = np.array([[m * hemisphere(r(p), np.deg2rad(a)) for a in angles] for m in norm])
        if out == "array":
            got = np.array(g, float).reshape(-1, len(angles))
        else:
            ax = g.axes[0]
            lines = [ln for ln in ax.lines if has_line(ln)]
            got = np.array([ln.get_ydata() for ln in lines], float)
            x = np.array([ln.get_xdata() for ln in lines], float)
            expect(res, x.shape == want.shape and np.allclose(x, angles), key + "/angles", lambda: f"{x} instead of {angles}")
            expect(res, ax.get_ylim()[1] >= want.max() * 0.99, key + "/ylim", lambda: f"{ax.get_ylim()} for {want}")
        ok = got.shape == want.shape and np.allclose(got, want, rtol=2e-3, atol=1e-5)
        expect(res, ok, key, lambda: f"parameters {p}: {got.tolist()} instead of {want.tolist()}")


def phase_cases(tier):
    incs = [[15.0], [15.0, 35.0, 55.0, 75.0]] + ([[0.0, 89.0], [5.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0]] if tier == "thorough" else [])
    for name in POLAR:
        for inc, ap, ax in itertools.product(incs, (True, False), (False, True)):
            for how in ["all"] + list(range(len(POLAR[name][3]))):
                yield ["polar", name, inc, ap, how, ax]
    for name in POLAR:
        if POLAR[name][0] == "surface":
            grids = [(0.0, 90.0, 30.0), (10.0, 31.0, 10.0)]
            for N, via, g, o in itertools.product([0.3, "n", "0.5*n", "n*x", [[0.2], [0.4]]], ("SRF", "R"), grids, ("array", "figure")):
                if not (via == "R" and not isinstance(N, (float, str))):
                    yield ["hem", name, N, via, g, o]


# ------------------------------------------------------------------
PLOTS = ["scatter", "timeseries", "errors", "results", "single", "intermediate", "residuals"]


def cases(tier, seed):
    out = []
    for c in CONF:
        units = UNITS if tier == "thorough" else [UNITS[(list(CONF).index(c) * 2 + j) % 4] for j in (0, 1)]
        for u in units:
            for p in PLOTS:
                out.append(["fit", c, list(u), p, tier])
    ph = list(phase_cases(tier))
    out += [["phase", ph[i : i + 24]] for i in range(0, len(ph), 24)]
    return out


def case_key(c):
    return "/".join(map(str, c[1:4])) if c[0] == "fit" else "phase"


def run_case(case):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    G.memo_lambdify()
    res = core.Result()
    if case[0] == "phase":
        for c in case[1]:
            key = "/".join(map(str, c))
            try:
                (polar if c[0] == "polar" else hem)(res, key, *c[1:])
            except Exception as e:  # noqa: BLE001
                res.violation(key + "/error", core.exc_text(e))
            plt.close("all")
            res.evaluations += 1
            res.transitions += 1
            res.traces += 1
            res.state(c)
        res.sample(case[1][0])
        return res
    _, conf, unit, what, tier = case
    if (conf, tuple(unit)) not in _FITS:
        _FITS[conf, tuple(unit)] = Table(conf, tuple(unit))
    t = _FITS[conf, tuple(unit)]
    for fn, opt in options(t, tier):
        if fn.__name__ != "p_" + what:
            continue
        key = f"{conf}/{'sig0' if unit[0] else 'I'}{'-dB' if unit[1] else ''}/{what}/{opt}"
        try:
            fn(t, res, key, opt)
        except Exception as e:  # noqa: BLE001
            res.violation(key + "/error", core.exc_text(e))
        plt.close("all")
        res.evaluations += 1
        res.transitions += 1
        res.traces += 1
        res.state(key)
    res.sample({"fit": conf, "unit": unit, "plot": what})
    return res
