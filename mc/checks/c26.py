"""C26: what an interactive figure displays depends on the state of its widgets only (never on the history).

The widgets of real figures (printsig0analysis, analyzemodel) are operated (mouse events on sliders, buttons, text boxes, zoom).  A walk
takes every operation in every reachable state; after each step, the displayed content is compared to that of an independent model
of the current state.
"""
import itertools
from collections import deque

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc import ref
from mc.checks import c25 as P
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "state = (position of all sliders, toggled buttons, boundaries, zoomed window); all operations (mouse events on the sliders incl. "
    "both ends, buttons, text boxes, zoom windows incl. empty ones) in all reachable states, taken in one walk on one real figure, so "
    "that every transition is taken with a history; the lines, fillings, labels and collections are compared after each step"
)
ASSUMPTIONS = [
    "the canvas is not rendered (the data of the artists is compared)",
    "the optimiser is replaced by a stand-in",
    "the interaction term is evaluated with Fits.calc (decided by C08 / C18)",
]
NOTE = (
    "Every operation in every state of the widgets of the listed fits and options; walks that were cut (two sliders with many "
    "measurements) are counted in the evidence."
)
TIMEOUT = 900

CONF = dict(
    P.CONF,
    text=("plain", "intraday", dict(tau="manual"), dict(tau="text"), False, False),
    both=("bsf", "long", dict(om="manual", bsf="2D"), dict(om="near"), False, False),
)
QUICK_SKIP = ("single", "day", "ragged", "within", "count", "both", "iq", "split")
_T = {}


def table(conf, unit):
    if (conf, unit) not in _T:
        _T[conf, unit] = P.Table(CONF[conf], unit)
    return _T[conf, unit]


def walk(m, res, key, limit):
    """every operation in every reachable state"""
    graph = {}
    n = 0
    while n < limit:
        s = m.state()
        graph.setdefault(s, {})
        # shortest way to a state in which something was not done so far
        prev, todo, goal = {s: None}, deque([s]), None
        while todo and goal is None:
            c = todo.popleft()
            if c not in graph or len(graph[c]) < len(m.ops()):
                goal = c
                break
            for op, d in graph[c].items():
                if d not in prev:
                    prev[d] = (c, op)
                    todo.append(d)
        if goal is None:
            break
        way = []
        while prev[goal] is not None:
            goal, op = prev[goal]
            way.append(op)
        if way:
            op = way[-1]
        else:
            op = next(o for o in m.ops() if o not in graph[s])
        m.hist.append(op)
        try:
            m.do(op)
            t = m.state()
            graph[s][op] = t
            before = len(res.violations)
            m.check(res, key)
        except Exception as e:  # noqa: BLE001
            res.violation(key + "/error", f"after {m.hist[-4:]}: {core.exc_text(e)}")
            return len(graph), n, False
        n += 1
        if len(res.violations) > before:
            res.violations[before:] = [(k, f"after {m.hist[-4:]} ({len(m.hist)} operations): {v}") for k, v in res.violations[before:]]
            return len(graph), n, False
    return len(graph), n, n < limit


def quiet(f):
    f.canvas.draw_idle = lambda *a, **k: None


def press(f, ax, x):
    """click at the position x of a horizontal slider"""
    from matplotlib.backend_bases import MouseEvent

    px, py = ax.transAxes.transform((0.5, 0.5))
    px = ax.transData.transform((x, 0.5))[0]
    x0, x1 = ax.transAxes.transform((0, 0))[0], ax.transAxes.transform((1, 0))[0]
    px = min(max(px, x0 + 0.5), x1 - 0.5)
    for name in ("button_press_event", "button_release_event"):
        f.canvas.callbacks.process(name, MouseEvent(name, f.canvas, px, py, 1))


# ------------------------------------------------------------------ sliders of the measurements
class Sig0:
    def __init__(self, t, opt):
        import matplotlib.pyplot as plt

        self.t, self.opt, self.hist = t, opt, []
        self.unit = (opt.get("sig0", True), opt.get("dB", True))
        r = t.fit.plot.printsig0analysis(**opt)
        self.f, self.sliders = r[0], list(r[1:])
        quiet(self.f)
        self.ranges = [opt.get("range1", 1)] + ([opt["range2"]] if opt.get("range2") is not None else [])
        self.comps = [opt.get("printcomponents1", True), opt.get("printcomponents2", True)]
        self.ax, self.ax1, self.ax2 = self.f.axes[:3]
        self.dataset = opt.get("use_index") == "dataset"
        if self.dataset:
            self.keys = [d for d in t.dates.unique()]
            self.rows = [t.dates == d for d in self.keys]
            self.orders = [list(range(len(self.keys)))]
        else:
            self.keys = t.gdate
            self.rows = [t.g == i for i in range(t.ng)]
            # (groups with the same date may be shown in any order)
            o = sorted(range(t.ng), key=lambda i: t.gdate[i])
            blocks = [list(b) for _, b in itertools.groupby(o, key=lambda i: t.gdate[i])]
            self.orders = [sum(map(list, c), []) for c in itertools.product(*(itertools.permutations(b) for b in blocks))]
        self.n = len(self.keys)
        d = sorted(P.num(k)[0] for k in self.keys)
        self.windows = [(d[0] - 30, d[-1] + 30), (d[0] - 0.1, d[0] + 0.1), (d[-1] - 0.1, d[-1] + 1), (d[-1] + 5, d[-1] + 9)]
        if self.n > 2:
            self.windows.append((d[1] - 0.01, d[-2] + 0.01))
        self.window = None
        self.lo, self.hi = 0, self.n - 1
        self.dates = d
        val, dat = t.components(t.p, self.unit), t.data_in(self.unit)
        self.val = [{k: P.points(t.deg[r], v[r]) for k, v in dict(val, data=dat).items()} for r in self.rows]
        par = t.intensity(t.p)
        self.frac = [{k: P.points(t.deg[r], (v / sum(par))[r]) for k, v in zip(("surf", "vol", "inter"), par)} for r in self.rows]
        self.full = [self.full_curves(r) for r in self.rows] if opt.get("printfullt_0", True) else [[({}, {})]] * self.n
        plt.close(self.f)

    def full_curves(self, rows):
        """possible full-range curves (dates in several groups show one of them)"""
        t, out = self.t, []
        inc = np.deg2rad(np.arange(1, 89))
        i = np.flatnonzero(rows)
        for a, b in itertools.product(i, i if self.dataset else i[:1]):
            p = {k: t.p[k][a] for k in t.ref.m.fit}
            p.update(t.ref.m.fixed)
            p.update({k: t.p[k][b] if self.dataset else t.p[k][i].mean() for k in t.ref.m.aux})
            c = t.components(p, self.unit, inc)
            par = t.intensity(p, inc)
            deg = np.rad2deg(inc)
            new = ({k: P.points(deg, v) for k, v in c.items()}, {k: P.points(deg, v / sum(par)) for k, v in zip(("surf", "vol", "inter"), par)})
            if not any(P.same(new[0]["tot"], o[0]["tot"]) for o in out):
                out.append(new)
        return out

    def state(self):
        return tuple(s.val for s in self.sliders) + (self.window,)

    def ops(self):
        out = [(j, v) for j in range(len(self.sliders)) for v in range(-1, self.n + 1)]
        return out + [("zoom", w) for w in range(len(self.windows))]

    def do(self, op):
        a, v = op
        if a == "zoom":
            self.window = v
            w = self.windows[v]
            self.ax2.set_xlim(*w)
            inside = [i for i, d in enumerate(self.dates) if w[0] < d < w[1]]
            if inside:
                self.lo, self.hi = inside[0], inside[-1]
            self.asked = None
        else:
            press(self.f, self.sliders[a].ax, v)
            self.asked = (a, v)

    def check(self, res, key):
        for s in self.sliders:
            if not expect(res, s.val in range(self.n), key + "/slider", f"the slider is at {s.val}, there are {self.n} measurements"):
                return
        if self.asked and self.lo <= self.asked[1] <= self.hi:
            s = self.sliders[self.asked[0]]
            expect(res, s.val == self.asked[1], key + "/slider", f"a click at {self.asked[1]} moves the slider to {s.val}")
        good, first = [], None
        for o in self.orders:
            r = core.Result()
            self.compare(r, key, o)
            if not r.violations:
                good.append(o)
            first = first or r
        if good:
            self.orders = good
        else:
            res.violations += first.violations

    def compare(self, res, key, order):
        drawn = {}
        for axn, ax in (("ax", self.ax), ("frac", self.ax1)):
            for ln in ax.lines:
                if ln.get_alpha() == 0.5 and ln.get_marker() == ".":
                    drawn.setdefault((axn, "background"), []).append(P.line(ln))
                    continue
                drawn.setdefault((axn, P.color(ln.get_color()), bool(ln.is_dashed())), []).append(P.line(ln))
        want = {}
        add = lambda axn, c, dash, what, data: want.setdefault((axn, P.color(c), dash), []).append(data)  # noqa: E731
        bg = []
        for j, (s, n) in enumerate(zip(self.sliders, self.ranges)):
            v = int(s.val)
            sel = [order[i] for i in range(v, min(v + n, self.n))]
            kd, dash = ("k", "r")[j], bool(j)
            for i in sel:
                full = self.full[i][0]
                if len(self.full[i]) > 1:
                    d = drawn.get(("ax", P.color(kd), dash), [])
                    full = next((x for x in self.full[i] if any(P.same(x[0]["tot"], y) for y in d)), full)
                for c, src in ((self.val[i], True), (full[0], False)):
                    for k, col in (("tot", kd), ("surf", "y"), ("vol", "g"), ("inter", "c"), ("data", kd)):
                        if k in c and (self.comps[j] or k in ("tot", "data")):
                            add("ax", col, dash and not (k == "data"), k, c[k])
                for c in (self.frac[i], full[1]):
                    for k, col in (("surf", "y"), ("vol", "g"), ("inter", "c")):
                        if k in c:
                            add("frac", col, dash, k, c[k])
            label = [x.get_text() for x in s.ax.texts if "20" in x.get_text()]
            d = [pd.Timestamp(self.keys[i]).strftime("%d. %b %Y %H:%M") for i in sel]
            text = d[0] if n == 1 else f"{d[0]} - {d[-1]}"
            expect(res, label == [text], key + "/label", lambda: f"label {label} instead of {text}")
            ind = [ln for ln in self.ax2.lines if P.color(ln.get_color()) == P.color(("k", "gray")[j]) and len(ln.get_xdata())]
            got = sorted({round(float(x), 6) for ln in ind for x in np.ravel(ln.get_xdata(orig=False))})
            exp = sorted({round(float(P.num(self.keys[i])[0]), 6) for i in sel})
            expect(res, got == exp, key + "/indicator", lambda: f"dates {got} are indicated instead of {exp}")
        if self.opt.get("printfulldata", True):
            dat = [x["data"] for x in self.val]
            P.same_set(res, key, "all measurements", P.cat(drawn.pop(("ax", "background"), [])), P.cat(dat))
        # (contributions that are exactly 0 have no value in dB and may be left out)
        for d in (drawn, want):
            for k in d:
                if k[0] == "frac":
                    d[k] = [x[x[:, 1] != 0] for x in d[k] if np.any(x[:, 1] != 0)]
        for k in set(drawn) | set(want):
            P.match(res, key, "/".join(map(str, k)), drawn.get(k, []), want.get(k, []))
        for ax in self.f.axes[3 + len(self.sliders) :] + [self.ax2]:
            for ln in ax.lines:
                lab = ln.get_label()
                if lab in self.t.res_dict:
                    P.param_series(self.t, res, key, lab, P.line(ln))
                elif lab in self.t.df:
                    P.same_set(res, key, lab, P.line(ln), P.points(P.num(self.t.dates), self.t.df[lab]))
        names = self.opt.get("printparamnames") or list(self.t.res_dict)
        got = [ln.get_label() for ax in self.f.axes for ln in ax.lines if ln.get_label() in names]
        expect(res, sorted(got) == sorted(names), key + "/parameters", lambda: f"parameters {got} instead of {names}")


# ------------------------------------------------------------------ ranges of the parameters
class Model:
    def __init__(self, t, opt, keys, edges):
        import matplotlib.pyplot as plt

        self.t, self.hist, self.keys, self.edges = t, [], keys, edges
        self.labels = opt.get("labels") or {}
        self.unit = (opt.get("sig0", True), opt.get("dB", True))
        self.fillc = opt.get("fillcomponents", True)
        self.inc = np.array(opt["inc"]) if "inc" in opt else np.deg2rad(np.linspace(1, 89, 100))
        opt = dict(opt)
        if "inc" in opt:
            opt["inc"] = self.inc
        m = t.ref.m
        lim = {k: (v[1], v[2]) for k, v in m.fit.items()}
        lim.update({k: (t.df[k].min(), t.df[k].max()) for k in m.aux})
        if opt.pop("defdict", False):
            dd = {k: list(v) for k, v in t.fit.defdict.items()}
            for k in m.fit:
                lo, hi = lim[k]
                lim[k] = (lo + 0.1 * (hi - lo), hi - 0.2 * (hi - lo))
                dd[k] = dd[k][:3] + [([lim[k][0]], [lim[k][1]])] + dd[k][4:]
            opt["defdict"] = dd
        self.lim = {k: list(v) for k, v in lim.items()}
        self.val = {k: t.res_dict[k][0] for k in m.fit}
        self.val.update({k: t.df[k].mean() for k in m.aux})
        self.names = [k for k in t.fit.defdict if k in lim]
        self.on = {k: False for k in self.names}
        self.show = False
        self.f, self.sliders, self.boxes = t.fit.plot.analyzemodel(**opt)
        quiet(self.f)
        self.ax = self.f.axes[0]
        # all dates with the possible curves
        self.curves = []
        for d in t.dates.unique():
            i = np.flatnonzero(t.dates == d)
            c = []
            for a in i:
                p = {k: t.p[k][a] for k in m.fit}
                p.update(m.fixed)
                p.update({k: t.p[k][i].mean() for k in m.aux})
                new = P.points(self.inc, t.components(p, self.unit, self.inc)["tot"])
                if not any(P.same(new, o) for o in c):
                    c.append(new)
            self.curves.append(c)
        self.texts = {}
        for k in keys:
            lo, hi = self.lim[k]
            self.texts[k, 0] = [lo + 0.25 * (hi - lo), lo]
            self.texts[k, 1] = [hi - 0.25 * (hi - lo), hi]
        plt.close(self.f)

    def state(self):
        return tuple(round(self.val[k], 9) for k in self.keys) + tuple(self.on[k] for k in self.keys) + (self.show,) + tuple(
            round(x, 9) for k in self.edges for x in self.lim[k[0]])

    def ops(self):
        out = []
        for k in self.keys:
            out += [("set", k, 0.0), ("set", k, 0.6), ("toggle", k)]
        out.append(("toggle", None))
        for k, e in self.edges:
            out += [("edge", k, e, 0), ("edge", k, e, 1)]
        return out

    def do(self, op):
        if op[0] == "set":
            k = op[1]
            lo, hi = self.lim[k]
            self.val[k] = lo + op[2] * (hi - lo)
            self.sliders[k].set_val(self.val[k])
        elif op[0] == "toggle":
            b = self.boxes["buttons"]
            b.set_active(len(self.names) if op[1] is None else self.names.index(op[1]))
            if op[1] is None:
                self.show = not self.show
            else:
                self.on[op[1]] = not self.on[op[1]]
        else:
            _, k, e, i = op
            v = self.texts[k, e][i]
            self.boxes[k + ("_min", "_max")[e]].set_val(str(v))
            if self.changed.get((k, e)) != v:
                self.lim[k][e] = v
            self.changed[k, e] = v

    changed = {}

    def at(self, **kw):
        p = dict(self.t.ref.m.fixed)
        p.update(self.val)
        p.update(kw)
        for k, v in kw.items():
            if k == "bsf" and v == 1:
                p[k] = 0.999
        return self.t.components(p, self.unit, self.inc)

    def name(self, k):
        return self.labels.get(k, k)

    def check(self, res, key):
        from matplotlib.collections import LineCollection, PolyCollection

        t, ax = self.t, self.ax
        for k in self.names:
            v = self.sliders[k]
            expect(res, abs(v.val - self.val[k]) < 1e-9, key + "/slider", lambda: f"{k}: {v.val} instead of {self.val[k]}")
            expect(res, np.allclose([v.valmin, v.valmax], self.lim[k]), key + "/limits", lambda: f"{k}: {v.valmin, v.valmax} instead of {self.lim[k]}")
            expect(res, v.label.get_text() == self.name(k), key + "/names", lambda: f"{k}: {v.label.get_text()}")
            c = P.color(v.label.get_bbox_patch().get_facecolor())
            expect(res, (c != "#ffffff") == self.on[k], key + "/marked", lambda: f"{k}: {c}, toggled: {self.on[k]}")
        b = self.boxes["buttons"]
        expect(res, list(b.get_status()) == [self.on[k] for k in self.names] + [self.show], key + "/buttons", lambda: f"{b.get_status()}")
        expect(res, [x.get_text() for x in b.labels][:-1] == [self.name(k) for k in self.names], key + "/buttons", "labels of the buttons")
        cur = self.at()
        data = [ln for ln in ax.lines if not P.has_line(ln)]
        P.same_set(res, key, "measurements", P.cat(P.line(ln) for ln in data), P.points(t.inc, t.data_in(self.unit)))
        drawn = {str(ln.get_label()).split()[0]: P.line(ln) for ln in ax.lines if P.has_line(ln)}
        for k, n in (("tot", "total"), ("surf", "surface"), ("vol", "volume"), ("inter", "interaction")):
            if k in cur:
                P.same_set(res, key, k, drawn.get(n, np.empty((0, 2))), P.points(self.inc, cur[k]))
        fills, texts = [], []
        for k in self.names:
            if self.on[k]:
                lo, hi = (self.at(**{k: self.lim[k][e]}) for e in (0, 1))
                for c, lab in (("tot", "total"), ("surf", "surf"), ("vol", "vol"), ("inter", "int")):
                    if c in lo and (c == "tot" or self.fillc):
                        fills.append(P.unique(P.cat(P.points(self.inc, x[c]) for x in (lo, hi) if np.all(np.isfinite(np.r_[lo[c], hi[c]])))))
                        texts.append(f"{lab} variability ({self.name(k)})")
        got = [P.unique(P.cat(P.points(*p.vertices.T) for p in c.get_paths())) for c in ax.collections if isinstance(c, PolyCollection)]
        P.match(res, key, "fillings", got, fills)
        leg = ax.get_legend()
        leg = sorted(x.get_text() for x in leg.get_texts() if "variability" in x.get_text()) if leg is not None else []
        expect(res, leg == sorted(texts), key + "/legend", lambda: f"legend {leg} instead of {sorted(texts)}")
        lcs = [c for c in ax.collections if isinstance(c, LineCollection)]
        expect(res, len(lcs) == int(self.show), key + "/indicated", lambda: f"{len(lcs)} collections of results, toggled: {self.show}")
        if self.show and lcs:
            segs = [P.points(*np.asarray(s, float).T) for s in lcs[0].get_segments()]
            ok = len(segs) == len(self.curves) and all(any(P.same(s, o) for o in c for s in segs) for c in self.curves)
            expect(res, ok, key + "/indicated curves", "the indicated curves are not those of the results")


# ------------------------------------------------------------------
def sig0_cases(tier):
    units = P.UNITS
    for i, c in enumerate(CONF):
        for j, index in enumerate(("groups", "dataset")):
            for n, (r1, r2) in enumerate([(1, None), (1, 1), (2, None), (2, 3)]):
                if tier == "quick" and (i + j + n) % 2:
                    continue
                k = i + j + n
                opt = dict(range1=r1, range2=r2, use_index=index, sig0=units[k % 4][0], dB=units[k % 4][1], printcomponents1=k % 3 != 0,
                           printcomponents2=k % 2 == 0, printfullt_0=(k // 2) % 2 == 0, printfulldata=k % 4 != 1)
                yield ["sig0", c, list(units[(k // 2 + j) % 4]), opt]


def model_cases(tier):
    units = P.UNITS
    for i, c in enumerate(CONF):
        m = G.MODELS[CONF[c][0]]
        names = list(m.fit) + list(m.aux)
        pairs = list(itertools.combinations(names, 2))
        for j, ks in enumerate(pairs):
            if tier == "quick" and (j != i % len(pairs) or c in QUICK_SKIP):
                continue
            k = i + j
            opt = dict(sig0=units[k % 4][0], dB=units[k % 4][1], fillcomponents=k % 3 != 1, defdict=k % 2 == 1)
            if k % 3:
                opt["inc"] = [0.1, 0.4, 0.7, 1.0, 1.3]
            if k % 4 == 1:
                opt["labels"] = {ks[0]: "first name", "other": ks[1]}
            elif k % 4 == 2:
                opt["labels"] = {ks[0]: ks[1], ks[1]: ks[0]}
            edges = [[ks[0], k % 2]] if tier == "quick" else [[ks[0], 0], [ks[0], 1]]
            yield ["model", c, list(units[(k // 3) % 4]), opt, list(ks), edges]


def cases(tier, seed):
    return [[*c, tier] for c in list(sig0_cases(tier)) + list(model_cases(tier))]


def case_key(c):
    return "/".join(map(str, c[:4]))


def run_case(case):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    G.memo_lambdify()
    res = core.Result()
    kind, conf, unit, opt = case[:4]
    tier = case[-1]
    key = f"{kind}/{conf}/{unit}/{opt}"
    t = table(conf, tuple(unit))
    try:
        if kind == "sig0":
            m = Sig0(t, opt)
            m.asked = None
        else:
            m = Model(t, opt, case[4], [tuple(e) for e in case[5]])
            m.changed = {}
        m.check(res, key + "/initial")
    except Exception as e:  # noqa: BLE001
        res.violation(key + "/error", core.exc_text(e))
        plt.close("all")
        return res
    states = n = 0
    if not res.violations:
        states, n, complete = walk(m, res, key, (500 if kind == "sig0" else 1700) if tier == "quick" else 12000)
        res.count("complete walks" if complete else "walks cut at the limit of operations")
    plt.close("all")
    res.evaluations = res.transitions = n
    res.traces = 1
    for s in range(states):
        res.state((key, s))
    res.sample({"figure": kind, "fit": conf, "options": opt, "states": states, "transitions": n})
    return res
