"""C09: a fit always answers according to its current settings, and fits do not influence each other.

The real Fits objects are driven through every sequence of operations up to a depth; at the end of every sequence all
derived quantities of every object are compared to those of a new object that was created with the final settings (the
snapshots of the new objects are taken before the sequence starts, since creating an object clears the shared caches).
"""
import copy
import itertools
import pickle

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc import ref as R_
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all sequences of operations (assign dataset / parameter definitions / scattering functions / units / interaction "
    "setting, read groups of derived quantities, evaluate, fit, change definitions in place and fit, create, copy and "
    "re-initialise objects) up to the stated depth on two coexisting fits with warm caches; state = (settings of every "
    "object, last operations); every sequence is one trace that is executed on the real objects"
)
ASSUMPTIONS = [
    "the optimiser is replaced by a stand-in (results do not have to be minima)",
    "changes made inside a definition container take effect with the next fit; assignments take effect at once",
    "datasets are replaced, not modified in place",
]
NOTE = "Complete for the stated operations up to the stated depth; more than two objects only in the eviction scenario."
TIMEOUT = 900

# ------------------------------------------------------------------ alphabet of settings
V, S = G.V, G.S


def _call(tau, omega, N, t, **kw):
    from rt1.surface import HG_nadirnorm
    from rt1.volume import HGRayleigh

    return HGRayleigh(tau=tau, omega=omega, t=t, ncoefs=2), HG_nadirnorm(NormBRDF=N, t=0.2, ncoefs=2)


VS = [
    dict(V_props=V("Rayleigh", tau="tau", omega="omega"), SRF_props=S("HG_nadirnorm", NormBRDF="N", t="t", ncoefs=2)),
    dict(V_props=V("HenyeyGreenstein", tau="tau*0.5 + 0.1*N", omega="omega", t=0.3, ncoefs=2),
         SRF_props=S("CosineLobe", NormBRDF="N", i=2, ncoefs=2)),
    _call,
]
B01 = ([0.001], [1.5])
DD = [
    dict(tau=[True, 0.3, "D", B01], omega=[False, 0.25], N=[False, "auxiliary"], t=[True, 0.2, None, B01], bsf=[False, 0.1]),
    dict(tau=[False, 0.4], omega=[True, 0.3, "index", B01], N=[True, 0.4, None, B01], t=[False, "auxiliary"], bsf=[False, 0.1]),
    dict(t=[True, 0.1, 2, B01], tau=[True, "auxiliary", "manual", B01, True], N=[False, 0.3], omega=[False, "auxiliary"],
         bsf=[True, 0.1, None, B01]),
    # the same names and fitted parameters as the first one, but other fixed value / order
    dict(t=[True, 0.2, None, B01], tau=[True, 0.3, "D", B01], N=[False, "auxiliary"], omega=[False, 0.45], bsf=[False, 0.3]),
]


def make_ds(k):
    df = G.dataset(["ragged", "intraday", "unsorted"][k], weights=k == 1, manual={"tau": "runs"}, start=("tau",),
                   aux=("N", "t", "omega"))
    df["sig"] *= 1 + 0.1 * k
    return df


DS = [make_ds(k) for k in range(3)]
ALL = ("param_dyn_dict", "param_dyn_df", "index", "inc", "mask", "data", "data_weights", "meandatetimes",
       "meandatetimes_group", "fixed_dict", "interp_vals")


def new(s):
    from rt1.rtfits import Fits

    ds, dd, vs, sig0, dB, iq = s
    return Fits(sig0=sig0, dB=dB, dataset=DS[ds], defdict=DD[dd], set_V_SRF=VS[vs], int_Q=iq, verbose=0)


# ------------------------------------------------------------------ observation
def freeze(x):
    if isinstance(x, dict):
        return {str(k): freeze(v) for k, v in x.items()}
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return [list(map(str, x.columns)) if isinstance(x, pd.DataFrame) else None, [str(i) for i in x.index],
                np.array(x, dtype=float)]
    if isinstance(x, np.ma.MaskedArray):
        x = x.filled(np.nan)
    if isinstance(x, (list, tuple)) and len(x) and not np.isscalar(x[0]):
        return [freeze(i) for i in x]
    a = np.asarray(x)
    if a.dtype.kind in "iufb":
        return a.astype(float)
    return [str(i) for i in np.ravel(a)]


def differs(a, b):
    """a, b frozen -> path of the first difference or None"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return f": {a} != {b}"
        for k in a:
            d = differs(a[k], b[k])
            if d:
                return f".{k}{d}"
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind or not np.allclose(a, b, rtol=1e-10, atol=1e-14, equal_nan=True):
            return f": {a} != {b}"
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f": {a} != {b}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y)
            if d:
                return f"[{i}]{d}"
        return None
    return None if a == b else f": {a} != {b}"


def values(fit):
    """distinct values of the fitted parameters"""
    n = fit.param_dyn_df.nunique()
    fitted = [k for k, v in fit.defdict.items() if v[0]]
    return {k: list(0.15 + 0.02 * i + 0.05 * ((1 + np.arange(n[k])) * 0.618 % 1.0)) for i, k in enumerate(sorted(fitted))}


def read_grouping(fit):
    return [freeze(getattr(fit, k)) for k in ALL]


def read_model(fit):
    x = values(fit)
    m = fit.calc_model(res_dict=x, return_components=True)
    order = np.argsort(np.asarray(m["tot"]))
    p = {k: v[0] for k, v in x.items()}
    aux = {k: 0.2 for k, v in fit.defdict.items() if not v[0] and isinstance(v[1], str)}
    c = fit.calc(p, np.array([[0.2, 0.9]]), fixed_param=aux)
    return [freeze(np.asarray(m)[order]), [str(i) for i in m.index], freeze(np.asarray(c, float))]


def read_metric(fit):
    """metrics of the results (nothing if there are no results)"""
    if not hasattr(fit, "res_dict"):
        return None
    m = fit.metric.sig.tot
    return [float(m.rmsd), float(m.pearson)]


def read_fit(fit):
    with G.capture_optimizer(G.distinct) as calls:
        fit.performfit()
    c = calls[0]
    x = G.distinct(np.atleast_1d(np.asarray(c["x0"], float)))
    J = c["jac"](x.copy())
    J = np.asarray(J.todense() if hasattr(J, "todense") else J)
    f = np.asarray(c["fun"](x.copy()))
    o = np.argsort(f)
    return [freeze(np.asarray(c["x0"], float)), [freeze(np.asarray(b, float)) for b in c["bounds"]], f[o], J[o],
            freeze({k: np.asarray(v) for k, v in fit.res_dict.items()}), freeze(fit.res_df), freeze(fit.calc_model()),
            hasattr(fit, "intermediate_results")]


def snapshot(fit, what=("grouping", "model", "fit", "metric")):
    f = dict(grouping=read_grouping, model=read_model, metric=read_metric, fit=read_fit)
    return {w: f[w](fit) for w in what}


_REF = {}


def reference(s):
    if s not in _REF:
        _REF[s] = snapshot(new(s))
    return _REF[s]


def same_results(fit, r):
    return hasattr(fit, "res_dict") and differs(freeze({k: np.asarray(v) for k, v in fit.res_dict.items()}), r["fit"][4]) is None


# ------------------------------------------------------------------ operations
class World:
    """the real objects together with their settings"""

    def __init__(self, settings):
        self.set = [list(s) for s in settings]
        self.fit = [new(s) for s in settings]
        self.performed = [False] * len(settings)

    def assign(self, i, pos, val):
        self.set[i][pos] = val
        f = self.fit[i]
        if pos == 0:
            f.dataset = DS[val]
        elif pos == 1:
            f.defdict = copy.deepcopy(DD[val])
        elif pos == 2:
            f.set_V_SRF = VS[val]
        elif pos == 3:
            f.sig0 = val
        elif pos == 4:
            f.dB = val
        elif pos == 5:
            f.int_Q = val

    def do(self, op):
        i, name, *a = op
        f = self.fit[i]
        if name == "set":
            self.assign(i, *a)
        elif name == "flip":
            self.assign(i, a[0], not self.set[i][a[0]])
        elif name == "grouping":
            read_grouping(f)
        elif name == "model":
            read_model(f)
        elif name == "metric":
            try:
                read_metric(f)
            except Exception:  # noqa: BLE001  (results of other definitions)
                pass
        elif name == "jac":
            f._calc_jac(res_dict=values(f)) if hasattr(f, "_calc_jac") else None
        elif name == "fit":
            with G.capture_optimizer(G.distinct):
                f.performfit()
        elif name == "fit+":
            with G.capture_optimizer(G.distinct) as c:
                f.performfit(intermediate_results=True)
                x = np.atleast_1d(c[0]["x0"])
                c[0]["fun"](x), c[0]["jac"](x)
        elif name == "inplace":
            # change the definitions into other ones by the interface of the container, and fit
            d = DD[a[0]]
            for k in list(f.defdict.keys()):
                f.defdict.remove_variable(k)
            for k, v in d.items():
                setattr(f.defdict, k, copy.deepcopy(v))
            with G.capture_optimizer(G.distinct):
                f.performfit()
            self.set[i][1] = a[0]
        elif name == "inplace-val":
            # change single values in place, and fit
            for k, v in DD[a[0]].items():
                f.defdict[k].val = v[1]
            with G.capture_optimizer(G.distinct):
                f.performfit()
            # (only between definitions that differ in values)
            self.set[i][1] = a[0]
        elif name == "share-defdict":
            # use the definitions of the other fit, which are changed later on
            j = 1 - i
            f.defdict = self.fit[j].defdict
            self.set[i][1] = self.set[j][1]
            k = next(iter(self.fit[j].defdict.keys()))
            self.fit[j].defdict[k].freq = "index"
            self.fit[j].defdict[k].val = 0.77
            self.fit[j].defdict = DD[self.set[j][1]]
        elif name == "reinit":
            # a new object that differs in one setting
            pos, val = a
            key = ["dataset", "defdict", "set_V_SRF", "sig0", "dB", "int_Q"][pos]
            self.fit[i] = f.reinit_object(**{key: [DS, DD, VS][pos][val] if pos < 3 else val})
            self.set[i][pos] = val
        elif name == "reinit-other":
            # a re-initialised object is changed, the original one is kept
            g = f.reinit_object()
            g.dataset = DS[(self.set[i][0] + 1) % 3]
            g.defdict = DD[(self.set[i][1] + 1) % 4]
            g.set_V_SRF = VS[(self.set[i][2] + 1) % 3]
            g.lsq_kwargs["max_nfev"] = 1
            read_model(g)
        elif name == "pickle":
            import cloudpickle

            self.fit[i] = pickle.loads(cloudpickle.dumps(f))
        elif name == "clear":
            f._clear_cache() if hasattr(f, "_clear_cache") else None
        else:
            raise KeyError(name)


SETTERS = [(0, "set", p, v) for p, n in ((0, 3), (1, 4), (2, 3)) for v in range(n)] + [(0, "flip", 3), (0, "flip", 4)]
READS = [(0, r) for r in ("grouping", "model", "metric", "jac", "fit", "fit+")]
OTHER = [(1, "set", 0, 2), (1, "set", 1, 2), (1, "set", 2, 1), (1, "flip", 4), (1, "model"), (1, "fit")]
MISC = [(0, "inplace", 2), (0, "inplace", 1), (0, "share-defdict"), (1, "share-defdict"), (0, "reinit", 1, 2),
        (0, "reinit", 0, 2), (0, "reinit", 2, 1), (0, "reinit-other"), (0, "pickle")]
FULL = SETTERS + READS + OTHER + MISC
CORE = [(0, "set", 0, 1), (0, "set", 1, 1), (0, "set", 1, 3), (0, "set", 2, 1), (0, "flip", 3), (0, "model"), (0, "fit"),
        (1, "set", 1, 1), (1, "model")]
IQ = [(0, "set", 1, 1), (0, "set", 1, 3), (0, "set", 1, 0), (0, "set", 2, 1), (0, "set", 2, 2), (0, "flip", 5), (0, "model"),
      (0, "inplace", 3), (0, "reinit", 1, 3), (0, "share-defdict"), (1, "set", 2, 1)]
START = {
    "same": ((0, 0, 0, False, False, False), (0, 0, 0, False, False, False)),
    "other": ((0, 0, 0, False, True, False), (1, 1, 1, True, False, False)),
    "iq": ((0, 0, 0, False, False, True), (0, 3, 0, False, False, True)),
}


def cases(tier, seed):
    out = []
    if tier == "quick":
        for op in FULL:
            out.append(["other", "FULL", [op], 2])
        for op in CORE:
            out.append(["same", "CORE", [op], 3])
        for op in IQ:
            out.append(["iq", "IQ", [op], 2])
    else:
        for st in ("same", "other"):
            for op in FULL:
                out.append([st, "FULL", [op], 2])
        for op, op2 in itertools.product(FULL, repeat=2):
            out.append(["other", "FULL", [op, op2], 3])
        for op, op2 in itertools.product(CORE, repeat=2):
            out.append(["same", "CORE", [op, op2], 4])
        for op, op2 in itertools.product(IQ, repeat=2):
            out.append(["iq", "IQ", [op, op2], 3])
    out.append(["many", 131 if tier == "quick" else 300])
    return out


def case_key(c):
    return f"{c[0]}/{c[1]}/{c[2] if len(c) > 2 else ''}"


def reach(start, ops):
    """settings after the operations (pure)"""
    s = [list(x) for x in start]
    for i, name, *a in ops:
        if name in ("set", "reinit"):
            s[i][a[0]] = a[1]
        elif name == "flip":
            s[i][a[0]] = not s[i][a[0]]
        elif name in ("inplace", "inplace-val"):
            s[i][1] = a[0]
        elif name == "share-defdict":
            s[i][1] = s[1 - i][1]
    return [tuple(x) for x in s]


def run_case(case):
    G.memo_lambdify()
    res = core.Result()
    if case[0] == "many":
        return many(res, case[1])
    st, alpha, first, depth = case
    first = [tuple(o) for o in first]
    start = START[st]
    ops = dict(FULL=FULL, CORE=CORE, IQ=IQ)[alpha]
    for k in range(len(first), depth + 1):
        if k == len(first) and len(first) > 1:
            continue
        for rest in itertools.product(ops, repeat=k - len(first)):
            seq = first + list(rest)
            final = reach(start, seq)
            refs = [reference(s) for s in final]  # (before the sequence)
            w = World(start)
            for f in w.fit:  # warm caches
                snapshot(f)
            key = f"{st}/" + ";".join(" ".join(map(str, o)) for o in seq)
            try:
                for op in seq:
                    w.do(op)
                    res.transitions += 1
            except Exception as e:  # noqa: BLE001
                res.violation(key + "/error", core.exc_text(e))
                continue
            for i, (f, r) in enumerate(zip(w.fit, refs)):
                what = ["grouping", "model", "fit", "metric"]
                if same_results(f, r):  # metrics of the results at hand
                    what.insert(2, "metric")
                for q in what:
                    try:
                        d = differs(snapshot(f, (q,))[q], r[q])
                    except Exception as e:  # noqa: BLE001
                        d = core.exc_text(e)
                    expect(res, d is None, f"{key}/fit{i}/{q}", lambda: f"fit {i} {tuple(w.set[i])}{d}"[:1500])
            res.traces += 1
            res.evaluations += 1
            res.state((final, seq[-2:]))
            if len(res.violations) > 8:
                return res
    res.sample({"start": st, "sequence": [list(map(str, o)) for o in (first + [ops[0]])]})
    return res


def many(res, n):
    """more fits than the caches can hold"""
    sets = [(i % 3, (i // 3) % 4, (i // 2) % 3, i % 2 == 0, i % 5 < 2, False) for i in range(n)]
    refs = [reference(s) for s in sets]
    fits = [new(s) for s in sets]
    orders = [range(n), range(n), reversed(range(n)), [(7 * i) % n for i in range(n)] if n % 7 else range(n)]
    for p, order in enumerate(orders):
        for i in order:
            for q in ("grouping", "model") if p % 2 == 0 else ("model", "metric"):
                if q == "metric" and not hasattr(fits[i], "res_dict"):
                    read_fit(fits[i])
                d = differs(snapshot(fits[i], (q,))[q], refs[i][q])
                expect(res, d is None, f"many/{p}/{q}", lambda: f"fit {i} {sets[i]}{d}"[:1000])
                res.transitions += 1
    res.traces += 1
    res.evaluations += n
    for s in sets:
        res.state(("many", s))
    return res
