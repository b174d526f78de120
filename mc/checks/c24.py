"""C24: plotting and reading a fit never changes it.

Explicit-state exploration: the state is the complete content of the real fit object (all attributes, recursively, including
the attached model); the transitions are all plots (with the callbacks of their sliders, buttons and text-boxes), summaries
and read operations.  Every state that is reachable within the depth must be indistinguishable from the initial one.
"""
import contextlib
import copy
import io
import itertools

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.checks import c09 as S
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all sequences of plot / summary / read operations up to the stated depth on fits with different variabilities, units, "
    "scattering functions and interaction setting; states = complete recursive content of the fit object (identical states "
    "are explored once, except for the first configuration where all pairs are executed); after each sequence all that can be "
    "observed is compared to the initial state"
)
ASSUMPTIONS = [
    "plots are drawn with a non-interactive backend; interaction = all values of buttons, three positions of each slider and "
    "changed boundaries",
    "the optimiser is replaced by a stand-in",
]
NOTE = "Complete for the listed operations up to the stated depth."
TIMEOUT = 900

CONF = {
    "day": (0, 0, 0, False, True, False),
    "index": (1, 1, 1, True, False, False),
    "manual": (2, 2, 2, True, True, False),
    "iq": (0, 0, 0, False, False, True),
    "wide": (2, 3, 0, True, True, False),
}


def make(conf):
    f = S.new(CONF[conf])
    f.aux_data = pd.DataFrame(dict(x=[1.0, 2.0]))
    f.reader_arg = dict(gpi=3)
    f.ID = "site"
    with G.capture_optimizer(G.distinct) as c:
        f.performfit(intermediate_results=True)
        x = np.atleast_1d(c[0]["x0"])
        for k in range(4):
            c[0]["fun"](x * (1 + 0.01 * k)), c[0]["jac"](x)
    return f


# ------------------------------------------------------------------ operations
def drive(obj):
    """use all widgets"""
    import matplotlib.widgets as W

    if isinstance(obj, dict):
        obj = list(obj.values())
    if isinstance(obj, (list, tuple)):
        for o in obj:
            drive(o)
    elif isinstance(obj, W.Slider):
        for v in (obj.valmin, obj.valmax, 0.3 * obj.valmin + 0.7 * obj.valmax):
            obj.set_val(v)
    elif isinstance(obj, W.CheckButtons):
        for i in range(len(obj.labels)):
            obj.set_active(i)
        for i in range(len(obj.labels)):
            obj.set_active(i)
    elif isinstance(obj, W.TextBox):
        v = float(obj.text)
        obj.set_val(str(v * 0.9 + 0.01))


def P(name, /, interact=False, draw=False, **kw):
    def op(fit):
        args = {k: (v(fit) if callable(v) else v) for k, v in kw.items()}
        r = getattr(fit.plot, name)(**args)
        if interact:
            drive(r)
        if draw:
            r.canvas.draw()

    op.__name__ = name + "(" + ",".join(k if callable(v) else f"{k}={v}" for k, v in kw.items()) + ")"
    return op


def read(name, f):
    f.__name__ = name
    return f


def _quiet(f):
    def op(fit):
        with contextlib.redirect_stdout(io.StringIO()):
            f(fit)

    return op


def _polar(fit):
    par = {k: 0.2 for k in fit.R.param_dict}
    for x in (fit.R.V, fit.R.SRF):
        x.polarplot(inc=[20.0], param_dict=par)


def _hem(fit):
    from rt1.rtplots import hemreflect

    SRF = copy.deepcopy(fit.SRF)
    SRF.NormBRDF = 0.3
    hemreflect(SRF=SRF, t_0_step=45.0, simps_N=11, returnarray=True, param_dict={k: 0.2 for k in fit.R.param_dict})


def _metric(fit):
    m = fit.metric.sig.tot
    for k in ("rmsd", "pearson", "spearman", "linregress", "bias", "allmetrics"):
        getattr(m, k)
    m.metrics_table
    m.scatterplot()


def _copies(fit):
    import cloudpickle

    cloudpickle.dumps(fit)
    fit.reinit_object()
    fit._get_init_dict()
    fit._get_fit_to_hdf_dict(save_data=True, save_auxdata=True)


def _calc(fit):
    x = S.values(fit)
    aux = {k: 0.2 for k, v in fit.defdict.items() if not v[0] and isinstance(v[1], str)}
    fit.calc({k: v[0] for k, v in x.items()}, np.array([[0.2, 0.9]]), fixed_param=aux)
    fit.calc({k: v[0] for k, v in x.items()}, np.array([[0.2, 0.9]]), fixed_param=aux, return_components=False)


def _calc_other(fit):
    fit.calc_model(res_dict=S.values(fit), return_components=True)
    fit.calc_model(res_dict=S.values(fit), fixed_dict={k: v + 0.01 for k, v in fit.fixed_dict.items()})


dyn = lambda fit: [k for k in fit.res_dict]  # noqa: E731
OPS = {o.__name__: o for o in [
    P("scatter"), P("scatter", mima=[-30.0, 0.0], regression=False, c="r"),
    P("fit_timeseries"), P("fit_timeseries", dB=False, sig0=False, params=dyn, printinc=False),
    P("fit_timeseries", dB=True, sig0=False, printtot=False, printvol=False, years=[2020], months=[1], params=dyn),
    P("fit_errors"), P("fit_errors", relative=True, result_selection=[0, 1]),
    P("results"), P("results", startvals=True, legend=True, result_selection=[1, 0]),
    P("single_results"), P("single_results", fit_numbers=[0, 1], convertTodB=True, hexbinQ=False),
    P("intermediate_results"), P("intermediate_results", params=lambda fit: dyn(fit)[:1]),
    P("printsig0analysis", interact=True), P("printsig0analysis", interact=True, use_index="dataset", dB=False, sig0=False, range2=2),
    P("printsig0analysis", interact=True, printfullt_0=False, printfulldata=False, dB=False, printcomponents1=False, range1=2),
    P("analyzemodel", interact=True), P("analyzemodel", interact=True, dB=False, sig0=False, inc=np.deg2rad([20.0, 40.0, 60.0]),
                                        labels=lambda fit: {k: k + "_label" for k in dyn(fit)}, fillcomponents=False),
    P("analyzemodel", int_Q=False, defdict=lambda fit: fit.defdict.to_dict()),
    P("intermediate_residuals"), P("intermediate_residuals", plottype="2D", grp="D", err="abserr"),
    P("intermediate_residuals", grp="groups", iter_slice=slice(0, 2), project_contour=True),
    read("model_definition", _quiet(lambda fit: fit.model_definition)), read("_cache_info", _quiet(lambda fit: fit._cache_info())),
    read("polarplot", _polar), read("hemreflect", _quiet(_hem)), read("metric", _quiet(_metric)), read("copies", _copies),
    read("calc", _calc), read("calc_other", _calc_other),
    read("res_df", lambda fit: (fit.res_df, fit.res_df_group)),
    read("calc_model", lambda fit: (fit.calc_model(), fit.calc_model(return_components=True), fit.calc_model(res_dict=S.values(fit)))),
    read("grouping", lambda fit: S.read_grouping(fit)),
]}


# ------------------------------------------------------------------ content of the object
def content(x, seen=None, depth=0):
    seen = {} if seen is None else seen
    if isinstance(x, (str, int, float, bool, type(None), bytes, complex, np.generic)):
        return repr(x)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return core.h((type(x).__name__, [str(i) for i in x.index], [str(i) for i in getattr(x, "columns", [x.index.name])],
                       [repr(i) for i in np.ravel(x.values)]))
    if isinstance(x, pd.Index):
        return core.h([str(i) for i in x])
    if isinstance(x, np.ma.MaskedArray):
        return ["ma", content(np.asarray(x.data), {}, depth), content(np.ma.getmaskarray(x), {}, depth)]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), list(x.shape), [repr(i) for i in np.ravel(x)]]
    if isinstance(x, (set, frozenset)):
        return sorted(map(content, x), key=str)
    if callable(x) and not hasattr(x, "__dict__"):
        return type(x).__qualname__
    m = type(x).__module__
    if m.startswith(("sympy", "symengine")):
        return str(x)
    if callable(x) and hasattr(x, "__qualname__"):
        return x.__qualname__
    if m.startswith("matplotlib"):
        return type(x).__name__
    if "sparse" in m:
        return content(x.toarray(), {}, depth)
    if id(x) in seen:
        return f"<{seen[id(x)]}>"
    seen[id(x)] = len(seen)
    if isinstance(x, dict):
        return [[content(k, seen, depth + 1), content(v, seen, depth + 1)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [content(i, seen, depth + 1) for i in x]]
    if hasattr(x, "__dict__"):
        return [type(x).__qualname__, [[k, content(v, seen, depth + 1)] for k, v in sorted(x.__dict__.items())]]
    return type(x).__qualname__


def observe(fit):
    """all that a user can observe"""
    o = dict(
        settings=repr(fit._get_init_dict()), ID=fit.ID, reader_arg=repr(fit.reader_arg), aux=fit.aux_data.to_string(),
        dataset=fit.dataset.to_string(), index=str(list(fit.dataset.index)), defdict=repr(fit.defdict.to_dict()),
        R=[str(fit.R.V.__class__), str(fit.R.SRF.__class__), str(fit.R.int_Q)],
        res_dict=S.freeze({k: np.asarray(v) for k, v in fit.res_dict.items()}), res_df=S.freeze(fit.res_df),
        intermediate=core.h(content(fit.intermediate_results)), model=S.freeze(fit.calc_model(return_components=True)),
        tot=S.freeze(fit.calc_model()), metric=S.read_metric(fit), output=core.h(content(fit.fit_output)),
        grouping=S.read_grouping(fit), calc=S.read_model(fit),
    )
    o["fit"] = S.read_fit(fit)[:-1]
    return o


def cases(tier, seed):
    out = []
    for conf in CONF:
        for op in OPS:
            out.append([conf, op, 2, 2 if tier == "thorough" else int(conf == "day")])
    if tier == "thorough":
        for a, b in itertools.product(OPS, repeat=2):
            out.append(["manual", [a, b], 3, 0])
    return out


def case_key(c):
    return f"{c[0]}/{c[1]}/{c[2]}"


_INIT = {}


def run_case(case):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    G.memo_lambdify()
    res = core.Result()
    conf, first, depth, full = case
    first = [first] if isinstance(first, str) else first
    if conf not in _INIT:
        _INIT[conf] = core.h(content(make(conf))), observe(make(conf))
    h0, ref = _INIT[conf]
    res.state((conf, h0))

    def execute(seq):
        key = f"{conf}/" + ";".join(seq)
        fit = make(conf)
        before = set(plt.get_fignums())
        try:
            for o in seq:
                OPS[o](fit)
                res.transitions += 1
        except Exception as e:  # noqa: BLE001
            res.violation(key + "/error", core.exc_text(e))
            plt.close("all")
            return None
        state = core.h(content(fit))
        try:
            now = observe(fit)
            for q in ref:
                d = S.differs(now[q], ref[q])
                expect(res, d is None, f"{key}/{q}", lambda: f"{q} changed{d}"[:1200])
        except Exception as e:  # noqa: BLE001
            res.violation(key + "/error-after", core.exc_text(e))
        plt.close("all")
        del before
        res.traces += 1
        res.evaluations += 1
        res.state((conf, state))
        return state

    h = execute(first)
    if len(first) < depth and h is not None and (full or h != h0):
        for o in OPS:
            # (interactive plots are the first ones, or follow changed states)
            if full == 1 and h == h0 and o.startswith(("printsig0", "analyzem")):
                continue
            execute(first + [o])
            if len(res.violations) > 8:
                break
    res.sample({"configuration": conf, "operations": first, "new_state": h != h0})
    return res
