"""C29: calls leave no traces.

Every sequence of public calls (of a catalogue that spans all parts of rt1) is executed on shared inputs: each call
has to return what it returns in a fresh process, objects and results obtained before must keep their contents, and
neither the inputs nor the global settings of the interpreter may be changed.  The tree of sequences is explored by
forking: all continuations start from the very same process state.
"""
import contextlib
import copy
import io
import os
import pickle
import shutil
import signal
import sys
import tempfile
import threading
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

from mc import core
from mc.checks.c24 import content
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all sequences of calls of the catalogue (fits, copies, multi-configuration fits, dumps, exports, plots, model "
    "evaluations, derivatives, scattering functions and combinations, definitions, config-files, results, metrics, "
    "helpers) up to the stated depth on the same inputs; state = outcome of the last call, contents of all objects "
    "created before, contents of all inputs, global settings of the interpreter; every continuation of a sequence starts "
    "in a fork of the process that executed the sequence"
)
ASSUMPTIONS = [
    "a fit keeps the dataset, auxiliary data and reader arguments it is given (they are not copied)",
    "figures stay open until they are closed by the user",
]
NOTE = "Complete for the calls of the catalogue up to the stated depth."
TIMEOUT = 900


# ------------------------------------------------------------------ inputs
def inputs():
    import sympy as sp
    from rt1.surface import HG_nadirnorm, Isotropic
    from rt1.volume import HenyeyGreenstein, Rayleigh

    t = pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-02", "2020-01-05", "2020-01-04", "2020-01-06"])
    ds = pd.DataFrame(dict(inc=np.deg2rad([30.0, 40, 50, 35, 45, 55]), sig=[0.1, 0.09, 0.08, 0.12, 0.1, 0.07],
                           data_weights=[1.0, 2, 3, 1, 2, 3], N=[0.1, 0.2, 0.1, 0.2, 0.1, 0.2]), index=t)
    ds2 = ds.iloc[:4][["sig", "inc", "N"]].sort_index() * [1.1, 1.0, 1.0]
    dd = dict(tau=[True, 0.1, "2D", ([0.01], [1.5]), False], omega=[True, 0.2, None, ([0.01], [0.5])],
              N=[False, "auxiliary"], bsf=[False, 0.1])
    dd2 = dict(tau=[True, 0.3, "D", ([0.01], [1.5])], omega=[False, 0.3], N=[True, 0.2, None, ([0.01], [0.5])])
    srf = dict(SRF_name="LinCombSRF", SRFchoices=[[0.5, dict(SRF_name="HG_nadirnorm", t=0.2, ncoefs=2)],
                                                  [0.5, dict(SRF_name="Isotropic")]], NormBRDF="N")
    vs = dict(V_props=dict(V_name="HenyeyGreenstein", tau="tau", omega="omega", t=0.3, ncoefs=2, a=[-0.9, 1.0, 1.0]), SRF_props=srf)
    vs2 = dict(V_props=dict(V_name="Rayleigh", tau="tau", omega="omega"), SRF_props=dict(SRF_name="Isotropic", NormBRDF="N"))
    a_s = [0.9, 1.0, 1.0]
    geo = np.deg2rad([[20.0, 40.0, 60.0]])
    return dict(
        ds=ds, ds2=ds2, dd=dd, dd2=dd2, vs=vs, vs2=vs2, lsq=dict(ftol=1e-4, max_nfev=2, verbose=0), lsq2=dict(max_nfev=2, x_scale="jac"),
        aux=pd.DataFrame(dict(x=[1.0, 2.0]), index=pd.to_datetime(["2020-01-01", "2020-01-03"])), arg=dict(gpi=1, extra=[1, 2]),
        V=HenyeyGreenstein(tau=np.array([[0.1, 0.2, 0.3]]), omega=np.array([[0.2]]), t=sp.Symbol("v"), ncoefs=2), S=HG_nadirnorm(NormBRDF=0.2, t=sp.Symbol("s"), ncoefs=2, a=a_s),
        V2=Rayleigh(tau=0.3, omega=0.2), S2=Isotropic(NormBRDF=0.1),
        a=a_s, geo=geo, az=np.zeros_like(geo), par=dict(v=np.array([[0.1, 0.2, 0.3]]), s=0.2), plist=["tau", "NormBRDF", "v"],
        d1=pd.Series([0.3, 0.1, 0.4, 0.1]), d2=pd.Series([0.2, 0.2, 0.5, 0.05]), ragged=[[3.0, 1.0], [2.0], [5.0, 4.0, 6.0]],
        sizes=[1, 2], names=["b", "a", "b"], times=list(t[[3, 0, 1]]), mask=[1, 2, 5],
        values=dict(tau=np.array([0.2]), omega=np.array([0.1])), fixed=dict(N=np.array([[0.1]]), bsf=np.array([[0.1]])), angles=np.array([[0.3, 0.6]]),
        values_1d=[1.0, 3.0, 2.0], kw=dict(defdict=dict(tau="[False, 0.1]"), least_squares_kwargs=dict(ftol="1e-2")),
        over=dict(defdict=dict(tau="[True, 0.4, 3D, 0.01, 1.]"), fits_kwargs=dict(sig0=False), least_squares_kwargs=dict(max_nfev=3)),
    )


CFG = """[least_squares_kwargs]
ftol = 1e-4
max_nfev = 2

[fits_kwargs]
sig0 = True
dB = False
int_Q = False

[defdict]
tau = [True, 0.1, 2D, 0.01, 1.5]
omega = [False, 0.2]
N = [False, auxiliary]

[RT1_V]
V_name = HenyeyGreenstein
tau = tau
omega = omega
t = 0.3
ncoefs = 2

[RT1_SRF]
SRF_name = Isotropic
NormBRDF = N

[CONFIGFILES]
module__processing_cfg = {}/cfgmod.py

[PROCESS_SPECS]
path__save_path = {}/out
dumpfolder = dump
n_something = 7
"""
MODULE = """from rt1.processing_config import rt1_processing_config

CALLS = []


class run_configs(rt1_processing_config):
    def reader(self, reader_arg):
        CALLS.append(reader_arg)
        return len(CALLS)
"""


# ------------------------------------------------------------------ catalogue of calls: (inputs, scratch) -> function that reads the outcome
def read_fit(f):
    def read():
        o = dict(defdict=f.defdict.to_dict(), model=f.set_V_SRF, lsq=f.lsq_kwargs, ds=f.dataset, aux=getattr(f, "aux_data", None),
                 arg=getattr(f, "reader_arg", None), ID=f.ID, units=[f.sig0, f.dB, f.int_Q])
        if getattr(f, "fit_output", None) is not None:
            o.update(res=f.res_dict, df=f.res_df, tot=f.calc_model(return_components=True), m=float(f.metric.sig.tot.rmsd))
        else:
            o.update(start=f.start_dict if hasattr(f, "start_dict") else None, fixed=f.fixed_dict, data=f.data, index=list(f.index))
        return o

    return read


def fit(i, ds="ds", dd="dd", vs="vs", lsq="lsq", run=True, **kw):
    from rt1.rtfits import Fits

    f = Fits(**{**dict(dataset=i[ds], defdict=i[dd], set_V_SRF=i[vs], lsq_kwargs=i[lsq], sig0=True, dB=False, int_Q=False), **kw})
    f.aux_data, f.reader_arg = i["aux"], i["arg"]
    if run:
        f.performfit()
    return f


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def changed(i):
    """the definitions, solver options and units of a fit are changed"""
    f = fit(i, run=False)
    f.defdict["tau"][1] = 0.7
    f.defdict["omega"].fitQ = False
    f.defdict["tau"].minval = 0.05
    f.lsq_kwargs["max_nfev"] = 1
    f.set_V_SRF["V_props"]["t"] = 0.5
    f.set_V_SRF["SRF_props"]["SRFchoices"][0][0] = 0.3
    f.dB = True
    return f


def defaults(i, change=False):
    """objects that are created with as few arguments as possible (optionally changed afterwards)"""
    from rt1.rtfits import Fits, MultiFits
    from rt1.surface import HenyeyGreenstein as HGs
    from rt1.volume import HenyeyGreenstein as HGv

    f, e, m = Fits(defdict=i["dd2"], set_V_SRF=i["vs2"]), Fits(), MultiFits()
    V, S = HGv(tau=0.1, omega=0.1, t=0.2, ncoefs=2), HGs(t=0.2, ncoefs=2)
    R = rt1_(dict(i, V=V, S=S), par=None)
    if change:
        f.lsq_kwargs["gtol"], f.dB = 0.5, True
        e.defdict.add_variable("x", True, 0.2, "D", ([0.1], [0.4]))
        e.lsq_kwargs["xtol"] = 0.5
        m.add_config("one", f)
        V.a[0], S.a[0] = -0.5, 0.5
        R.param_dict["zz"] = 1.0
    return lambda: [[x.lsq_kwargs, x.dataset, x.sig0, x.dB, x.int_Q, x.ID, x.defdict.to_dict()] for x in (f, e)] + [
        list(m.accessor.config_fits), V.a, S.a, R.param_dict, m.dataset, m.aux_data, m.reader_arg]


def copied(i):
    f = fit(i)
    g = f.reinit_object(defdict=i["dd2"], set_V_SRF=i["vs2"], lsq_kwargs=i["lsq2"])
    g.defdict["N"][1] = 0.11
    g.performfit()
    a, b = read_fit(f), read_fit(g)
    return lambda: [a(), b()]


def multi(i, tmp):
    from rt1.rtfits import MultiFits

    m = MultiFits(dataset=i["ds"], aux_data=i["aux"], reader_arg=i["arg"])
    m.add_config("one", fit(i, run=False, dataset=None))
    m.add_config("two", fit(i, dd="dd2", vs="vs2", run=False, dataset=None, sig0=False))
    quiet(lambda: [c() for c in m.accessor.performfit().values()])
    reads = [read_fit(f) for f in m.accessor.config_fits.values()]
    return lambda: [r() for r in reads]


def dumped(i, tmp, mini):
    from rt1.rtfits import load

    f = fit(i)
    f.dump(tmp / "x.dump", mini=mini)
    a, b = read_fit(f), read_fit(load(tmp / "x.dump"))
    return lambda: [a(), b()]


def to_hdf(i):
    f = fit(i)
    r = {k: v.reset_index(drop=True) if hasattr(v, "reset_index") else v for k, v in f._get_fit_to_hdf_dict(ID=3, save_data=True, save_auxdata=True).items()}
    a = read_fit(f)
    return lambda: [r, a()]


def plot(name, **kw):
    def op(i, tmp):
        import matplotlib.pyplot as plt

        f = fit(i, run=False, int_Q=True)
        f.performfit(intermediate_results=name == "intermediate_results")
        k = copy.deepcopy(kw)
        keep = copy.deepcopy(k)
        quiet(getattr(f.plot, name), **k)
        if content(k) != content(keep):
            raise AssertionError(f"the arguments of {name} were changed: {k}")
        plt.close("all")
        return read_fit(f)

    return op


def rt1_(i, V="V", S="S", par="par", **kw):
    from rt1.rt1 import RT1

    return RT1(1.0, i["geo"], i["geo"], i["az"], np.full_like(i["az"], np.pi), V=i[V], SRF=i[S], param_dict=i[par] if par else {}, **kw)


def calc(i, tmp, jac=False, **kw):
    R = rt1_(i, int_Q=True, **kw)

    def read():
        o = [R.calc(), R.t_0, R.t_ex, R.p_0, R.p_ex, R.tau if hasattr(R, "tau") else None]
        if jac:
            o += [R.jacobian(dB=True, sig0=True, param_list=i["plist"]), R.surface_slope(), R.volume_slope(dB=True), R.tot_curv()]
        return o

    return read


def stored(i, tmp):
    """a model that is stored and restored"""
    R = rt1_(i, int_Q=True)
    R.calc()
    text = pickle.dumps(R)
    return lambda: [R.calc(), pickle.loads(text).calc()]


def moved(i, tmp):
    """the geometry, the intensity and the units of one model are changed"""
    R, other = rt1_(i), rt1_(i)
    R.t_0 = R.t_ex = np.deg2rad([[33.0, 44.0, 55.0]])
    R.p_0, R.p_ex = np.zeros((1, 3)), np.full((1, 3), np.pi / 2)
    R.I0 = 2.0
    return lambda: [R.calc(), other.calc()]


def functions(i, tmp):
    V, S, g = i["V"], i["S"], i["geo"]
    par = dict(v=0.3, s=0.2)
    return lambda: [V.p(g, g, i["az"], i["az"], par), S.brdf(g, g, i["az"], i["az"], par), i["V2"].p(g, g, i["az"], i["az"]), str(V.legcoefs), str(S.legcoefs),
                    V.init_dict, S.init_dict, repr(V.ncoefs)]


def combined(i, tmp):
    from rt1.surface import LinCombSRF
    from rt1.volume import LinCombV

    ch, sch = [[0.3, i["V"]], [0.7, i["V2"]]], [[0.4, i["S"]], [0.6, i["S2"]]]
    keep = content([ch, sch])
    V, S = LinCombV(Vchoices=ch, tau=0.4, omega=0.1), LinCombSRF(SRFchoices=sch, NormBRDF=0.2)
    V.tau, V.omega, S.NormBRDF = 0.5, 0.2, 0.3
    R = rt1_(dict(i, X=V, Y=S), V="X", S="Y", int_Q=True)
    par = dict(i["par"])

    def read():
        out = [R.calc(), V.p(i["geo"], i["geo"], i["az"], i["az"], par), V.init_dict["Vchoices"] if "Vchoices" in V.init_dict else None]
        if content([ch, sch]) != keep:
            raise AssertionError("the combined functions were changed")
        return out

    return read


def shared_vsrf(i, tmp):
    """a fit whose model is given as function that always returns the same kind of objects, another one by names"""
    from rt1.surface import Isotropic
    from rt1.volume import Rayleigh

    f = fit(i, dd="dd2", set_V_SRF=lambda tau, omega, N: (Rayleigh(tau=tau, omega=omega), Isotropic(NormBRDF=N)))
    r = read_fit(f)
    return lambda: {k: v for k, v in r().items() if k != "model"}


def definitions(i, tmp):
    f, g = fit(i, run=False), fit(i, run=False)
    f.defdict.add_variable("b", True, 0.2, "D", ([0.1], [0.4]))
    f.defdict.remove_variable("omega")
    f.defdict["tau"][3][0][0] = 0.33
    f.defdict["tau"].val = 0.9
    g.defdict = f.defdict
    g.defdict["tau"].val = 0.8
    g.defdict["b"][3][1][0] = 0.77
    h = fit(i, run=False)
    h.defdict = i["dd2"]
    h.defdict["tau"].minval = 0.2
    return lambda: [x.defdict.to_dict() for x in (f, g, h)]


def parsed(i, tmp):
    from rt1.rtparse import RT1_configparser

    p = RT1_configparser(str(i["cfg"]))
    f = p.get_fitobject()
    f.defdict["tau"][1] = 0.9
    f.lsq_kwargs["max_nfev"] = 1
    c = p.get_config()
    specs = p.get_process_specs()
    specs["n_something"] = 12
    f.dataset = i["ds"]
    f.performfit()
    c["defdict"]["tau"][1] = 0.8
    a, b = read_fit(f), p.get_fitobject()
    return lambda: [a(), b.defdict.to_dict(), b.lsq_kwargs, b.set_V_SRF, p.get_config(), {k: str(v) for k, v in p.get_process_specs().items()}]


def modules(i, tmp):
    from rt1.rtparse import RT1_configparser

    m = RT1_configparser(str(i["cfg"])).get_module("processing_cfg")
    c = m.run_configs(save_path=str(tmp), dumpfolder="d")
    n = [c.reader(dict(gpi=k)) for k in (1, 2)]
    return lambda: [n, list(m.CALLS)]


def process(i, tmp):
    from rt1.rtprocess import RTprocess

    p, q, s = RTprocess(str(i["cfg"])), RTprocess(str(i["cfg"])), RTprocess(str(i["cfg"]), init_kwargs=i["kw"])
    p.override_config(**i["over"])
    p.override_config(override=False, defdict=dict(omega="[False, 0.9]"))
    s.override_config(override=False, **i["over"])
    return lambda: [x.init_kwargs for x in (p, q, s)]


def results(i, tmp):
    from rt1.rtresults import RTresults

    for n in ("one", "two"):
        for d in ("results", "dumps", "cfg"):
            (tmp / n / d).mkdir(parents=True)
        (tmp / n / "dumps" / f"s_{n}.dump").write_bytes(b"")
    r = RTresults(tmp, use_dumps=True)
    return lambda: [[n for n in ("one", "two", "three") if hasattr(r, n)], len(list(r)), sorted(Path(x).name for x in r.one.dump_files), sorted(Path(x).name for x in r.two.dump_files)]


def metrics(i, tmp):
    from rt1.rtmetrics import RTmetrics

    def read():
        return [getattr(RTmetrics, k)(i["d1"], i["d2"]) if k != "linregress" else list(RTmetrics.linregress(i["d1"], i["d2"]))
                for k in ("pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio")]

    quiet(RTmetrics.metrics_table, i["d1"], i["d2"])
    return read


def helpers(i, tmp):
    from rt1 import general_functions as g

    r, t, n = i["ragged"], i["times"], i["names"]

    def read():
        m = g.rectangularize(r, return_masked=True)
        return [g.rectangularize(r), np.asarray(m.data), np.asarray(m.mask), g.rectangularize(r, return_mask=True, dim=4), str(g.meandatetime(t)),
                list(g.pairwise(n)), list(map(list, g.split_into(n, i["sizes"]))), g.scale(i["d1"].values), g.groupby_unsorted(n), g.groupby_unsorted(r, key=len, get=tuple),
                list(g.find_missing(i["mask"], 7)), list(g.find_missing(N=3)), list(map(list, g.chunkit(n, 2))), g.dBsig0convert(i["d1"], i["geo"][0, 0], True, True, False, False),
                g.dBsig0convert(i["ds"]["sig"].values, i["ds"]["inc"].values, True, False, False, True),
                g.interpolate_to_index(i["values_1d"], i["ds2"].index.unique(), i["ds2"].index.unique()[[0, 1, 2]])]

    return read


def calc_fit(i, tmp):
    """a fit evaluated for given values and angles"""
    f = fit(i, int_Q=True)
    r, keep = read_fit(f), f.res_dict
    return lambda: [f.calc(i["values"], i["angles"], fixed_param=i["fixed"]), f.calc_model(res_dict=keep), r()]


def diagrams(i, tmp):
    import matplotlib.pyplot as plt
    from rt1.rtplots import hemreflect

    par = dict(v=0.3, s=0.2)
    for x in ("V", "S"):
        i[x].polarplot(inc=[20.0], param_dict=par)
    h = quiet(hemreflect, SRF=i["S2"], t_0_step=45.0, simps_N=11, returnarray=True)
    plt.close("all")
    return lambda: content(i["V"].init_dict) and np.asarray(h, float)


OPS = {
    "fit-new": lambda i, tmp: read_fit(fit(i, run=False)),
    "fit": lambda i, tmp: read_fit(fit(i)),
    "fit-dB": lambda i, tmp: read_fit(fit(i, ds="ds2", dd="dd2", dB=True, sig0=False)),
    "fit-int": lambda i, tmp: read_fit(fit(i, dd="dd2", vs="vs2", lsq="lsq2", int_Q=True)),
    "fit-defaults": lambda i, tmp: defaults(i), "fit-defaults-changed": lambda i, tmp: defaults(i, change=True),
    "fit-changed": lambda i, tmp: read_fit(changed(i)),
    "fit-copied": lambda i, tmp: copied(i),
    "fit-function": shared_vsrf,
    "fit-assigned": lambda i, tmp: (lambda f: [setattr(f, "dataset", i["ds2"]), setattr(f, "defdict", i["dd2"]), setattr(f, "sig0", False), f.performfit()]
                                    and read_fit(f))(fit(i)),
    "multi": multi,
    "dump-mini": lambda i, tmp: dumped(i, tmp, True),
    "dump-full": lambda i, tmp: dumped(i, tmp, False),
    "calc-fit": calc_fit, "to-hdf": lambda i, tmp: to_hdf(i),
    "plot-timeseries": plot("fit_timeseries", dB=True, sig0=False, params=["tau"], months=[1], years=[2020]),
    "plot-errors": plot("fit_errors", result_selection=[0, 1]),
    "plot-results": plot("results", result_selection=[1, 0]),
    "plot-single": plot("single_results", fit_numbers=[0, 1], convertTodB=True),
    "plot-scatter": plot("scatter", mima=[-30.0, 0.0]),
    "plot-analyzemodel": plot("analyzemodel", inc=np.deg2rad([20.0, 40.0]), labels={"tau": "TAU"}),
    "plot-sig0": plot("printsig0analysis"),
    "plot-intermediate": plot("intermediate_results"),
    "calc": calc, "calc-numbers": lambda i, tmp: calc(i, tmp, V="V2", S="S2", par=None), "calc-jac": lambda i, tmp: calc(i, tmp, jac=True),
    "calc-stored": stored, "moved": moved, "functions": functions, "combined": combined, "definitions": definitions, "parsed": parsed, "modules": modules,
    "process": process, "results": results, "metrics": metrics, "helpers": helpers, "diagrams": diagrams,
}
CORE = ["fit", "fit-copied", "multi", "combined", "definitions"]


# ------------------------------------------------------------------ comparing
def plain(x):
    """nested lists of numbers and texts (a snapshot: shares nothing with x)"""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x)
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (pd.DataFrame, pd.Series)):
        d = x.to_frame() if isinstance(x, pd.Series) else x
        return [type(x).__name__, [str(c) for c in d.columns], [str(r) for r in d.index], [plain(d.iloc[:, c].values) for c in range(d.shape[1])], str(d.index.name)]
    if isinstance(x, pd.Index):
        return [str(r) for r in x]
    if isinstance(x, np.ma.MaskedArray):
        return ["masked", plain(np.ma.getmaskarray(x)), plain(x.filled(0))]
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype.kind in "fiubc" else [plain(v) for v in x.ravel()] if x.dtype == object else [str(v) for v in x.ravel()]
    if isinstance(x, dict) or type(x).__name__ in ("_RT1_variable", "mappingproxy"):
        return [[str(k), plain(v)] for k, v in x.items()] if hasattr(x, "items") else [plain(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "toarray"):
        return x.toarray()
    return str(x)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.asarray(a).dtype.kind == np.asarray(b).dtype.kind and np.allclose(
            np.asarray(a, complex), np.asarray(b, complex), rtol=1e-6, atol=1e-10, equal_nan=True)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (float, complex)) and not isinstance(b, bool) and isinstance(b, (float, complex)):
        return bool(np.isclose(a, b, rtol=1e-6, atol=1e-10, equal_nan=True))
    return type(a) is type(b) and a == b


def difference(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                name = x[0] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) else n
                return difference(x, y, f"{path}/{name}")
    return f"{path}: {str(a)[:150]} -> {str(b)[:150]}"


def describe(x):
    """an input: the attributes a user can read (scattering functions) or the contents"""
    if hasattr(x, "legcoefs"):
        return [[k, str(getattr(x, k))] for k in ("tau", "omega", "NormBRDF", "t", "i", "a", "ncoefs", "legcoefs", "init_dict") if hasattr(x, k)]
    return plain(x)


def snapshot(i):
    return [[k, describe(v)] for k, v in i.items()]


def exact(x):
    return content(x)


def settings():
    """global settings of the interpreter and of the libraries"""
    import logging

    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import tables

    rs = np.random.get_state()
    return dict(
        cwd=os.getcwd(), environ=sorted(os.environ.items()), path=list(sys.path), errstate=sorted(np.geterr().items()),
        printoptions=str(np.get_printoptions()), random=[rs[0], core.h(rs[1].tolist()), rs[2]],
        warnings=[str(w) for w in warnings.filters], showwarning=str(warnings.showwarning), rcParams=sorted((k, str(v)) for k, v in dict.items(mpl.rcParams)),
        backend=mpl.get_backend(), figures=plt.get_fignums(), interactive=mpl.is_interactive(),
        pandas=[str(pd.get_option(k)) for k in ("display.max_rows", "display.max_columns", "display.width", "display.precision", "mode.chained_assignment",
                                                "display.max_colwidth", "display.float_format", "mode.copy_on_write")],
        threads=threading.active_count(), signals=[str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM)],
        recursion=sys.getrecursionlimit(), stdout=[id(sys.stdout), id(sys.stderr), id(sys.excepthook)],
        files=sorted(map(str, getattr(tables.file._open_files, "filenames", []))),
        logging=[logging.getLogger().level, [type(x).__name__ for x in logging.getLogger().handlers], logging.getLogger("rt1").level,
                 [type(x).__name__ + str(x.level) for x in logging.getLogger("rt1").handlers], logging.root.manager.disable],
        umask=_umask(),
    )


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


# ------------------------------------------------------------------ exploration
def fork(fn):
    """what fn returns, executed in a fork of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = pickle.dumps(fn())
            except Exception as e:  # noqa: BLE001
                out = pickle.dumps(("exception", core.exc_text(e)))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exception", "the process died")


class World:
    def __init__(self, base):
        self.base, self.n = base, 0
        self.i = inputs()
        self.i["cfg"] = base / "config.ini"
        self.exact = {k: exact(v) for k, v in self.i.items() if not hasattr(v, "legcoefs")}
        self.inp = snapshot(self.i)
        self.settings = settings()
        self.done = []  # (name, function, outcome)

    def plain(self, x):
        """the location of the scratch directory does not matter"""

        def strip(x):
            return [strip(v) for v in x] if isinstance(x, list) else x.replace(str(self.base), "<base>") if isinstance(x, str) else x

        return strip(plain(x))

    def do(self, name):
        """the problems of a call: (what, text)"""
        out = []
        self.n += 1
        tmp = self.base / f"{self.n}_{os.getpid()}"
        tmp.mkdir()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = [str(w) for w in warnings.filters]
            try:
                read = OPS[name](self.i, tmp)
                got = self.plain(read())
            except Exception as e:  # noqa: BLE001
                read = None
                got = "exception " + core.exc_text(e)
            if [str(w) for w in warnings.filters] != before:
                out.append(("settings/warnings", "the filters of warnings were changed"))
        now = settings()
        for k, v in self.settings.items():
            if now[k] != v:
                out.append((f"settings/{k}", f"{k} was changed from {str(v)[:200]} to {str(now[k])[:200]}"))
        inp = snapshot(self.i)
        if not same(self.inp, inp):
            out.append(("inputs", "inputs were changed: " + difference(self.inp, inp)))
        for k, v in self.exact.items():
            if exact(self.i[k]) != v:
                out.append((f"inputs/{k}", f"the input {k} was changed to {str(self.i[k])[:300]}"))
        for k, fn, val in self.done:
            try:
                x = self.plain(fn())
            except Exception as e:  # noqa: BLE001
                x = "exception " + core.exc_text(e)
            if not same(val, x):
                out.append((f"earlier/{k}", f"the outcome of the earlier call {k} was changed: {difference(val, x)}"))
        if read is not None:
            self.done.append((name, read, got))
        return out, got


_base = {}


def new_base():
    base = Path(tempfile.mkdtemp(dir=core.SCRATCH, prefix="c29_"))
    (base / "config.ini").write_text(CFG.format(base, base))
    (base / "cfgmod.py").write_text(MODULE)
    return base


def warm():
    """whatever is imported by the calls"""
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt  # noqa: F401
    import scipy.stats  # noqa: F401
    import tables  # noqa: F401

    import rt1.rtfits  # noqa: F401
    import rt1.rtmetrics  # noqa: F401
    import rt1.rtparse  # noqa: F401
    import rt1.rtplots  # noqa: F401
    import rt1.rtprocess  # noqa: F401
    import rt1.rtresults  # noqa: F401


def alone(name, base):
    """outcome of a call in a fresh process (in no other call has been executed)"""
    if name not in _base:
        _base[name] = fork(lambda: World(base).do(name)[1])
    return _base[name]


def cases(tier, seed):
    out = [[[a], list(OPS)[k::2]] for a in OPS for k in (0, 1)]
    core_ = [[[a, b], CORE] for a in CORE for b in CORE] if tier == "quick" else [[[a, b], list(OPS)] for a in OPS for b in OPS]
    return out + core_


def case_key(c):
    return "+".join(c[0])


def run_case(case):
    prefix, last = case
    res = core.Result()
    warm()
    base = new_base()

    def report(seq, problems, got):
        res.evaluations += 1
        res.transitions += 1
        res.traces += 1
        key = "+".join(seq)
        res.state((key, str(got)[:2000]))
        for what, text in problems:
            res.violation(f"{key}/{what}", text)
        want = alone(seq[-1], base)
        expect(res, same(want, got), f"{key}/outcome", lambda: f"outcome of {seq[-1]} after {seq[:-1]} differs: {difference(want, got)}")

    try:
        first = {name: alone(name, base) for name in {*prefix, *last}}
        for name, got in first.items():
            expect(res, not (isinstance(got, str) and got.startswith("exception")) and not (isinstance(got, tuple) and got[0] == "exception"), f"{name}/alone", lambda: f"{got}")

        def tree():
            w = World(base)
            done = []
            for n, name in enumerate(prefix):
                done.append((prefix[: n + 1], *w.do(name)))
            for name in last:
                r = fork(lambda: w.do(name))  # noqa: B023
                done.append(([*prefix, name], [("call", str(r[1]))], None) if isinstance(r, tuple) and r[0] == "exception" else ([*prefix, name], *r))
            return done

        done = fork(tree)
        if isinstance(done, tuple):
            res.violation(f"{'+'.join(prefix)}/run", str(done[1]))
        else:
            for seq, problems, got in done:
                report(seq, problems, got)
        res.sample(f"{'+'.join(prefix)}: {len(last)} continuations")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res
