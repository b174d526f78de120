"""C22: a site processed by RTprocess yields the same result as fitting it directly, whatever was processed before.

All sequences of sites (ordinary, with auxiliary data, empty, failing in the reader, failing in the fit, skipped, already
existing) are evaluated one after another by the real RTprocess of one process; every returned result is compared with the
result of a new fit-object to which the data are assigned directly.
"""
import copy
import itertools
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.checks import c12
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "for every fit-configuration (single and multiple configurations, with and without interaction terms, auxiliary and "
    "dynamic parameters) and export option: all sequences of sites up to the stated length, evaluated by the same instance; "
    "one transition = one site evaluated by the real code and compared with a direct fit; additionally all orders of sites "
    "through the real writer (run_processing), the stored file and the final output"
)
ASSUMPTIONS = ["the sites are deterministic", "the schedule of the writer is checked by C01-C04"]
NOTE = "Complete for the stated alphabet of sites and length of the histories."
TIMEOUT = 900

MOD = """
from rt1.processing_config import rt1_processing_config
from mc.checks import c22

class proc(rt1_processing_config):
    def reader(self, reader_arg):
        return c22.read(reader_arg)
    def postprocess(self, fit, reader_arg=None):
        return c22.post(fit)
"""

# ------------------------------------------------------------------ fits
LSQ = {"ftol": "1e-4", "xtol": "1e-4", "gtol": "1e-4", "max_nfev": "6", "method": "trf", "x_scale": "jac"}
BASE = {
    "fits_kwargs": {"sig0": "False", "dB": "False", "int_Q": "False", "verbose": "0"},
    "least_squares_kwargs": LSQ,
    "defdict": {"omega": "[True, 0.3, None, 0.05, 0.8]", "tau": "[True, 0.5, 1D, 0.01, 1.5]", "N": "[False, 0.2]"},
    "RT1_V": {"V_name": "Rayleigh", "tau": "tau", "omega": "omega"},
    "RT1_SRF": {"SRF_name": "HG_nadirnorm", "NormBRDF": "N", "t": "0.3", "ncoefs": "4"},
    "CONFIGFILES": {"module__processing_cfg": None},
    "PROCESS_SPECS": {"path__save_path": None, "dumpfolder": "dump", "processing_cfg_class": "proc", "finalout_name": "out.h5"},
}
VARIANTS = {
    "single": {},
    "int_Q": {"fits_kwargs": {"int_Q": "True"}},
    "dyn": {"defdict": {"omega": "[True, 0.3, None, 0.05, 0.8]", "tau": "[True, 0.5, manual, 0.01, 1.5]", "N": "[False, auxiliary]"}},
    "multi": {
        "#config a defdict": {"omega": "[False, 0.2]"},
        "#config b defdict": {"omega": "[False, 0.6]", "tau": "[True, 0.4, None, 0.01, 1.5]"},
    },
    "multi_int": {
        "#config one fits_kwargs": {"int_Q": "True"},
        "#config two defdict": {"N": "[True, 0.1, 2D, 0.01, 1.]", "tau": "[True, 0.5, manual, 0.01, 1.5]"},
    },
}
HDF = {"all": {}, "nodata": dict(save_data=False), "nores_df": dict(save_res_df=False), "noresults": dict(save_results=False),
       "noaux": dict(save_auxdata=False)}


def config(variant, base):
    s = c12.merged({**BASE, **{k: {} for k in VARIANTS[variant] if k.startswith("#")}}, VARIANTS[variant])
    s["CONFIGFILES"]["module__processing_cfg"] = str(base / "src/rt1mc_mod_c22.py")
    s["PROCESS_SPECS"]["path__save_path"] = str(base / "out")
    (base / "src").mkdir(exist_ok=True)
    (base / "src/rt1mc_mod_c22.py").write_text(MOD)
    path = base / "src/conf.ini"
    path.write_text(c12.text(s))
    return path


# ------------------------------------------------------------------ sites
def frame(kind, shift=0.0):
    df = G.dataset(kind, manual=dict(tau="near"), aux=("N",))
    df["sig"] += shift
    return df


def aux(n):
    return pd.DataFrame(dict(a=np.arange(n) + 0.5, b=[f"x{i}" for i in range(n)]), index=pd.date_range("2021-01-01", periods=n))


SITES = {
    "A": lambda: frame("ragged"),
    "B": lambda: frame("unsorted", 0.03),
    "C": lambda: (frame("daily", 0.01), aux(2)),  # auxiliary data
    "D": lambda: (frame("intraday", 0.02), aux(1)),
    "one": lambda: (frame("daily", 0.05),),  # nothing but the dataset
    "several": lambda: (frame("daily", 0.015), "first", 2),  # several additional return-values
    "listed": lambda: [frame("daily", 0.025), None],
    "empty": lambda: frame("daily")[:0],
    "none": lambda: None,
    "nodata": lambda: (None, aux(1)),
    "nocol": lambda: frame("daily").drop(columns="sig"),
    "nan": lambda: frame("daily").assign(sig=np.nan),
    "raise": "ValueError",
    "skip": "rt1_skip",
    "data_error": "rt1_data_error",
    "exists": "rt1_file_already_exists",
}
FAIL = ("empty", "none", "nodata", "nocol", "nan", "raise", "skip", "data_error")


def read(reader_arg):
    s = SITES[reader_arg["site"]]
    if isinstance(s, str):
        raise ValueError("broken file") if s == "ValueError" else Exception(s)
    return s()


def site_data(site):
    r = SITES[site]()
    if isinstance(r, pd.DataFrame):
        return r, None
    r = list(r)
    return r[0], (None if len(r) == 1 else r[1] if len(r) == 2 else r[1:])


def post(fit):
    df = pd.DataFrame({k: v for k, v in fit.res_df.items()})
    df = pd.concat([df], keys=[fit._RT1_ID_num], names=["ID"])
    return dict(dynamic=df)


def direct(path, site, arg, num, options, exists=None):
    """the result of fitting the site directly with a new fit-object"""
    from rt1.rtfits import MultiFits
    from rt1.rtparse import RT1_configparser

    fit = RT1_configparser(path).get_fitobject()
    df, ax = site_data(site)
    if isinstance(fit, MultiFits):
        fit.set_dataset(df)
        fit.set_aux_data(ax)
        fit.set_reader_arg(arg)
        fit.set_ID(arg["ID"])
        for f in fit.accessor.config_fits.values():
            f.performfit()
    else:
        fit.dataset = df
        fit.aux_data = ax
        fit.reader_arg = arg
        fit.ID = arg["ID"]
        fit.performfit()
    return fit, fit._get_fit_to_hdf_dict(ID=num, **options)


def singles(path):
    """{config: single Fits}, each from a parser of its own"""
    from rt1.rtparse import RT1_configparser

    names = list(RT1_configparser(path).config_names)
    if not names:
        return {None: RT1_configparser(path).get_fitobject()}
    return {n: RT1_configparser(path).get_fitobject().accessor.config_fits[n] for n in names}


def frames_equal(a, b):
    if list(a.index.names) != list(b.index.names) or not a.index.equals(b.index) or sorted(map(str, a.columns)) != sorted(map(str, b.columns)):
        return f"index or columns differ: {list(a.index.names)} {a.index.tolist()} {list(a.columns)} != {list(b.index.names)} {b.index.tolist()} {list(b.columns)}"
    for c in a.columns:
        x, y = a[c], b[c]
        try:
            ok = np.allclose(x.astype(float), y.astype(float), rtol=1e-9, atol=1e-12, equal_nan=True)
        except (TypeError, ValueError):
            ok = list(map(str, x)) == list(map(str, y))
        if not ok:
            return f"column {c}: {x.tolist()[:4]} != {y.tolist()[:4]}"
    return None


def compare(res, key, got, want):
    if got is None or want is None:
        return expect(res, got is None and want is None, key, lambda: f"result {type(got)} expected {type(want)}")
    if not expect(res, set(got) == set(want), key + "/layers", lambda: f"layers {sorted(got)} expected {sorted(want)}"):
        return False
    ok = True
    for k in want:
        d = frames_equal(got[k], want[k])
        ok = expect(res, d is None, f"{key}/{k}", f"{k}: {d}") and ok
    return ok


# ------------------------------------------------------------------ cases
def case_key(c):
    return "/".join(str(v) for k, v in c.items() if k not in ("tier",))


GOOD = ("A", "B", "C", "D", "one", "several", "listed", "exists")


def cases(tier, seed):
    out = []
    depth = 3 if tier == "quick" else 4
    for v in VARIANTS:
        for first in SITES:
            out.append(dict(group="history", variant=v, options="all", dump=False, first=first, depth=depth))
        for o in HDF:
            out.append(dict(group="history", variant=v, options=o, dump=True, first="C", depth=2))
    for v in VARIANTS:
        out.append(dict(group="direct", variant=v))
        out.append(dict(group="exists", variant=v))
        out.append(dict(group="except", variant=v))
        for i, order in enumerate(itertools.permutations(("A", "C", "nan"))):
            if tier == "thorough" or (i == 0 and v in ("single", "dyn", "multi_int")):
                out.insert(0, dict(group="chain", variant=v, order=order, files=(i + len(v)) % 2 == 0))
    return out


ALPHABET = dict(quick=("B", "C", "several", "empty", "nan", "raise"), thorough=tuple(s for s in SITES if s != "exists"))


def start(base, variant, **kw):
    from rt1.rtprocess import RTprocess

    path = config(variant, base)
    with c12.environment():
        p = RTprocess(path, autocontinue=True, **kw)
        p.setup()
    p._dump_fit = False
    return path, p


def run_case(case):
    res = core.Result()
    base = Path(tempfile.mkdtemp(dir=core.SCRATCH)).resolve()
    try:
        G.memo_lambdify()
        globals()["run_" + case["group"]](res, case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def reader_arg(site, i):
    return dict(ID=f"s{i}_{site}", site=site, n=i, _RT1_ID_num=i)


def run_history(res, case, base):
    from rt1.rtfits import load

    options = HDF[case["options"]]
    path, p = start(base, case["variant"], hdf_export_kwargs=options)
    p._dump_fit = case["dump"]
    tier = "quick" if case["depth"] < 4 else "thorough"
    known = {}

    def want(site, arg):
        if site in FAIL or site == "exists":
            return None
        if site not in known:
            known[site] = direct(path, site, arg, 0, options)[1]
        w = copy.deepcopy(known[site])
        for k, df in w.items():  # the same with the ID of this site
            df.index = df.index.map(lambda x: (arg["_RT1_ID_num"], *x[1:])) if isinstance(df.index, pd.MultiIndex) else pd.Index(
                [arg["_RT1_ID_num"]] * len(df), name=df.index.name)
            df.index.names = known[site][k].index.names
        w["const__reader_arg"] = pd.DataFrame(arg, index=pd.Index([arg["_RT1_ID_num"]], name="ID"))
        return w

    n = 0
    for length in range(1, case["depth"] + 1):
        for rest in itertools.product(ALPHABET[tier], repeat=length - 1):
            hist = (case["first"], *rest)
            # (the state of the process is continued: all histories form one long history of the same process)
            for site in hist if length < case["depth"] else hist[-2:]:
                arg = reader_arg(site, n)
                given = dict(arg)
                got = p._evalfunc(arg)
                key = f"{case['variant']}/{case['options']}/{'-'.join(hist)}"
                compare(res, key, got, want(site, given))
                expect(res, arg == given, key + "/reader_arg", f"the reader_arg was changed to {arg}")
                dumped = base / f"out/dump/dumps/{arg['ID']}.dump"
                expect(res, dumped.exists() == (case["dump"] and got is not None), key + "/dump", f"dump exists: {dumped.exists()}")
                if dumped.exists():
                    compare(res, key + "/dump", load(dumped)._get_fit_to_hdf_dict(ID=n, **options), got)
                n += 1
                res.evaluations += 1
                res.transitions += 1
                if len(res.violations) > 4:
                    return
            res.state((case["variant"], case["options"], hist))
            res.traces += 1


def run_direct(res, case, base):
    """the reference itself: each configuration fitted on its own, without any container"""
    path, p = start(base, case["variant"])
    multi = "multi" in case["variant"]
    for site in GOOD[:-1]:
        arg = reader_arg(site, 3)
        got = p._evalfunc(arg)
        key = f"{case['variant']}/{site}"
        for name, f in singles(path).items():
            df, ax = site_data(site)
            f.dataset = df
            f.performfit()
            r = f._get_res_dict_df(ID=3)
            g = got["res_dict"]
            if multi:
                g = g.loc[[i == name for i in g.index.get_level_values("cfg")]]
            a, b = (np.sort(x[~np.isnan(x)]) for x in (g.select_dtypes(float).values, r.select_dtypes(float).values))
            expect(res, a.shape == b.shape and np.allclose(a, b, rtol=1e-9), key, lambda: f"{name}: {a} != {b}")
            rd = got["res_df"].xs(3, level="ID")
            if multi:
                rd = rd.xs(name, level="cfg")
            cols = list(f.res_df.columns)
            expect(res, np.allclose(rd[cols].values.astype(float), f.res_df.values.astype(float), rtol=1e-9), key + "/res_df",
                   lambda: f"{name}: {rd[cols]} != {f.res_df}")
            res.evaluations += 1
            res.state((key, name))


def run_exists(res, case, base):
    """an already existing dump is used instead of processing the site again; a missing one is skipped"""
    path, p = start(base, case["variant"])
    for site in ("A", "C"):
        arg = dict(ID="ex" + site, site=site, _RT1_ID_num=4)
        p._dump_fit = True
        p._evalfunc(dict(arg))
        p._dump_fit = False
        for before in ("B", "nan", "several"):
            p._evalfunc(reader_arg(before, 1))
            again = dict(ID="ex" + site, site="exists", _RT1_ID_num=7)
            got = p._evalfunc(again)
            compare(res, f"{case['variant']}/{site}/{before}", got, direct(path, site, dict(arg), 7, {})[1])
            res.evaluations += 1
            res.state((case["variant"], site, before))
    got = p._evalfunc(dict(ID="unknown", site="exists", _RT1_ID_num=8))
    expect(res, got is None, f"{case['variant']}/missing", f"result for a missing file: {type(got)}")


def run_except(res, case, base):
    """the configured exception handling is applied: own handlers, and raising if there is no output folder"""
    path, p = start(base, case["variant"])
    seen = []

    class Own:
        def __init__(self, ret):
            self.ret = ret

        def __call__(self, ex, arg):
            seen.append((type(ex).__name__, ex.args, arg))
            return self.ret

    for ret in (None, {"x": 1}):
        p.proc_cls.exceptfunc = Own(ret)
        for site in FAIL:
            seen.clear()
            arg = reader_arg(site, 0)
            got = p._evalfunc(arg)
            expect(res, got is ret and len(seen) == 1 and seen[0][2] == arg, f"own/{site}", f"own handler: {seen}, returned {got}")
            if site in ("raise", "skip", "data_error"):
                exp = {"raise": ("ValueError", ("broken file",)), "skip": ("Exception", ("rt1_skip",)), "data_error": ("Exception", ("rt1_data_error",))}[site]
                expect(res, seen and seen[0][:2] == exp, f"own/{site}/exception", f"{seen} expected {exp}")
            res.evaluations += 1
            res.state((case["variant"], "own", site, ret is None))
    p.proc_cls.exceptfunc = None  # no handler: the error is raised
    for site in FAIL:
        try:
            p._evalfunc(reader_arg(site, 0))
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
        expect(res, ok, f"none/{site}", "a failing site without exception handler does not raise")
        res.evaluations += 1
        res.state((case["variant"], "none", site))
    # the default handler without an output folder raises all but the known exceptions
    del p.proc_cls.exceptfunc
    p.proc_cls.rt1_procsesing_dumppath = None
    for site in FAIL:
        try:
            got = p._evalfunc(reader_arg(site, 0))
            raised = False
        except Exception:  # noqa: BLE001
            raised = True
        expect(res, raised == (site not in ("skip", "data_error", "empty")), f"nopath/{site}", f"raised: {raised}")
        res.evaluations += 1
        res.state((case["variant"], "nopath", site))


def run_chain(res, case, base):
    """reader -> fit -> file -> final output with real processes"""
    from rt1.rtprocess import RTprocess

    path = config(case["variant"], base)
    # (arguments that do not fit into a single cell of a table)
    files = (lambda i: dict(files=[f"{i}_0.nc", f"{i}_1.nc"])) if case["files"] else (lambda i: {})
    args = [dict(ID=f"s{i}_{s}", site=s, n=i, **files(i)) for i, s in enumerate(case["order"])]
    with c12.environment():
        p = RTprocess(path, autocontinue=True)
        p.run_processing(ncpu=1, reader_args=args, logfile_level=None, print_progress=False)
        # the remaining ones are added by a second run of the same instance
        more = [dict(ID="later", site="B", n=9, **files(9))]
        p.run_finaloutput(ncpu=1, finalout_name="first.h5", logfile_level=None)
        p.run_processing(ncpu=1, reader_args=args + more, logfile_level=None)
        p.run_finaloutput(ncpu=1, finalout_name="second.h5", logfile_level=None)
    from rt1.rtresults import HDFaccessor

    key = f"{case['variant']}/{'-'.join(case['order'])}" + ("/files" if case["files"] else "")
    results = base / "out/dump/results"
    with pd.HDFStore(results / "fit_db.h5", "r") as s:
        ids = s["reader_arg"]
        stored = {k.strip("/"): s[k] for k in s.keys()}
    want_ids = sorted(a["ID"] for a in args + more if a["site"] not in FAIL)
    expect(res, sorted(ids.ID) == want_ids, key + "/ids", lambda: f"stored {sorted(ids.ID)} expected {want_ids}")
    finals = {}
    for name in ("first", "second"):
        with pd.HDFStore(results / f"{name}.h5", "r") as s:
            finals[name] = {k.strip("/"): s[k] for k in s.keys()}
    for a in args + more:
        if a["site"] in FAIL or a["ID"] not in set(ids.ID):
            continue
        num = ids.index[ids.ID == a["ID"]][0]
        fit, w = direct(path, a["site"], {**a, "_RT1_ID_num": num}, num, {})
        for k, df in w.items():
            k = k.replace("const__", "")
            if k == "reader_arg":
                df = pd.DataFrame({c: str(a[c]) if c == "files" else a[c] for c in a}, index=pd.Index([num], name="ID"))
            got = stored[k].loc[[i == num for i in stored[k].index.get_level_values("ID")]]
            cols = [c for c in df.columns if k != "reader_arg" or c in a]
            d = frames_equal(got[cols], df[cols])
            expect(res, d is None, f"{key}/{a['ID']}/{k}", f"stored {k} of {a['ID']}: {d}")
        for name, layers in finals.items():
            if name == "first" and a["ID"] == "later":
                continue
            fids = layers["reader_arg"]  # (the numbers of the sites may differ between the files)
            if not expect(res, list(fids.ID).count(a["ID"]) == 1, f"{key}/{name}/{a['ID']}", lambda: f"sites of the final output: {list(fids.ID)}"):
                continue
            num = fids.index[fids.ID == a["ID"]][0]
            row = fids.loc[num]
            expect(res, all(row[c] == (str(a[c]) if c == "files" else a[c]) for c in a), f"{key}/{name}/{a['ID']}/reader_arg", lambda: f"{dict(row)} expected {a}")
            fits = fit.accessor.config_fits if "multi" in case["variant"] else {"default": fit}
            for cfg, f in fits.items():
                f._RT1_ID_num = num
                layer = layers.get(f"{cfg}/dynamic")
                exp = post(f)["dynamic"]
                if not expect(res, layer is not None, f"{key}/{name}/{cfg}", f"layers of the final output: {sorted(layers)}"):
                    continue
                got = layer.loc[[i == num for i in layer.index.get_level_values("ID")]]
                d = frames_equal(got.dropna(axis=1, how="all"), exp)
                expect(res, d is None, f"{key}/{name}/{a['ID']}/{cfg}", f"final output {cfg} of {a['ID']}: {d}")
            nums = {i for k, v in layers.items() for i in v.index.get_level_values("ID")}
            expect(res, len(nums) == len(want_ids) - (name == "first"), f"{key}/{name}/sites", f"{len(nums)} sites in the output")
        res.evaluations += 1
        res.transitions += 3
        res.traces += 1
        res.state((key, a["ID"]))
