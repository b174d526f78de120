"""C06: a saved fit is restored with identical settings, data and results."""
import itertools
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every model specification x units x pair of parameter dynamics x dataset shape (incl. weights, start-value and manual "
    "columns, text / integer / missing values, duplicate and unsorted dates), with typical and awkward option, bound and "
    "start values, as single and multi-configuration fits, saved by dump (mini and full) and through the real results "
    "writer (several sites per store, several chunk sizes, all export options) and loaded again; distinct = distinct "
    "(settings, dataset, way of saving)"
)
ASSUMPTIONS = [
    "the optimiser is replaced by a stand-in that returns distinct values (the results do not have to be minima to be saved)",
    "names of the dataset index and of the frequency of the index are not part of the dataset; the verbosity and the "
    "choice of the symbolic backend are not settings of a results file",
    "reader arguments are numbers and strings and auxiliary data are data-frames (what a table can hold)",
]
NOTE = "Complete for the stated alphabet of fits and ways of saving."
TIMEOUT = 600

DYN = [None, "index", "D", "2D", 2, "manual", "D + manual"]
FACETS = ["plain", "numpy", "inf", "int", "lsq", "names"]


def cases(tier, seed):
    out = []
    models = list(G.MODELS)
    for i, m in enumerate(models):
        for j, d1 in enumerate(DYN):
            if tier == "quick":
                out.append(["fits", m, d1, [[None, "index", "manual"][(i + j) % 3]], ["ragged", "intraday"]])
            else:
                out.append(["fits", m, d1, DYN, ["single", "ragged", "intraday", "unsorted", "long"]])
    for m, f in itertools.product(models, FACETS):
        out.append(["facet", m, f])
    for m in models:
        out.append(["int_Q", m])
    pairs = list(itertools.permutations(models, 2)) if tier != "quick" else \
        [(a, models[(i + k) % len(models)]) for i, a in enumerate(models) for k in (1, 3)]
    for a, b in pairs:
        out.append(["multi", a, b])
    for m in ("call", "plain") if tier == "quick" else models:
        out.append(["folder", m, m])
    for m in models[:2] if tier == "quick" else models:
        for k in range(3):
            out.append(["export", m, k])
    return out


def case_key(c):
    return "/".join(map(str, c[:3]))


# ------------------------------------------------------------------ comparison
def same_frame(a, b, what):
    if a is None or b is None:
        return None if a is b else f"{what}: {type(a).__name__} != {type(b).__name__}"
    if what == "res_df" and set(a) == set(b):
        b = b[list(a)]
    try:
        pd.testing.assert_frame_equal(a, b, check_names=False, check_freq=False, check_index_type=False,
                                      check_like=False, check_exact=True)
    except AssertionError as e:
        return f"{what} differs: {str(e)[:300]}"
    return None


def plain(x):
    """a value with numpy numbers replaced by the equal python ones"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x)
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def compare(a, b, hdf, dataset=True, results=True, aux=True):
    """-> list of differences between the original fit a and the restored fit b"""
    out = []
    for k in ["sig0", "dB", "int_Q"]:
        if getattr(a, k) is not getattr(b, k):
            out.append(f"{k}: {getattr(b, k)!r} instead of {getattr(a, k)!r}")
    if plain(a.lsq_kwargs) != plain(b.lsq_kwargs):
        out.append(f"lsq_kwargs: {b.lsq_kwargs} instead of {a.lsq_kwargs}")
    da, db = plain(a.defdict.to_dict()), plain(b.defdict.to_dict())
    if da != db or list(da) != list(db):
        out.append(f"defdict: {db} instead of {da}")
    if a.ID != b.ID:
        out.append(f"ID: {b.ID} instead of {a.ID}")
    if not callable(a.set_V_SRF) and plain(a.set_V_SRF) != plain(b.set_V_SRF):
        out.append(f"set_V_SRF: {b.set_V_SRF} instead of {a.set_V_SRF}")
    if getattr(a, "config_name", None) != getattr(b, "config_name", None):
        out.append("config_name")
    if dataset:
        e = same_frame(a.dataset, b.dataset, "dataset")
        if e:
            out.append(e)
    if aux:
        e = same_frame(getattr(a, "aux_data", None), getattr(b, "aux_data", None), "aux_data")
        if e:
            out.append(e)
    ra, rb = plain(getattr(a, "reader_arg", {})), plain(getattr(b, "reader_arg", {}))
    if {k: v for k, v in rb.items() if k in ra} != ra:
        out.append(f"reader_arg: {rb} instead of {ra}")
    if results:
        ra = {k: np.asarray(v) for k, v in a.res_dict.items()}
        rb = {k: np.asarray(v) for k, v in getattr(b, "res_dict", {}).items()}
        if set(ra) != set(rb) or any(ra[k].shape != rb[k].shape or not np.array_equal(ra[k], rb[k]) for k in ra):
            out.append(f"res_dict: {rb} instead of {ra}")
        elif dataset and not out:
            # evaluate it
            e = same_frame(a.res_df, b.res_df, "res_df")
            if e:
                out.append(e)
            for comp in (False, True):
                x, y = a.calc_model(return_components=comp), b.calc_model(return_components=comp)
                if list(x) != list(y) or not x.index.equals(y.index) or not np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True):
                    out.append(f"calc_model({comp}): {y} instead of {x}")
    return out


# ------------------------------------------------------------------ fits
AUX = pd.DataFrame(dict(sm=[0.1, np.nan, 0.3], lab=["a", "b b", "c"]), pd.to_datetime(["2019-01-01", "2020-01-02", "2020-01-02"]))


def decorate(df, i):
    """further columns of a dataset"""
    df = df.copy()
    n = len(df)
    if i % 3 == 0:
        df["orbit"] = np.arange(n) % 2
        df["sat"] = ["S1A", "S1B"] * (n // 2) + ["S1A"] * (n % 2)
    elif i % 3 == 1:
        df["extra"] = np.where(np.arange(n) % 2 == 0, 0.5, np.nan)
        df["flag"] = np.arange(n) % 2 == 0
    return df


def finish(fit, i, name=None, aux=True):
    name = name if name is not None else ["s", "3", "a-b", "site_", "RT1_"][i % 5] + str(i)
    fit.ID = name
    fit.reader_arg = dict(ID=name, lat=48.25 + i, orbit=i, kind=f"k{i}", ok=bool(i % 2))
    if aux and i % 2 == 0:
        fit.aux_data = AUX.iloc[i % 2:]
    with G.capture_optimizer(G.distinct):
        fit.performfit()
    return fit


def facet(model, f):
    """settings with awkward values"""
    fit, df = G.build(model, "ragged", {k: None for k in G.MODELS[model].fit})
    dd = fit.defdict.to_dict()
    p1, p2 = list(G.MODELS[model].fit)[:2]
    lsq = {}
    if f == "numpy":
        dd[p1][1] = np.float64(0.3)
        dd[p1][3] = ([np.float64(0.01)], [np.float32(1.5)])
        for k, v in G.MODELS[model].fixed.items():
            dd[k][1] = np.float64(v)
        lsq = dict(ftol=np.float64(1e-4), max_nfev=np.int64(7))
    elif f == "inf":
        dd[p1][3] = ([-np.inf], [np.inf])
        dd[p2][3] = ([0.0], [np.inf])
        lsq = dict(max_nfev=None, xtol=None, tr_options={})
    elif f == "int":
        dd[p1][1:4] = [1, 2, ([0], [2])]
        for k in G.MODELS[model].fixed:
            dd[k][1] = 1 if k != "bsf" else 0
    elif f == "lsq":
        lsq = dict(ftol=1e-9, xtol=1e-3, loss="soft_l1", f_scale=0.1, x_scale="jac", tr_solver="lsmr",
                   tr_options=dict(regularize=True, maxiter=5), method="trf", verbose=0)
    elif f == "names":
        dd[p2][2] = "D"
        dd[p2] += [] if len(dd[p2]) > 4 else [True]
        dd[p2][4] = True
    return dd, lsq, fit.set_V_SRF, df


# ------------------------------------------------------------------ saving
def dumped(fit, d, mini):
    from rt1.rtfits import load

    p = Path(d) / f"{fit.ID}.dump"
    fit.dump(p, mini=mini)
    return load(p)


def store(fits, d, chunk, **kw):
    """store the fits by the real writer -> path of the file"""
    from mc import pipeline as P

    path = Path(d) / "fit_db.h5"

    class J:
        def process(self, arg, *args):
            fit = TABLE[arg["ID"]]
            return fit._get_fit_to_hdf_dict(ID=arg["_RT1_ID_num"], **kw)

    global TABLE
    TABLE = {f.ID: f for f in fits}
    disk = P.Disk()
    disk.real = True
    o = P.run_pipeline(dict(n=len(fits), workers=1, combiners=1, writers=1, chunk=chunk), [], disk=disk, dst=str(path),
                       job=J(), arg_list=[dict(ID=f.ID) for f in fits], wall=200, max_steps=100000)
    if o.main_exc is not None:
        raise o.main_exc
    return path


TABLE = {}


def roundtrip_dump(res, fit, key, d, modes=(True, False)):
    multi = hasattr(fit, "configs")
    for mini in modes:
        own = [(a, {k: (v, dict(v) if isinstance(v, dict) else None) for k, v in a.__dict__.items() if k[0] != "_"})
               for a in (list(fit.configs) if multi else [fit])]
        try:
            b = dumped(fit, d, mini)
        except Exception as e:  # noqa: BLE001
            res.violation(f"{key}/dump-mini={mini}/error", core.exc_text(e))
            continue
        pairs = [(fit.configs[n], b.configs[n]) for n in fit.config_names] if multi else [(fit, b)]
        if multi:
            expect(res, fit.config_names == b.config_names, f"{key}/dump-mini={mini}/configs", f"{b.config_names}")
        diffs = [x for a, c in pairs for x in compare(a, c, False)]
        expect(res, not diffs, f"{key}/dump-mini={mini}", lambda: "; ".join(diffs))
        for a, c in pairs:
            fo = c.fit_output
            for k in ["success", "status", "optimality"]:
                v = fo.get("fit_" + k, fo.get(k))
                expect(res, k in a.fit_output and v == a.fit_output[k], f"{key}/dump-mini={mini}/fit_output", f"{k}: {v}")
            if not mini:
                expect(res, set(fo) == set(a.fit_output) and np.array_equal(fo["x"], a.fit_output["x"]),
                       f"{key}/dump-mini={mini}/fit_output", lambda: f"{sorted(fo)}")
        # the saved fit is still the same
        for a, old in own:
            new = {k: v for k, v in a.__dict__.items() if k[0] != "_"}
            bad = [k for k in {*old, *new} if k not in old or k not in new or new[k] is not old[k][0] or
                   (isinstance(new[k], dict) and (set(new[k]) != set(old[k][1]) or any(new[k][i] is not old[k][1][i] for i in new[k])))]
            expect(res, not bad, f"{key}/dump-mini={mini}/saved-fit", lambda: f"dumping changed {bad} of the saved fit")
        res.evaluations += 1
        res.state((key, "dump", mini))


def roundtrip_hdf(res, fits, key, d, chunk, kw=None):
    from rt1.rtresults import HDFaccessor

    kw = kw or {}
    dataset = kw.get("save_data", True)
    results = kw.get("save_results", True)
    for p in Path(d).glob("*.h5"):
        p.unlink()
    try:
        path = store(fits, d, chunk, **kw)
        db = HDFaccessor(path)
    except Exception as e:  # noqa: BLE001
        res.violation(f"{key}/hdf/error", core.exc_text(e))
        return
    try:
        got = {n: int(i) for i, n in zip(db.IDs.index, db.IDs.ID)}
        if not expect(res, sorted(got) == sorted(f.ID for f in fits), f"{key}/hdf/names", lambda: f"stored {sorted(got)}"):
            return
        order = list(fits) + list(reversed(fits))  # loading one does not depend on what was loaded before
        for j, fit in enumerate(order):
            b = db.load_fit(fit.ID if j < len(fits) else got[fit.ID])
            k2 = f"{key}/hdf-chunk={chunk}" + "".join(f"/{a}={v}" for a, v in kw.items())
            if hasattr(fit, "configs"):
                if not expect(res, fit.config_names == b.config_names, k2 + "/configs", f"{b.config_names}"):
                    continue
                pairs = [(fit.configs[n], b.configs[n]) for n in fit.config_names]
                expect(res, b.ID == fit.ID, k2 + "/ID", f"{b.ID} instead of {fit.ID}")
            else:
                pairs = [(fit, b)]
            diffs = [x for a, c in pairs for x in compare(a, c, True, dataset=dataset, results=results,
                                                          aux=kw.get("save_auxdata", True))]
            expect(res, not diffs, k2, lambda: f"{fit.ID}: " + "; ".join(diffs))
            if not dataset and results:
                # enough to re-create the parameters with the original dataset index
                for a, c in pairs:
                    e = restored_index(a, c)
                    expect(res, e is None, k2 + "/index", e)
            res.evaluations += 1
        res.state((key, "hdf", chunk, sorted(kw.items())))
    finally:
        db.close()


def results_folder(res, model, d):
    """the fits of a results folder are loaded by name, number, position and at random, from the file and from the dumps"""
    from rt1.rtresults import RTresults

    p1, p2 = list(G.MODELS[model].fit)[:2]
    fits = []
    for i, ds in enumerate(("ragged", "daily")):
        fit, _ = G.build(model, ds, {p1: "index", p2: None})
        fits.append(finish(fit, i, ("first", "2nd")[i], aux=False))
    fits.append(multi(model, "bsf", "daily", ("x", "y"), ID="both"))
    for group in (fits[:1], fits[:2], fits[2:]):
        top = Path(tempfile.mkdtemp(dir=d))
        for sub in ("results", "dumps", "cfg"):
            (top / "site" / sub).mkdir(parents=True)
        store(group, top / "site/results", 1)
        for f in group:
            f.dump(top / "site/dumps" / f"{f.ID}.dump")
        names = [f.ID for f in group]
        for dumps in (False, True):
            r = RTresults(top, use_dumps=dumps).site
            ids = {Path(x).stem if dumps else x for x in r.dump_files}
            expect(res, ids == set(names), f"folder/{model}/{dumps}/ids", f"fits of the folder: {ids}")
            order = [Path(x).stem for x in r.dump_files] if dumps else list(r.fit_db.IDs.sort_index().ID)
            asked = [*names, *range(len(group)), None] + [top / "site/dumps" / f"{n}.dump" for n in names]
            for x in asked:
                for with_id in (False, True):
                    key = f"folder/{model}/dumps={dumps}/{'path' if isinstance(x, Path) else x}/return_ID={with_id}"
                    try:
                        b = r.load_fit(x, return_ID=True) if with_id else r.load_fit(x)
                    except Exception as e:  # noqa: BLE001
                        res.violation(key, core.exc_text(e))
                        continue
                    want = x if isinstance(x, str) else x.stem if isinstance(x, Path) else order[x] if x is not None else None
                    if with_id:
                        b, name = b
                        expect(res, name == (want or b.ID), key + "/name", f"name {name!r} expected {want!r}")
                    if not expect(res, b.ID in names and (want is None or b.ID == want), key, f"loaded {b.ID} instead of {want}"):
                        continue
                    a = group[names.index(b.ID)]
                    pairs = [(a, b)] if not hasattr(a, "configs") else [(a.configs[n], b.configs[n]) for n in a.config_names]
                    diffs = [t for i, j in pairs for t in compare(i, j, not dumps and not isinstance(x, Path))]
                    expect(res, not diffs, key, lambda: f"{b.ID}: " + "; ".join(diffs))
                    res.evaluations += 1
            loaded = sorted(f.ID for f in r.dump_fits)
            expect(res, loaded == sorted(names), f"folder/{model}/{dumps}/dump_fits", f"{loaded}")
            if "fit_db" in r._hdf_paths and not dumps:
                r.fit_db.close()
            res.state(("folder", model, dumps, tuple(names)))
            res.traces += 1


def restored_index(a, c):
    dyn = [k + "_dyn" for k, v in a.defdict.items() if v[0] and v[2] is not None and "manual" in str(v[2])]
    if not dyn:
        return None
    if c.dataset is None:
        return "the dates of the results are lost"
    if not c.dataset.index.equals(a.dataset.index):
        return f"dates {c.dataset.index} instead of {a.dataset.index}"
    for k in dyn:
        if k not in c.dataset or list(c.dataset[k]) != list(a.dataset[k]):
            return f"column {k} is lost"
    e = same_frame(a.res_df, c.res_df, "res_df")
    return e


def run_case(case):
    res = core.Result()
    kind, model = case[:2]
    d = tempfile.mkdtemp(dir=core.SCRATCH if core.SCRATCH.exists() else None)
    try:
        if kind == "fits":
            _, _, d1, d2s, dss = case
            p1, p2 = list(G.MODELS[model].fit)[:2]
            MAN = ["runs", "text"]
            n = 0
            for d2, (sig0, dB) in itertools.product(d2s, [(False, False), (True, True)] if len(d2s) < 5 else
                                                    itertools.product((False, True), repeat=2)):
                fits = []
                dyn = {p1: d1, p2: d2}
                man = {k: MAN[i] for i, k in enumerate(dyn) if "manual" in str(dyn[k])}
                for ds in dss:
                    start = (p1,) if n % 3 == 1 else ()
                    fit, df = G.build(model, ds, dyn, sig0=sig0, dB=dB, weights=n % 2 == 0, manual=man,
                                      start=(p1,) if (len(fits), n)[1] % 2 == 1 and False else ())
                    fit.dataset = decorate(fit.dataset, len(dss) * 0 + n // len(dss))
                    fits.append(finish(fit, n))
                    n += 1
                key = f"{model}/{p1}={d1},{p2}={d2}/sig0={sig0},dB={dB}"
                for f in fits:
                    roundtrip_dump(res, f, key + "/" + f.ID, d, (True, False) if d2 in d2s[:2] else (True,))
                # the same sites with the same columns are stored in one file
                same = [f for f in fits if list(f.dataset) == list(fits[0].dataset)
                        and list(f.dataset.dtypes) == list(fits[0].dataset.dtypes)]
                if len(same) < len(fits):
                    for f in fits:
                        roundtrip_hdf(res, [f], key, d, 1)
                else:
                    roundtrip_hdf(res, fits, key, d, 1 if sig0 else 1000)
                if len(res.violations) > 6:
                    return res
        elif kind == "facet":
            from rt1.rtfits import Fits

            dd, lsq, vsrf, df = facet(model, case[2])
            fit = finish(Fits(sig0=False, dB=False, dataset=df, defdict=dd, set_V_SRF=vsrf, lsq_kwargs=lsq, int_Q=False,
                              verbose=0), 0, "site")
            key = f"{model}/{case[2]}"
            roundtrip_dump(res, fit, key, d)
            roundtrip_hdf(res, [fit], key, d, 1)
        elif kind == "int_Q":
            p1, p2 = list(G.MODELS[model].fit)[:2]
            fit, df = G.build(model, "daily", {p1: "D", p2: None}, int_Q=True)
            finish(fit, 0, "site")
            roundtrip_dump(res, fit, f"{model}/int_Q", d)
            roundtrip_hdf(res, [fit], f"{model}/int_Q", d, 1)
        elif kind == "multi":
            for n, (ds, names) in enumerate([("ragged", ("a", "b")), ("intraday", ("b2", "a1"))]):
                mf = multi(model, case[2], ds, names)
                key = f"{model}+{case[2]}/{ds}"
                roundtrip_dump(res, mf, key, d)
                mf2 = multi(model, case[2], "daily", names, ID="other")
                same = list(mf.dataset.dtypes) == list(mf2.dataset.dtypes)
                roundtrip_hdf(res, [mf, mf2] if same else [mf], key, d, 1 + n)
                for kw in [dict(save_data=False), dict(save_results=False)][n:n + 1]:
                    roundtrip_hdf(res, [mf], key, d, 1, kw)
        elif kind == "folder":
            results_folder(res, model, d)
        elif kind == "export":
            p1, p2 = list(G.MODELS[model].fit)[:2]
            dyn = {p1: ["manual", "2D", "index"][case[2]], p2: ["index", "manual", None][case[2]]}
            man = {k: "runs" for k in dyn if dyn[k] == "manual"}
            fit, df = G.build(model, "ragged", dyn, manual=man)
            finish(fit, 0, "site")
            for a, b, c, e in itertools.product((True, False), repeat=4):
                roundtrip_hdf(res, [fit], f"{model}/export{case[2]}", d, 1,
                              dict(save_results=a, save_res_df=b, save_data=c, save_auxdata=e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.sample({"case": case[:3]})
    return res


def multi(m1, m2, ds, names, ID="s-1"):
    """a multi-configuration fit of two models (with different dynamics and units of the same data)"""
    from rt1.rtfits import Fits, MultiFits

    fits = []
    cols = None
    for i, m in enumerate((m1, m2)):
        p1, p2 = list(G.MODELS[m].fit)[:2]
        dyn = {p1: [None, "manual"][i], p2: ["index", 2][i]}
        fit, df = G.build(m, ds, dyn, manual={p1: "runs"} if i else {}, int_Q=False,
                          lsq=[dict(ftol=1e-3), dict(max_nfev=5)][i])
        fits.append(fit)
        df = fit.dataset
        cols = df if cols is None else cols.assign(**{k: df[k] for k in df if k not in cols})
    mf = MultiFits(dataset=cols, aux_data=AUX, reader_arg=dict(ID=ID, x=1.5))
    for n, f in zip(names, fits):
        mf.add_config(n, f)
    mf.set_ID(ID)
    with G.capture_optimizer(G.distinct):
        for f in mf.configs:
            f.performfit()
    return mf
