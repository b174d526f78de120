"""C21: export of parameters, model contributions, metrics and custom functions.

All selections of quantities (up to the stated size, and all of them) x units x configurations x orders of fits: the
function that export_data_to_HDF() applies to every site is executed on real, fitted objects, and its layers are compared
with the quantities of a directly fitted object.  Whole exports (set-up, loading of the fits, post-processing, assignment to
configurations) run with a sequential stand-in of the writer (the writer itself is the subject of C01-C04), and with the
real one.
"""
import contextlib
import itertools
import multiprocessing
import shutil
import tempfile
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path

import cloudpickle
import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.checks import c06, c12, c22
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all subsets of the exportable quantities with up to 2 elements (thorough: 3) plus all and all but one, x all units x "
    "with/without metrics, applied by the same export to all orders of 2 (thorough: 3) different fits, for every kind of fit; all "
    "ways to select configurations; all sequences of exports and processing runs up to the stated length"
)
ASSUMPTIONS = ["values of a parameter are unique for each date", "the optimiser result is arbitrary but fixed"]
NOTE = "Complete for the stated pool of quantities and size of the selections."
TIMEOUT = 900

SITES = ("A", "B", "C")
POOL = ("sig", "inc", "extra", "tau", "omega", "N", "lon", "tot", "surf", "vol", "inter", "fser", "fdates", "fdf", "fsta", "unknown")
VARIANTS = {
    "single": {},
    "dB": {"fits_kwargs": {"dB": "True"}},
    "sig0": {"fits_kwargs": {"sig0": "True"}},
    "int_Q": {"fits_kwargs": {"int_Q": "True"}},
    "dyn": {"defdict": {"tau": "[True, 0.5, manual, 0.01, 1.5]", "N": "[False, auxiliary]"}},
    "multi": {
        "#config a defdict": {"omega": "[False, 0.2]"},
        "#config b fits_kwargs": {"dB": "False", "int_Q": "True"},
    },
}


# ------------------------------------------------------------------ custom functions
def fser(fit):
    return 3.0 * fit.dataset.sig


def fdates(fit):
    d = fit.dataset.index.unique()
    return pd.Series([1.0, 2.0], [d[0], d[-1] + pd.Timedelta(days=5)])


def fdf(fit):
    return pd.DataFrame(dict(x=fit.dataset.inc * 2, y=fit.dataset.inc * 3))


def fsta(fit):
    return float(fit.dataset.sig.sum())


def funique(fit):
    return len(fit.dataset.sig.unique())


FUNCS = dict(fser=fser, fdates=fdates, fdf=fdf, fsta=fsta)
OVERRIDE = dict(FUNCS, sig=fser, tot=fser, omega=fsta, tau=fdates)
METRICS = dict(R=("pearson", "sig", "tot"), fsta=("rmsd", "sig", "vol"), X="custom")


# ------------------------------------------------------------------ the fits
def store(path):
    c06.store(TABLE, path, 2)


def setup(base, variant):
    """config-file, the stored fits (loaded from a container written by the real writer), directly fitted objects"""
    from rt1.rtparse import RT1_configparser
    from rt1.rtprocess import RTprocess
    from rt1.rtresults import RTresults

    c22.VARIANTS["c21/" + variant] = VARIANTS[variant]
    path = c22.config("c21/" + variant, base)
    with c12.environment():
        p = RTprocess(path, autocontinue=True)
        p.setup()
    direct = {}
    for i, site in enumerate(SITES):
        fit = RT1_configparser(path).get_fitobject()
        df, aux = c22.site_data(site)
        df = df.assign(extra=np.arange(len(df)) + 0.25 * i)
        if variant == "dyn":  # (one value of a manual parameter for each date)
            df["tau_dyn"] = df.groupby(df.index).tau_dyn.transform("first")
        if variant == "dB":
            df["sig"] = 10 * np.log10(df["sig"])
        arg = dict(ID=f"s_{site}", n=i, lon=10.5 + i)
        if variant == "multi":
            fit.set_dataset(df)
            fit.set_aux_data(aux)
            fit.set_reader_arg(arg)
            fit.set_ID(arg["ID"])
            for f in fit.accessor.config_fits.values():
                f.performfit()
        else:
            fit.dataset, fit.aux_data, fit.reader_arg, fit.ID = df, aux, arg, arg["ID"]
            fit.performfit()
        direct[arg["ID"]] = fit
    results = base / "out/dump/results"
    # (in another process since it replaces the primitives of multiprocessing)
    with ProcessPoolExecutor(1, mp_context=multiprocessing.get_context("fork"), initializer=globals().update,
                             initargs=(dict(TABLE=list(direct.values())),)) as ex:
        ex.submit(store, results).result()
    res = RTresults(base / "out/dump")
    loaded = {i: res.dump.load_fit(i) for i in direct}
    res.dump.fit_db.close()
    return path, p, direct, loaded


def configs(fit):
    return dict(fit.accessor.config_fits) if hasattr(fit, "configs") else {"default": fit}


# ------------------------------------------------------------------ reference
def to_dB(x):
    with np.errstate(all="ignore"):
        return 10.0 * np.log10(x)


def expected(fit, params, funcs, metrics, dB, deg):
    """{column: Series}, {static: value}, {metric: value}"""
    ser, sta, met = {}, {}, {}
    conv = (lambda x: to_dB(x)) if dB and not fit.dB else (lambda x: x)
    for k in params:
        if k in funcs:
            v = funcs[k](fit)
            if isinstance(v, (int, float)):
                sta[k] = v
            elif isinstance(v, pd.DataFrame):
                ser.update({c: v[c] for c in v})
            else:
                ser[k] = v
        elif k in ("tot", "surf", "vol", "inter"):
            m = fit.calc_model(return_components=True)
            if k in m:
                ser[k] = conv(m[k])
        elif k == "sig":
            ser[k] = conv(fit.dataset.sig)
        elif k == "inc":
            ser[k] = fit.dataset.inc * (180.0 / np.pi) if deg else fit.dataset.inc
        elif k in fit.defdict:
            d = list(fit.defdict[k])
            if d[0] is True and d[2] is not None:
                ser[k] = fit.res_df[k]
            elif d[0] is True:
                sta[k] = fit.res_dict[k][0]
            elif d[1] == "auxiliary":
                ser[k] = fit.dataset[k]
            else:
                sta[k] = d[1]
        elif k == "extra":
            ser[k] = fit.dataset.extra
        elif k == "lon":
            sta[k] = fit.reader_arg["lon"]
    for name, d in (metrics or {}).items():
        if d == "custom":
            met[name] = funcs_metric(fit)
            continue
        x, y = fit.dataset.sig.values, fit.calc_model(return_components=True)[d[2]].sort_index(kind="stable").values
        met[name] = np.corrcoef(x, y)[0, 1] if d[0] == "pearson" else np.sqrt(np.mean((x - y) ** 2))
    return ser, sta, met


funcs_metric = funique


def close(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-7, atol=1e-10, equal_nan=True)


def check_layers(res, key, layers, num, exp):
    """one configuration of one site"""
    ser, sta, met = exp
    want = [k for k, v in (("dynamic", ser), ("static", sta), ("metrics", met)) if v]
    if not expect(res, sorted(layers) == sorted(want), key + "/layers", lambda: f"layers {sorted(layers)} expected {want}"):
        return
    for name, vals in (("static", sta), ("metrics", met)):
        if not vals:
            continue
        df = layers[name]
        if not expect(res, set(df) == set(vals), f"{key}/{name}", lambda: f"{name}: {sorted(df)} expected {sorted(vals)}"):
            continue
        expect(res, list(df.index) == [num] and df.index.name == "ID", f"{key}/{name}/index", lambda: f"{name}: index {df.index}")
        bad = {k: (df[k].iloc[0], vals[k]) for k in vals if not close(df[k].iloc[0], vals[k])}
        expect(res, not bad, f"{key}/{name}/value", lambda: f"{name}: (stored, expected) {bad}")
    if not ser:
        return
    df = layers["dynamic"]
    if not expect(res, set(df) == set(ser) and df.shape[1] == len(ser), f"{key}/dynamic", lambda: f"dynamic: {list(df)} expected {list(ser)}"):
        return
    expect(res, list(df.index.names) == ["ID", "date"] and set(df.index.get_level_values(0)) == {num}, f"{key}/index",
           lambda: f"index {df.index.names} {set(df.index.get_level_values(0))}")
    count = {}
    for s in ser.values():
        for d, n in s.index.value_counts().items():
            count[d] = max(count.get(d, 0), n)
    got = df.index.get_level_values(1).value_counts().to_dict()
    if not expect(res, got == count, f"{key}/dates", lambda: f"dates {got} expected {count}"):
        return
    dates = df.index.get_level_values(1)
    for k, s in ser.items():
        for d, n in count.items():
            g = df[k].values[dates == d]
            w = s[s.index == d].values
            w = [np.nan] * n if len(w) == 0 else np.repeat(w, n) if len(w) == 1 and s.index.is_unique else [*w, *([np.nan] * (n - len(w)))]
            if not expect(res, close(g, w), f"{key}/values/{k}", lambda: f"{k} at {d}: {list(g)} expected {list(w)}"):
                return


# ------------------------------------------------------------------ cases
def case_key(c):
    return "/".join(str(v) for k, v in c.items() if k not in ("tier",))


def selections(tier):
    size = 2 if tier == "quick" else 3
    out = [c for n in range(1, size + 1) for c in itertools.combinations(POOL, n)]
    return out + [POOL] + [tuple(x for x in POOL if x != y) for y in POOL]


def cases(tier, seed):
    out = []
    for v in VARIANTS:
        n = len(selections(tier))
        chunk = 80 if tier == "quick" else 120
        for i in range(0, n, chunk):
            out.append(dict(group="select", variant=v, part=[i, i + chunk], tier=tier))
        out.append(dict(group="override", variant=v, tier=tier))
        for h in itertools.product(("all", "some", "final", "process"), repeat=2 if tier == "quick" else 3):
            out.append(dict(group="whole", variant=v, history=h))
    out.append(dict(group="configs"))
    out.append(dict(group="folder"))
    for v in ("int_Q", "multi") if tier == "quick" else VARIANTS:
        out.insert(0, dict(group="real", variant=v))
    return out


def run_case(case):
    res = core.Result()
    base = Path(tempfile.mkdtemp(dir=core.SCRATCH)).resolve()
    try:
        G.memo_lambdify()
        globals()["run_" + case["group"]](res, case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def captured(p, **kw):
    """the function that the export applies to every fit"""
    from rt1.rtresults import RTresults

    cls = RTresults._RT1_fitresult

    got = {}
    orig = cls.load_fit

    def load_fit(self, *a, **k):  # a fresh copy of the fit, without reading the (unchanged) file each time
        key = (id(p), a, str(k))
        if key not in COPIES:
            COPIES[key] = cloudpickle.dumps(orig(self, *a, **k))
        return cloudpickle.loads(COPIES[key])

    p.run_finaloutput = lambda *a, **k: got.update(k)
    cls.load_fit = load_fit
    try:
        with c12.environment():
            p.export_data_to_HDF(**kw)
    finally:
        del p.run_finaloutput
        cls.load_fit = orig
    return got["postprocess"]


COPIES = {}


UNITS = tuple(itertools.product((False, True), repeat=2))


def compare_orders(res, key, case, p, direct, loaded, params, funcs, metrics, units, cache, orders):
    for order in orders:
        given = dict(parameters=list(params), metrics=metrics, export_functions=None if funcs is None else dict(funcs))
        f = captured(p, sig_to_dB=units[0], inc_to_degree=units[1], **given)
        for i, ID in enumerate(order):
            for name, fit in configs(loaded[ID]).items():
                fit._RT1_ID_num = 7 + i
                k = f"{key}/{'-'.join(params)}/{units}/{'-'.join(order[: i + 1])}/{name}"
                try:
                    layers = f(fit=fit)
                except Exception as e:  # noqa: BLE001
                    res.violation(k + "/error", core.exc_text(e))
                    continue
                ck = (ID, name, params, units, funcs is OVERRIDE, metrics is None)
                if ck not in cache:
                    cache[ck] = expected(configs(direct[ID])[name], params, funcs or {}, metrics, *units)
                check_layers(res, k, layers, 7 + i, cache[ck])
                res.evaluations += 1
                res.transitions += 1
        expect(res, given["parameters"] == list(params), key + "/arguments", "the list of parameters was changed")
        res.traces += 1
        if len(res.violations) > 4:
            return
    res.state((key, params, units, metrics is None))


def run_select(res, case, base):
    path, p, direct, loaded = setup(base, case["variant"])
    ids = list(direct)
    sel = selections(case["tier"])[slice(*case["part"])]
    orders = [(ids[0], ids[1]), (ids[1], ids[0]), (ids[2], ids[0])] if case["tier"] == "quick" else list(itertools.permutations(ids))
    for params in sel:
        cache = {}
        for j, units in enumerate(UNITS):
            metrics = {**METRICS} if (len(params) + j) % 2 else None
            funcs = {**FUNCS, "X": funcs_metric}
            # (small selections in all orders, the others in alternating ones)
            o = orders if len(params) < 2 or case["tier"] != "quick" else [orders[(j + len(params[0])) % len(orders)]]
            compare_orders(res, case["variant"], case, p, direct, loaded, params, funcs, metrics, units, cache, o)
            if len(res.violations) > 4:
                return


def run_override(res, case, base):
    """custom functions have precedence over the default ones"""
    path, p, direct, loaded = setup(base, case["variant"])
    ids = list(direct)
    names = ("sig", "tot", "omega", "tau", "inc", "surf")
    cache = {}
    for n in (1, 2, 3):
        for params in itertools.combinations(names, n):
            for units in ((False, False), (True, True)):
                compare_orders(res, case["variant"] + "/override", case, p, direct, loaded, params, OVERRIDE, None, units, cache, [ids])
            # no functions at all
            compare_orders(res, case["variant"] + "/nofunc", case, p, direct, loaded, params, None, None, (False, False), {}, [ids[::-1]])


# ------------------------------------------------------------------ whole exports
@contextlib.contextmanager
def sequential_writer():
    """a stand-in of the writer: {path: [(ID_num, returned layers)]}, evaluated one after another in this process"""
    import rt1.rtprocess as R

    out = {}

    class Processor:
        def __init__(self, dst):
            self.dst = dst

        def run_starmap(self, arg_list=None, reader_func=None, process_func=None, pool_kwargs=None, starmap_args=None, ID_getter=None):
            ret = []
            rows = zip(*(starmap_args or [])) if starmap_args else itertools.repeat(())
            for i, (arg, extra) in enumerate(zip(arg_list, rows)):
                arg = {**arg, "_RT1_ID_num": i + 5}
                x = reader_func(arg) if reader_func else arg
                ret.append((i + 5, arg, None if x is None else process_func(x, *extra)))
            out.setdefault(str(self.dst), []).append(ret)
            return ret

        @staticmethod
        @contextlib.contextmanager
        def writer_pool(*a, dst_path=None, **k):
            yield Processor(dst_path)

        @staticmethod
        def create_index(*a, **k):
            return None

    orig, R.RT1_processor = R.RT1_processor, Processor
    try:
        yield out
    finally:
        R.RT1_processor = orig


def check_output(res, key, ret, direct, want, exp):
    """want: the configurations of every site"""
    if not expect(res, ret is not None and len(ret) == len(direct), key + "/sites", lambda: f"{ret and len(ret)} sites"):
        return
    for num, arg, layers in ret:
        fit = direct[arg["ID"]]
        k = f"{key}/{arg['ID']}"
        if not expect(res, layers is not None, k + "/missing", "nothing was exported"):
            continue
        layers = dict(layers)
        ra = layers.pop("const__reader_arg", None)
        if expect(res, ra is not None, k + "/reader_arg", "no reader_arg"):
            expect(res, all(ra[c].iloc[0] == v for c, v in fit.reader_arg.items()) and list(ra.index) == [num], k + "/reader_arg",
                   lambda: f"reader_arg {ra}")
        cfgs = configs(fit)
        names = list(cfgs) if want is None else want
        expect(res, list(layers) == names, k + "/configs", lambda: f"configs {list(layers)} expected {names}")
        for name in names:
            if name in layers:
                check_layers(res, f"{k}/{name}", layers[name], num, exp(cfgs[name]))
    res.evaluations += 1
    res.traces += 1


SELECT = dict(all=POOL, some=("omega", "tot", "sig", "fsta", "lon"))


def run_whole(res, case, base):
    path, p, direct, loaded = setup(base, case["variant"])
    for i, op in enumerate(case["history"]):
        key = f"{case['variant']}/{'-'.join(case['history'][: i + 1])}"
        units = UNITS[(i + len(op)) % 4]
        with c12.environment(), sequential_writer() as out:
            if op in SELECT:
                ret = p.export_data_to_HDF(
                    parameters=list(SELECT[op]), metrics=dict(METRICS), export_functions={**FUNCS, "X": funcs_metric},
                    sig_to_dB=units[0], inc_to_degree=units[1], logfile_level=None, pre_evaluate_fn_coefs=bool(i % 2), finalout_name=f"f{i}.h5")
                dst = base / f"out/dump/results/f{i}.h5"
                check_output(res, key, ret, direct, None,
                             lambda f: expected(f, SELECT[op], FUNCS, METRICS, *units))
            elif op == "final":
                ret = p.run_finaloutput(logfile_level=None, postprocess=lambda fit: dict(static=pd.DataFrame(
                    dict(v=fsta(fit)), pd.Index([fit._RT1_ID_num], name="ID"))), finalout_name="g.h5")
                dst = base / "out/dump/results/g.h5"
                check_output(res, key, ret, direct, None, lambda f: ({}, dict(v=fsta(f)), {}))
            else:
                p.run_processing(reader_args=[dict(ID="new", site="B")], logfile_level=None)
                dst = base / "out/dump/results/fit_db.h5"
        expect(res, list(out) == [str(dst)], key + "/path", lambda: f"written to {list(out)} expected {dst}")
        res.transitions += 1
        res.state((case["variant"], case["history"][: i + 1]))


def run_configs(res, case, base):
    """selection of the configurations of a multi-config fit"""
    path, p, direct, loaded = setup(base, "multi")
    for use, want in ((None, ["a", "b"]), ("a", ["a"]), ("b", ["b"]), (["b"], ["b"]), (["b", "a"], ["b", "a"]), (["a", "b"], ["a", "b"])):
        for units in UNITS:
            with c12.environment(), sequential_writer():
                ret = p.export_data_to_HDF(parameters=list(SELECT["some"]), export_functions=dict(FUNCS), use_config=use,
                                           sig_to_dB=units[0], inc_to_degree=units[1], logfile_level=None)
            check_output(res, f"configs/{use}/{units}", ret, direct, want, lambda f: expected(f, SELECT["some"], FUNCS, None, *units))
            res.state((str(use), units))
            res.transitions += 1
    # the return of the function is used directly
    for explicit in (True, False):
        def post(fit):
            return dict(a=dict(static=pd.DataFrame(dict(v=[len(fit.config_names)]), pd.Index([fit._RT1_ID_num], name="ID"))))

        with c12.environment(), sequential_writer():
            p.setup()
            cls, _ = type(p.proc_cls), None
            p._proc_cls = p.proc_cls
            p._proc_cls.postprocess = post
            ret = p.run_finaloutput(use_config="from_postprocess", postprocess=post if explicit else None, logfile_level=None)
        check_output(res, f"configs/from_postprocess/{explicit}", ret, direct, ["a"], lambda f: ({}, dict(v=2), {}))
        res.state(("from_postprocess", explicit))


def run_folder(res, case, base):
    """the exported folder is the one that is set up by the overrides; a number of files can be selected"""
    from rt1.rtprocess import RTprocess

    path, p, direct, loaded = setup(base, "single")
    shutil.copytree(base / "out/dump", base / "out/v1.0")
    params = SELECT["some"]
    for n in (None, 1, 2):
        for how in ("same", "init", "override", "override_after"):
            with c12.environment(), sequential_writer() as out:
                if how == "init":
                    q = RTprocess(path, autocontinue=True, init_kwargs=dict(PROCESS_SPECS=dict(dumpfolder="v1.0")))
                else:
                    q = RTprocess(path, autocontinue=True)
                if how == "override_after":
                    q.setup()
                if how.startswith("override"):
                    q.override_config(PROCESS_SPECS=dict(dumpfolder="v1.0"))
                ret = q.export_data_to_HDF(parameters=list(params), export_functions=dict(FUNCS), logfile_level=None, use_nfiles=n)
            folder = "dump" if how == "same" else "v1.0"
            key = f"folder/{n}/{how}"
            expect(res, list(out) == [str(base / f"out/{folder}/results/out.h5")], key + "/path", lambda: f"written to {list(out)}")
            some = {a["ID"]: direct[a["ID"]] for _, a, _ in ret or []}
            expect(res, len(some) == (n or len(direct)), key + "/number", lambda: f"{len(some)} sites exported")
            check_output(res, key, ret, some, None, lambda f: expected(f, params, FUNCS, None, False, False))
            res.state(key)
            res.transitions += 1


def run_real(res, case, base):
    """one export with the real writer"""
    path, p, direct, loaded = setup(base, case["variant"])
    with c12.environment():
        p.export_data_to_HDF(parameters=list(POOL), metrics=dict(METRICS), export_functions={**FUNCS, "X": funcs_metric},
                             sig_to_dB=True, inc_to_degree=True, logfile_level=None, ncpu=2)
    with pd.HDFStore(base / "out/dump/results/out.h5", "r") as s:
        stored = {k.strip("/"): s[k] for k in s.keys()}
    ids = stored.pop("reader_arg")
    expect(res, sorted(ids.ID) == sorted(direct), "real/ids", lambda: f"{list(ids.ID)}")
    for ID, fit in direct.items():
        if ID not in set(ids.ID):
            continue
        num = ids.index[ids.ID == ID][0]
        for name, f in configs(fit).items():
            layers = {}
            for k, df in stored.items():
                c, layer = k.split("/")
                if c == name:
                    layers[layer] = df.loc[[i == num for i in df.index.get_level_values("ID")]]
            check_layers(res, f"real/{case['variant']}/{ID}/{name}", layers, num, expected(f, POOL, FUNCS, METRICS, True, True))
        res.evaluations += 1
        res.traces += 1
        res.transitions += 1
        res.state((case["variant"], ID))
