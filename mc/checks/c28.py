"""C28: a results folder shows exactly the results it contains.

(tree) all small folder trees; (content) all subsets of files of one results folder; (history) all sequences of changes of the
files, re-scans, closing and reading up to a depth, with two coexisting objects that read the same folder.
"""
import gc
import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.checks import c06
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "(tree) every pair of entries of the parent-folder (all subsets of the expected sub-folders, files in place of folders, names with dots) "
    "and the parent itself being a result; (content) every subset of the listed HDF-, NetCDF-, config- and dump-files and folders with "
    "such names, accessed by name, number, path, at random and without a name; (history) all sequences of adding / replacing / removing the file with the fits and "
    "dump-files, re-scanning (and switching between file and dumps), closing and reading up to the stated depth on the real file "
    "system with two objects; after each step everything that can be read is compared to the files; state = files on disk x what has "
    "been scanned x open handle"
)
ASSUMPTIONS = [
    "folders with less than 100 entries (documented limit)",
    "between two scans an object may show the state of the last scan or the current one",
    "a random fit is drawn from the dump-files of the last scan",
]
NOTE = "Complete for the stated alphabet of files and depth of the histories."
TIMEOUT = 900


def errors(f, *a, **k):
    """(result, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except Exception as e:  # noqa: BLE001
        return None, e


# ------------------------------------------------------------------ trees
SUBS = ("cfg", "results", "dumps")


def make(path, subs, files=()):
    path.mkdir(parents=True)
    for s in subs:
        (path / s).mkdir()
    for f in files:
        (path / f).write_text("x")


def run_tree(res, case, base):
    from rt1.rtresults import RTresults

    kinds = [(s, f) for n in range(4) for s in itertools.combinations(SUBS, n) for f in ([], ["results"], ["notes.txt"]) if not set(s) & set(f)]
    for i, ((s1, f1), (s2, f2)) in enumerate(itertools.product(kinds, kinds)):
        for own in ((), SUBS, SUBS[:2]) if i % 8 == 0 else ((),):
            top = base / f"p{i}_{len(own)}"
            make(top, own, ["readme.md"])
            for name, s, f in ((case["names"][0], s1, f1), (case["names"][1], s2, f2)):
                make(top / name, s, f)
            (top / "file").write_text("x")
            key = f"{case['names']}/{s1}{f1}/{s2}{f2}/{own}"
            r, e = errors(RTresults, top if i % 2 else str(top))
            if not expect(res, e is None, key, f"{type(e).__name__}: {e}"):
                continue
            want = {top.name: top} if len(own) == 3 else {n: top / n for n, s in ((case["names"][0], s1), (case["names"][1], s2)) if len(s) == 3}
            got = [x.name for x in r]
            expect(res, sorted(got) == sorted(want), key, f"results {got} instead of {sorted(want)}")
            for n, p in want.items():
                x, e = errors(lambda: r[n])
                if expect(res, e is None and Path(x.path) == p, f"{key}/{n}", f"r[{n!r}]: {e or x.path}"):
                    y, e = errors(getattr, r, n)
                    expect(res, y is x, f"{key}/{n}", "the attribute differs from the item")
                    (p / "results" / "late.h5").write_text("")
                    x.rescan()
                    expect(res, "late" in repr(x), f"{key}/{n}", "a file is missing after a scan")
            x, e = errors(lambda: r["missing"])
            expect(res, e is not None, key, "an item that does not exist was returned")
            shown = repr(r).split("Results:")[1].split()
            expect(res, sorted(shown) == sorted(f for n in want for f in ("-", n)), key, f"shown: {shown}")
            res.evaluations += 1
            res.state((case["names"], s1, tuple(f1), s2, tuple(f2), own))
            shutil.rmtree(top)
            if len(res.violations) > 4:
                return


# ------------------------------------------------------------------ contents
def hdf(path, tag):
    pd.DataFrame(dict(v=[float(tag)]), index=pd.Index([0], name="ID")).to_hdf(path, key="layer", format="t")
    pd.DataFrame(dict(ID=[f"s{tag}"]), index=pd.Index([0], name="ID")).to_hdf(path, key="reader_arg", format="t", data_columns=["ID"])


def nc(path, tag):
    import xarray

    xarray.Dataset(dict(v=("x", [float(tag)]))).to_netcdf(path)


CFG = """
[PROCESS_SPECS]
path__save_path = .
dumpfolder = x
[CONFIGFILES]
module__processing_cfg = x.py
[fits_kwargs]
sig0 = False
[least_squares_kwargs]
[RT1_V]
V_name = HenyeyGreenstein
[RT1_SRF]
SRF_name = HG_nadirnorm
[defdict]
omega = [False, 0.{tag}]
"""

FILES = {
    "hdf": ["results/fit_db.h5", "results/out.h5", "results/out.v2.h5", "results/dir.h5/", "results/out.h5.txt"],
    "nc": ["results/x.nc", "results/y.nc", "results/z.nc/", "results/x.nc4"],
    "cfg": ["cfg/a.ini", "cfg/b.ini", "cfg/c.txt"],
    "dumps": ["dumps/s1.dump", "dumps/s2.dump", "dumps/s1_error.dump", "dumps/errors.txt", "dumps/s3.dump/", "dumps/s4.dump.bak"],
}


def subsets(x):
    return itertools.chain.from_iterable(itertools.combinations(x, n) for n in range(len(x) + 1))


def run_content(res, case, base):
    from rt1.rtresults import RTresults

    kind = case["kind"]
    fits = site_fits() if kind == "dumps" else {}
    for files in subsets(FILES[kind]):
        top = base / "error_parent"
        shutil.rmtree(top, ignore_errors=True)
        root = top / "error_run"
        make(root, SUBS)
        # (other kinds of files must not disturb)
        if kind != "hdf":
            hdf(root / "results/other.h5", 9)
        if kind != "nc":
            nc(root / "results/other.nc", 9)
        early = len(files) % 2 == 0
        r = RTresults(top).error_run if early else None
        for i, f in enumerate(files):
            p = root / f
            if f.endswith("/"):
                p.mkdir()
            elif f.endswith(".h5"):
                hdf(p, i)
            elif f.endswith(".nc"):
                nc(p, i)
            elif f.endswith(".ini"):
                p.write_text(CFG.format(tag=i + 1))
            elif f in ("dumps/s1.dump", "dumps/s2.dump"):
                fits[p.stem].dump(p, mini=True)
            else:
                p.write_text("x")
        if r is None:
            r = RTresults(top).error_run
        key = f"{kind}/{'+'.join(files)}"
        ending = {"hdf": ".h5", "nc": ".nc", "dumps": ".dump", "cfg": ".ini"}[kind]
        real = {Path(f).name[: -len(ending)]: i for i, f in enumerate(files) if f.endswith(ending)}
        globals()["look_" + kind](res, key, r, root, files, real, early)
        res.evaluations += 1
        res.state((kind, files))
        if len(res.violations) > 4:
            return


def look_files(res, key, load, names, files, value):
    """loading by name, and without a name if there is exactly one"""
    for n in names:
        x, e = errors(load, n)
        expect(res, e is None and value(x) == float(names[n]), f"{key}/{n}", lambda: f"loading {n!r}: {e or value(x)} instead of {names[n]}")
    x, e = errors(load)
    if len(names) == 1:
        expect(res, e is None and value(x) == float(list(names.values())[0]), key + "/default", lambda: f"{e or value(x)} instead of {names}")
    else:
        expect(res, e is not None, key + "/default", f"one of {sorted(names)} has been loaded without a name")
    for n in ("missing", "dir", "z", "s3"):
        x, e = errors(load, n)
        expect(res, e is not None, key + "/" + n, "a file that does not exist has been loaded")


def look_hdf(res, key, r, root, files, real, early):
    def value(x):
        v = float(x.datasets.layer.select().v.iloc[0])
        x.close()
        return v

    names = real
    look_files(res, key, r.load_hdf, names, files, value)
    if early:
        r.rescan()
    shown = [x.split()[1] for x in repr(r).split("HDF5 files:")[1].strip().split("\n")] if "HDF5" in repr(r) else []
    expect(res, sorted(shown) == sorted(names), key + "/repr", f"shown {shown} instead of {sorted(names)}")
    if "fit_db" in names:
        expect(res, value(r.fit_db) == names["fit_db"], key + "/fit_db", "fit_db is another file")
        expect(res, list(r.dump_files) == [f"s{names['fit_db']}"] == list(r), key + "/IDs", lambda: f"{list(r.dump_files)}")
    else:
        x, e = errors(lambda: r.fit_db)
        expect(res, e is not None, key + "/fit_db", "there is no fit_db")


def look_nc(res, key, r, root, files, real, early):
    import contextlib
    import io

    def value(x):
        with x as f:
            return float(f.v.values[0])

    names = real
    look_files(res, key, r.load_nc, names, files, value)
    if early:
        r.rescan()
    part = repr(r).split("HDF5 files:")[0]
    shown = [x.split()[1] for x in part.split("NetCDF files:")[1].strip().split("\n")] if "NetCDF" in part else []
    expect(res, sorted(shown) == sorted(names), key + "/repr", f"shown {shown} instead of {sorted(names)}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        x, e = errors(lambda: r.NetCDF_variables)
    expect(res, (e is None) == bool(names), key + "/variables", f"{e}")
    expect(res, all(f"{n}.nc" in out.getvalue() for n in names), key + "/variables", "a file is missing in the list of variables")


def look_cfg(res, key, r, root, files, real, early):
    names = {f"{n}.ini": i + 1 for n, i in real.items()}

    def value(x):
        return float(x.get_config()["defdict"]["omega"][1]) * 10

    for n in names:
        x, e = errors(r.load_cfg, n)
        expect(res, e is None and round(value(x)) == names[n], f"{key}/{n}", lambda: f"config {n}: {e or value(x)} instead of {names[n]}")
    x, e = errors(r.load_cfg)
    if len(names) == 1:
        expect(res, e is None and round(value(x)) == list(names.values())[0], key, lambda: f"{e or value(x)} instead of {names}")
    else:
        expect(res, e is not None, key, f"one of {sorted(names)} has been loaded without a name")


def look_dumps(res, key, r, root, files, real, early):
    names = sorted(k for k, v in real.items() if files[v] in ("dumps/s1.dump", "dumps/s2.dump"))
    r.rescan(use_dumps=True)
    check_dumps(res, key, r, root, names)


def check_dumps(res, key, r, root, names, draw=True):
    got = [Path(x) for x in r.dump_files]
    if not expect(res, sorted(got) == [root / "dumps" / f"{n}.dump" for n in names], key + "/files", f"dump-files {[x.name for x in got]} instead of {names}"):
        return
    expect(res, [Path(x) for x in r] == got, key + "/iter", "iteration returns other files")
    for n in names:
        for x in (n, n + ".dump", root / "dumps" / f"{n}.dump", [p.stem for p in got].index(n)):
            f, e = errors(r.load_fit, x, return_ID=True)
            expect(res, e is None and f[0].ID == n and f[1] == n, f"{key}/{x}", lambda: f"{e or (f[0].ID, f[1])} instead of {n}")
    expect(res, sorted(f.ID for f in r.dump_fits) == names, key + "/fits", "dump_fits does not return all fits")
    f, e = errors(r.load_fit, len(names))
    expect(res, f is None, f"{key}/{len(names)}", "a fit beyond the last one is returned")
    if not draw:
        return
    drawn = set()
    for seed in range(8):
        np.random.seed(seed)
        f, e = errors(r.load_fit, None, return_ID=True)
        if not expect(res, (e is None and f[0].ID in names and f[1] == f[0].ID) if names else f is None, key + "/random", lambda: f"{e or f[1]} of {names}"):
            return
        drawn.add(f and f[1])
    expect(res, drawn == set(names or [None]), key + "/random", f"only {drawn} of {names} are drawn")


_FITS = {}


def site_fits():
    if not _FITS:
        for i, n in enumerate(("s1", "s2", "s3")):
            fit, _ = G.build(list(G.MODELS)[0], "daily", {list(G.MODELS[list(G.MODELS)[0]].fit)[0]: None})
            fit.dataset = fit.dataset.assign(sig=fit.dataset.sig + 0.01 * i)
            _FITS[n] = c06.finish(fit, i, n, aux=False)
    return _FITS


# ------------------------------------------------------------------ histories
STORES = {"v1": ("s1",), "v2": ("s2", "s3"), "v3": ("s1", "s2")}
OPS = ["db-v1", "db-v2", "db-rm", "dump-s1", "dump-s3", "dump-rm", "scan", "scan-dumps", "scan-db", "close", "read", "other-scan", "draw"]
QUICK_OPS = ["db-v2", "db-rm", "dump-s1", "scan", "scan-dumps", "close", "read", "other-scan"]
DUMP_OPS = ["dump-s1", "dump-s3", "dump-rm", "scan", "scan-dumps", "scan-db", "read", "draw"]


def run_history(res, case, base):
    from rt1.rtresults import RTresults

    fits = site_fits()
    src = base / "src"
    src.mkdir()
    for v, names in STORES.items():
        d = src / v
        d.mkdir()
        c06.store([fits[n] for n in names], d, 1)
    for n in ("s1", "s3"):
        fits[n].dump(src / f"{n}.dump", mini=True)
    loaded = set()
    gc.collect()
    gc.freeze()  # (the stores collect garbage whenever they are closed)
    value = {n: float(f.dataset.sig.iloc[0]) for n, f in fits.items()}
    for k, rest in enumerate(itertools.product(case["ops"], repeat=case["depth"] - 1)):
        hist = (case["first"], *rest)
        top = base / f"h{k}"
        root = top / "run"
        make(root, SUBS)
        start = case["start"]
        disk = {"db": start if start in STORES else None, "dumps": {start} & set(fits)}
        if disk["db"]:
            shutil.copy(src / disk["db"] / "fit_db.h5", root / "results/fit_db.h5")
        for n in disk["dumps"]:
            shutil.copy(src / f"{n}.dump", root / "dumps")
        dumps = bool(disk["dumps"])
        a, b = (RTresults(top, use_dumps=dumps).run for _ in range(2))
        # what the object has seen: is there a file, contents that may be shown
        seen = {x: dict(known=bool(disk["db"]), db={disk["db"]}, dumps=dumps, drawn=None) for x in "ab"}
        key = f"{case['start']}/" + "/".join(hist)
        for i, op in enumerate(hist):
            o, _, arg = op.partition("-")
            key_i = f"{key}@{i}"
            if o == "db":
                if arg == "rm":
                    if disk["db"]:
                        os.remove(root / "results/fit_db.h5")
                    disk["db"] = None
                else:
                    shutil.copy(src / arg / "fit_db.h5", root / "results/new")
                    os.replace(root / "results/new", root / "results/fit_db.h5")
                    disk["db"] = arg
                for s in seen.values():
                    s["db"] = s["db"] | {disk["db"]}
            elif o == "dump":
                if arg == "rm":
                    for n in list(disk["dumps"]):
                        os.remove(root / f"dumps/{n}.dump")
                    disk["dumps"] = set()
                else:
                    shutil.copy(src / f"{arg}.dump", root / "dumps")
                    disk["dumps"].add(arg)
            elif o == "scan" or o == "other":
                x, r = ("a", a) if o == "scan" else ("b", b)
                kw = {} if not arg or o == "other" else dict(use_dumps=arg == "dumps")
                _, e = errors(r.rescan, **kw)
                expect(res, e is None, key_i, f"scan: {e}")
                seen[x].update(known=bool(disk["db"]), db={disk["db"]}, dumps=kw.get("use_dumps", seen[x]["dumps"]), drawn=None)
            elif o == "close":
                if not seen["a"]["dumps"]:
                    db, e = errors(lambda: a.fit_db)
                    if e is None:
                        db.close()
            elif o == "draw" and seen["a"]["dumps"]:
                # (a random dump-file of the last scan, see ASSUMPTIONS)
                if seen["a"]["drawn"] is None:
                    seen["a"]["drawn"] = set(disk["dumps"])
                f, e = errors(a.load_fit)
                avail = seen["a"]["drawn"]
                ok = e is None and f.ID in avail if avail & disk["dumps"] == avail and avail else True
                expect(res, ok, key_i, lambda: f"random fit of {sorted(avail)}: {e or f.ID}")
            last = i == len(hist) - 1
            now = (disk["db"], tuple(sorted(disk["dumps"])), str(sorted((k, str(sorted(map(str, v["db"]))), v["known"], v["dumps"], str(v["drawn"])) for k, v in seen.items())))
            if o == "read" or last:
                # (fits are loaded once per state and kind of the last steps)
                load = last and (now, hist[-case["load"]:]) not in loaded
                if last:
                    loaded.add((now, hist[-case["load"]:]))
                for x, r in (("a", a), ("b", b)):
                    s = seen[x]
                    if s["dumps"]:
                        names = sorted(disk["dumps"])
                        got, e = errors(lambda: sorted(Path(p).stem for p in r.dump_files))
                        expect(res, got == names, f"{key_i}/{x}", f"{e or got} instead of {names}")
                        for n in names if load else ():
                            f, e = errors(r.load_fit, n)
                            expect(res, e is None and f.ID == n, f"{key_i}/{x}/{n}", lambda: f"{e or f.ID} instead of {n}")
                        if s["drawn"] is None and names:
                            s["drawn"], drawn = set(names), set()
                            for seed in range(8):
                                np.random.seed(seed)
                                f, e = errors(r.load_fit)
                                drawn.add(str(e) if e else f.ID)
                                if drawn == s["drawn"]:
                                    break
                            expect(res, drawn == s["drawn"], f"{key_i}/{x}/random", f"only {drawn} of {names} are drawn after a scan")
                        continue
                    got, e = errors(lambda: list(r.dump_files))
                    allowed = [list(STORES[v]) for v in s["db"] if v]
                    # (without a new scan it may not yet be known that there is a file)
                    may_fail = not s["known"] or None in s["db"]
                    if e is not None:
                        expect(res, may_fail, f"{key_i}/{x}", f"reading fails: {type(e).__name__}: {e}")
                        continue
                    if not expect(res, sorted(got) in [sorted(v) for v in allowed], f"{key_i}/{x}", f"fits {got} but the file contains {allowed}"):
                        continue
                    for n in got if load else ():
                        f, e = errors(r.load_fit, n)
                        # (the file might be opened again)
                        there = disk["db"] and n in STORES[disk["db"]]
                        if e is not None or f is None:
                            expect(res, may_fail or not there, f"{key_i}/{x}/{n}", f"{n} can not be loaded: {e}")
                        else:
                            expect(res, f.ID == n and float(f.dataset.sig.iloc[0]) == value[n], f"{key_i}/{x}/{n}", lambda: f"loaded {f.ID} instead of {n}")
                    if len(s["db"]) == 1:
                        expect(res, len(got) == len(STORES[disk["db"]]), f"{key_i}/{x}", "number of fits")
            res.transitions += 1
            res.state(now)
        for r in (a, b):
            errors(lambda: r.rescan())
        res.evaluations += 1
        res.traces += 1
        shutil.rmtree(top)
        if len(res.violations) > 4:
            return


# ------------------------------------------------------------------ cases
def cases(tier, seed):
    out = []
    thorough = tier == "thorough"
    for start, ops, depth in (
        ("v3", QUICK_OPS, 4 if thorough else 3),
        ("v3", OPS, 3 if thorough else 0),
        (None, OPS, 4 if thorough else 3),
        ("s1", DUMP_OPS, 4 if thorough else 3),
    ):
        for op in ops if depth else ():
            out.append(dict(group="history", start=start, first=op, ops=ops, depth=depth, load=2 if thorough else 1))
    for names in (["a", "b"], ["res.v1", "res.v2"], ["sub_1", "1x"]):
        out.append(dict(group="tree", names=names))
    for kind in FILES:
        out.append(dict(group="content", kind=kind))
    return out


def run_case(case):
    core.SCRATCH.mkdir(parents=True, exist_ok=True)
    base = Path(tempfile.mkdtemp(dir=core.SCRATCH)).resolve()
    res = core.Result()
    try:
        G.memo_lambdify()
        globals()["run_" + case["group"]](res, case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res
