"""C04: repeated / interrupted runs complete the results file, every site once under one number.

Explicit state exploration on real HDF files: the transition is one complete run of the real
RT1_processor (executed under the controlled scheduler), the state is the content of the file.
"""
import itertools
import shutil
from pathlib import Path

import numpy as np
import pandas as pd

from mc import core, pipeline as P

LEVEL = "model_checking"
RULE = (
    "one transition = one complete run of the real pipeline into a real results file; (a) every reachable kind of "
    "store (<= 3 sites, every assignment of numbers 0..m) x every ordered site list x failing site, (b) all histories of "
    "2-3 such runs from an empty folder, (c) SIGTERM at every operation of the main process followed by a clean run, (d) all histories of runs with own names of the sites; "
    "states = distinct contents (site -> number) of the file reached"
)
ASSUMPTIONS = [
    "default schedules (all schedules of a single run: C01/C02)",
    "a site is requested at most once per run",
    "killing the processes (SIGKILL, power loss) in the middle of an HDF write is outside",
]
NOTE = "Complete for the stated universe of 3 sites; SIGKILL/power loss during an HDF write is outside."
TIMEOUT = 600
U = ["a1", "7", "a10"]  # 7 is not an identifier: stored under the name RT1_7


def name(s):
    return s if s.isidentifier() else f"RT1_{s}"


def getter(a):
    return name(a["ID"])


class Job:
    calls = []
    args = []

    def __init__(self, bad=(), dur=0.0):
        self.bad, self.dur = set(bad), dur

    def reader(self, arg):
        return arg

    def process(self, arg, *a):
        s = P.sched.sch()
        if self.dur and s is not None:
            s.op(lambda: False, "compute poll", timeout=self.dur)
        Job.calls.append(arg["ID"])
        Job.args.append(a)
        if arg["ID"] in self.bad:
            raise P.SiteError(arg["ID"])
        return payload(arg["ID"], arg["_RT1_ID_num"])


DATES = pd.date_range("2020-01-01", periods=3)


def payload(site, num):
    i = U.index(site)
    n = i + 1
    ra = pd.DataFrame({"ID": [site], "v": [i * 1.5]}, index=pd.Index([num], name="ID"))
    dyn = pd.DataFrame({"v": np.arange(n) + 10.0 * i},
                       index=pd.MultiIndex.from_product([[num], DATES[:n]], names=["ID", "date"]))
    st = pd.DataFrame({"q": [i * 2.0]}, index=pd.Index([num], name="ID"))
    return {"const__reader_arg": ra, "A": {"dynamic": dyn, "static": st}, "B": {"dynamic": dyn + 0.5}}


def norm(key, df):
    out = []
    for ix, vals in zip(df.index, df.itertuples(index=False, name=None)):
        ix = ix if isinstance(ix, tuple) else (ix,)
        out.append(tuple(str(v) for v in (*ix, *vals)))
    return out


def read(path):
    """content of the file: {layer: rows in stored order}"""
    if not Path(path).exists():
        return None
    out = {}
    with P._RealHDFStore(path, "r") as st:
        for k in st.keys():
            if not k.endswith("/meta"):
                out[k.lstrip("/")] = norm(k, st.select(k))
    return out


def exp_rows(site, num):
    return {k: norm(k, v) for k, v in P.flat_keys(payload(site, num)).items()}


def numbers(content):
    return [(r[1], int(r[0])) for r in (content or {}).get("reader_arg", [])]


def write(path, pairs):
    """a store as an earlier series of runs leaves it behind"""
    path.parent.mkdir(parents=True, exist_ok=True)
    with P._RealHDFStore(path, "a", complevel=1, complib="blosc") as st:
        for site, num in pairs:
            for k, v in P.flat_keys(payload(site, num)).items():
                st.append(k, v, format="t", data_columns=["ID"] if k == "reader_arg" else [], index=False,
                          min_itemsize={"index": 99, "values": 99})


def complete(content):
    """problems with the content of a file: every stored site complete, once, with a number of its own"""
    nums = numbers(content)
    bad = []
    sites = [s for s, _ in nums]
    if len(set(sites)) != len(sites):
        bad.append(f"a site is stored more than once: {nums}")
    if len({n for _, n in nums}) != len(nums):
        bad.append(f"two sites share a number: {nums}")
    want = {}
    for s, n in nums:
        for k, v in exp_rows(s, n).items():
            want.setdefault(k, []).extend(v)
    for k in sorted(set(want) | set(content or {})):
        g = sorted((content or {}).get(k, []))
        if g != sorted(want.get(k, [])):
            bad.append(f"layer {k}: {g} instead of {sorted(want.get(k, []))}")
    return bad


_n = itertools.count()


def new_dir():
    d = core.SCRATCH / f"c04_{core.os.getpid()}_{next(_n)}" / "dump"
    (d / "results").mkdir(parents=True)
    return d


def run(path, sites, bad=(), cfg=None, interrupt=None, policy="fifo", idgetter=getter, dur=0.0):
    cfg = cfg or {}
    Job.calls, Job.args = [], []
    disk = P.Disk()
    disk.real = True
    o = P.run_pipeline(dict(cfg, n=len(sites)), {}, policy=policy, interrupt_at=interrupt, disk=disk, dst=path,
                       job=Job(bad, dur), arg_list=[dict(ID=s) for s in sites], ID_getter=idgetter, early=False,
                       starmap_args=[[f"x-{s}" for s in sites], itertools.repeat(7)])
    P.DISK = None
    return o, list(Job.calls)


def transition(res, key, path, step, cfg=None, **kw):
    """one run, compared with the reference"""
    sites, bad = step
    before = read(path)
    had = [s for s, _ in numbers(before)]
    pend = [s for s in sites if s not in had]
    # the documented pre-selection gives the same answer
    from rt1.processing_config import rt1_processing_config

    mask = rt1_processing_config(save_path=str(path.parent.parent.parent), dumpfolder="dump").mask_existing_HDF_IDs(
        [dict(ID=s) for s in sites])
    if [a["ID"] for a in mask] != pend:
        res.violation(f"{key}/mask", f"mask_existing_HDF_IDs: {mask} instead of {pend}")
    mn = [a["_RT1_ID_num"] for a in mask]
    if len(set(mn)) != len(mn) or set(mn) & {n for _, n in numbers(before)}:
        res.violation(f"{key}/mask", f"mask_existing_HDF_IDs assigns used numbers {mn} (store: {numbers(before)})")

    o, calls = run(path, sites, bad, cfg, **kw)
    after = read(path)
    want_args = [(f"x-{s}", 7) for s in calls]
    if Job.args != want_args:
        res.violation(f"{key}/args", f"sites {calls} are processed with the arguments {Job.args} [before {numbers(before)}, run {step}]")
    res.evaluations += 1
    res.transitions += 1
    res.traces += 1
    res.state(sorted(numbers(after)))
    for p in o.sched.problems:
        res.violation(f"{key}/run", f"{p} {kw}")
    if kw.get("interrupt") is None:
        for n, e in o.sched.exceptions:
            res.violation(f"{key}/exc", f"{n}: {core.exc_text(e)}")
        if sorted(calls) != sorted(pend):
            res.violation(f"{key}/calls", f"processed {calls} instead of {pend} (stored before: {had})")
        want = sorted(had + [s for s in pend if s not in bad])
    else:
        want = None
        extra = [s for s in calls if s not in pend]
        if extra:
            res.violation(f"{key}/calls", f"processed {extra} again")
    for b in complete(after):
        res.violation(f"{key}/content", f"{b} [stored before {numbers(before)}, run {step} {kw}]")
    got = sorted(s for s, _ in numbers(after))
    if want is not None and got != want:
        res.violation(f"{key}/sites", f"stored sites {got} instead of {want} [before {numbers(before)}, run {step}]")
    if want is None and not (set(had) <= set(got) <= set(had) | set(sites)):
        res.violation(f"{key}/sites", f"stored sites {got} after interrupted run {step} on {had}")
    if before:
        for k, rows in before.items():
            if (after or {}).get(k, [])[: len(rows)] != rows:
                res.violation(f"{key}/changed", f"layer {k} changed: {rows} -> {(after or {}).get(k)}")
    return after


def ops():
    out = []
    for r in (1, 2, 3):
        for L in itertools.permutations(U, r):
            out.append((L, ()))
            for b in L:
                out.append((L, (b,)))
    return out


CFGS = [dict(workers=1, combiners=1, writers=1, chunk=1000, cache=10),
        dict(workers=2, combiners=2, writers=2, chunk=1, cache=2),
        dict(workers=2, combiners=1, writers=1, chunk=2, cache=1)]


def states(tier):
    """(site, number) lists in stored order, up to renaming of the sites in the quick tier"""
    out = []
    m = 4 if tier == "quick" else 5
    for k in (1, 2, 3):
        for sites in itertools.permutations(U, k):
            if tier == "quick" and sites != tuple(U[:k]):
                continue
            for nums in itertools.permutations(range(m), k):
                out.append(list(zip(sites, nums)))
    return out


def cases(tier, seed):
    out = []
    O = ops()
    # (d) own names of the sites
    perms = [list(q) for n in (1, 2, 3) for q in itertools.permutations("ABC", n)]
    for k, n in enumerate(NAMING):
        for v in ("single", "multi") if tier == "thorough" else (("single", "multi")[k % 2],):
            runs = ["AB", "BCA"] if tier == "quick" else ["".join(q) for q in perms]
            out.append(dict(kind="names", naming=n, variant=v, runs=runs, depth=2))
    # (a) inductive: every kind of store x every run
    for n, S in enumerate(states(tier)):
        if len(S) == 3:
            oo = [(tuple(U), ()), (tuple(U[::-1]), (U[0],))]
        elif tier == "quick":
            oo = [o for i, o in enumerate(O) if len(o[0]) == 3 or (i + n) % 3 == 0]
        else:
            oo = O
        for part in range(0, len(oo), 12):
            out.append(dict(kind="step", state=S, ops=oo[part : part + 12], cfg=n % 3))
    # (b) histories from nothing
    first = O if tier == "thorough" else [o for o in O if o[1]] + [((U[1],), ()), ((U[2], U[0]), ())]
    for n, o in enumerate(first):
        out.append(dict(kind="hist", first=o, cfg=n % 3, depth=3 if tier == "thorough" else 2,
                        stride=1 if tier == "thorough" else 2, off=n))
    # (c) interrupts
    starts = [[], [(U[1], 0)], [(U[2], 2)]]
    for c in range(3):
        for S in starts:
            for dur in (0.0, 1.0, 4.0):
                for pol in ("fifo", "lifo", "rr") if tier == "thorough" else ("fifo", "rr"):
                    out.append(dict(kind="int", state=S, cfg=c, dur=dur, policy=pol, ks=list(range(0, 28))))
    return out


# the documented ways to name the sites (by an own `get_names_ids`) and the arguments of the reader
NAMING = {
    "default": ([dict(ID=i, site=x) for i, x in zip(U, "ABC")], None),
    "numbers": ([dict(ID=i, site=x) for i, x in zip((7, 3, 12), "ABC")], None),
    "dots": ([dict(ID=i, site=x) for i, x in zip(("1.5_2", "1.7_2", "1"), "ABC")], None),
    "paths": ([dict(ID=f"/data/{i}.nc", site=x) for i, x in zip(U, "ABC")], None),
    "prefix": ([dict(ID=i, site=x) for i, x in zip(U, "ABC")], lambda a: f"site_{a['ID']}"),
    "stem": ([dict(ID=f"/data/{i}.nc", site=x) for i, x in zip(U, "ABC")], lambda a: Path(a["ID"]).stem),
    "two keys": ([dict(ID=i, orbit=o, site=x) for (i, o), x in zip(((1, 1), (1, 2), (2, 1)), "ABC")], lambda a: f"{a['ID']}_{a['orbit']}"),
    "swapped": ([dict(ID=i, key=k, site=x) for (i, k), x in zip((("a", "b"), ("b", "c"), ("c", "a")), "ABC")], lambda a: a["key"]),
    "no ID": ([dict(path=f"/data/{i}.nc", site=x) for i, x in zip(U, "ABC")], lambda a: Path(a["path"]).stem),
}


class Sites:
    """the function that is used by `run_processing` to evaluate a site"""

    calls = []  # (shared by the simulated processes)

    def __init__(self, p):
        self.p = p
        Sites.calls.clear()

    def reader(self, arg):
        return arg

    def process(self, arg, *a):
        Sites.calls.append(arg["site"])
        return self.p._evalfunc(arg)


def run_names(res, case):
    """own names of the sites: resuming, and reading by name"""
    from mc import fitgen as G
    from mc.checks import c22
    from rt1.rtresults import RTresults

    G.memo_lambdify()
    args, fid = NAMING[case["naming"]]
    ID = {a["site"]: str(fid(a) if fid else a["ID"]) for a in args}
    name_of = {x: name(i) for x, i in ID.items()}
    for hist in itertools.product(case["runs"], repeat=case["depth"]):
        base = new_dir().parent
        shutil.rmtree(base / "dump")
        path, p = c22.start(base, case["variant"])
        if fid:
            p.proc_cls.get_names_ids = lambda reader_arg: dict(feature_id=fid(reader_arg), filename=f"{fid(reader_arg)}.dump")
        done = []
        for i, run_ in enumerate(hist):
            job = Sites(p)
            disk = P.Disk()
            disk.real = True
            todo = [next(a for a in args if a["site"] == x) for x in run_]
            dst = base / "out/dump/results/fit_db.h5"
            key = f"names/{case['naming']}/{'-'.join(hist)}/{i}"
            try:
                o = P.run_pipeline(dict(CFGS[0], n=len(todo)), {}, disk=disk, dst=str(dst), job=job, arg_list=todo, ID_getter=p._extract_ID,
                                   early=False, wall=200, max_steps=100000)
            except Exception as e:  # noqa: BLE001
                res.violation(key, f"the run fails: {core.exc_text(e)}")
                break
            finally:
                P.DISK = None
            if o.main_exc is not None:
                res.violation(key, f"the run fails: {core.exc_text(o.main_exc)}")
                break
            new = [x for x in run_ if x not in done]
            if sorted(job.calls) != sorted(new):
                res.violation(key + "/calls", f"processed {job.calls} instead of {new} (stored: {done})")
            done += new
            r = RTresults(base / "out/dump").dump
            try:
                got = list(r.dump_files)
                if sorted(got) != sorted(name_of[x] for x in done):
                    res.violation(key + "/names", f"stored {got} instead of {[name_of[x] for x in done]}")
                for x in done if not res.violations else ():
                    f = r.load_fit(name_of[x])
                    if not np.array_equal(f.dataset.sig.sort_index(), c22.site_data(x)[0].sig.sort_index().values):
                        res.violation(key + "/data", f"{name_of[x]} holds the data of another site")
                    if f.ID != name_of[x]:
                        res.violation(key + "/ID", f"the ID of the fit is {f.ID} instead of {name_of[x]}")
            except Exception as e:  # noqa: BLE001
                res.violation(key + "/read", f"reading the results fails: {core.exc_text(e)}")
            finally:
                core_close(r)
            res.transitions += 1
            res.state((case["naming"], case["variant"], tuple(done)))
        res.evaluations += 1
        res.traces += 1
        shutil.rmtree(base, ignore_errors=True)
        if res.violations:
            return


def core_close(r):
    try:
        r.fit_db.close()
    except Exception:  # noqa: BLE001
        pass


def run_case(case):
    res = core.Result()
    if case["kind"] == "names":
        run_names(res, case)
        return res
    cfg = CFGS[case["cfg"]]
    if case["kind"] == "step":
        base = new_dir()
        path = base / "results" / "fit_db.h5"
        write(path, case["state"])
        keep = base / "keep.h5"
        shutil.copy(path, keep)
        for n, (L, bad) in enumerate(case["ops"]):
            shutil.copy(keep, path)
            key = f"step/{case['state']}/{L}/{bad}"
            transition(res, key, path, (L, bad), cfg, idgetter=getter if n % 2 else None)
        res.sample(dict(state=case["state"], runs=case["ops"][:3]))
    elif case["kind"] == "hist":
        base = new_dir()
        path = base / "results" / "fit_db.h5"

        def rec(hist, todo, depth):
            key = "hist/" + "/".join(map(str, hist))
            transition(res, key, path, hist[-1], cfg, idgetter=getter if len(hist) % 2 else None)
            if depth == 0 or res.violations:
                return
            keep = base / f"keep{depth}.h5"
            exists = path.exists()
            if exists:
                shutil.copy(path, keep)
            for o in todo:
                if exists:
                    shutil.copy(keep, path)
                elif path.exists():
                    path.unlink()
                rec(hist + [o], todo3, depth - 1)
            # indexing the store in between changes nothing
            if exists:
                shutil.copy(keep, path)
                P.rtw.RT1_processor.create_index(path)
                transition(res, key + "/indexed", path, (tuple(U), ()), cfg)

        O = ops()
        todo = O[case["off"] % case["stride"] :: case["stride"]]
        todo3 = O[case["off"] % 7 :: 7]
        rec([case["first"]], todo, case["depth"] - 1)
        res.sample(dict(first=case["first"], then=len(todo)))
    else:
        base = new_dir()
        path = base / "results" / "fit_db.h5"
        keep = base / "keep.h5"
        if case["state"]:
            write(path, case["state"])
            shutil.copy(path, keep)
        for k in case["ks"]:
            if case["state"]:
                shutil.copy(keep, path)
            elif path.exists():
                path.unlink()
            key = f"int/{case['state']}/{case['cfg']}/{case['dur']}/{case['policy']}/{k}"
            transition(res, key, path, (tuple(U), ()), cfg, interrupt=k, policy=case["policy"], dur=case["dur"])
            after = transition(res, key + "/resume", path, (tuple(U[::-1]), ()), cfg)
            if sorted(s for s, _ in numbers(after)) != sorted(U):
                res.violation(key + "/resume", f"the final run did not complete the file: {numbers(after)}")
            if res.violations:
                break
        res.sample(dict(interrupts=len(case["ks"]), state=case["state"]))
    shutil.rmtree(base.parent, ignore_errors=True)
    return res
