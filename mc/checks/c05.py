"""C05: reading a results file by name, number, position or in chunks returns exactly that data."""
import itertools
import shutil

import numpy as np
import pandas as pd

from mc import core, pipeline as P
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every small results file (sites x numbering x order x rows per site x layer kinds) x every way of reading every "
    "layer: by number, by name, first n from any start, lists, iteration with every chunk and read-chunk size, with "
    "numeric and with named index; distinct = distinct (file, layer, query)"
)
NOTE = "Complete for all stores of the stated sizes; large stores are covered by two sizes only (13 and 40 sites)."
TIMEOUT = 400
MIN = {"index": 99, "values": 99}


def sname(s):
    return s if s.isidentifier() else f"RT1_{s}"


class Store:
    """reference: layers as plain lists of (number, row)"""

    def __init__(self, sites, nums, reps, layer_order, with_cfg):
        self.sites, self.nums = sites, nums
        self.layers = {}  # key -> list of frames in stored order
        n = len(sites)
        self.layers["reader_arg"] = [
            pd.DataFrame({"ID": [s], "x": [i * 1.0]}, index=pd.Index([m], name="ID"))
            for i, (s, m) in enumerate(zip(sites, nums))
        ]
        order = range(n) if layer_order == "same" else range(n)[::-1]
        dyn, sta, uni, evn = [], [], [], []
        for i in order:
            m, r = nums[i], reps[i % len(reps)]
            idx = pd.MultiIndex.from_product([[m], pd.date_range("2020-01-01", periods=r)], names=["ID", "date"])
            dyn.append(pd.DataFrame({"a": 100.0 * i + np.arange(r), "b": -1.0 * i - np.arange(r)}, index=idx))
            sta.append(pd.DataFrame({"q": [10.0 * i]}, index=pd.Index([m], name="ID")))
            uni.append(pd.DataFrame({"u": 7.0 * i + np.arange(r)}, index=pd.Index([m] * r, name="ID")))
            cf = pd.MultiIndex.from_product([[m], ["A", "B"], [0, 1]], names=["ID", "cfg", "param"])
            evn.append(pd.DataFrame({"e": 1000.0 * i + np.arange(4)}, index=cf))
        pre = ["A/", "B/"] if with_cfg else [""]
        for p in pre:
            self.layers[p + "dynamic"] = dyn
            self.layers[p + "static"] = sta
        self.layers["unindexed"] = uni
        self.layers["res"] = evn
        if n > 2:
            # a layer without any data for one site
            self.layers["partial"] = [f for f in dyn if f.index[0][0] != nums[1]]

    def write(self, path, index=False):
        with P._RealHDFStore(path, "w", complevel=1, complib="blosc") as st:
            for k, frames in self.layers.items():
                for f in frames:
                    st.append(k, f, format="t", data_columns=["ID"] if k == "reader_arg" else [], index=False,
                              min_itemsize=MIN)
        if index:
            P.rtw.RT1_processor.create_index(path)


def rowlist(df):
    out = []
    for ix, vals in zip(df.index, df.itertuples(index=False, name=None)):
        ix = ix if isinstance(ix, tuple) else (ix,)
        out.append((ix[0], tuple(map(str, ix[1:])), tuple(map(str, vals))))
    return out


def per_site(rl):
    d = {}
    for r in rl:
        d.setdefault(r[0], []).append(r[1:])
    return d


class Reader:
    def __init__(self, res, st, acc, key, tag, named):
        self.res, self.st, self.acc, self.key, self.tag, self.named = res, st, acc, key, tag, named
        self.sub = acc.datasets
        for p in key.split("/"):
            self.sub = getattr(self.sub, p)
        self.all = [r for f in st.layers[key] for r in rowlist(f)]
        self.label = dict(zip(st.nums, map(sname, st.sites)))
        self.cols = list(st.layers[key][0].columns)

    def want(self, nums):
        """rows of these sites in stored order"""
        s = set(nums)
        return [((self.label[r[0]] if self.named else r[0]), *r[1:]) for r in self.all if r[0] in s]

    def cmp(self, q, got, nums, columns=None):
        r = self.res
        r.evaluations += 1
        r.state((self.tag, self.key, q, self.named))
        want = self.want(nums)
        if isinstance(got, Exception):
            return expect(r, False, f"{self.key}/{q[0]}", f"{self.tag} {self.key} {q}: {core.exc_text(got)}")
        g = rowlist(got)
        if self.named and self.key == "reader_arg":
            # the name moves from the column to the index
            want = [(a, b, c[1:]) for a, b, c in want]
        if columns:
            pos = [self.cols.index(c) for c in columns]
            want = [(a, b, tuple(c[p] for p in pos)) for a, b, c in want]
        if self.named and self.key == "reader_arg" and "ID" in getattr(got, "columns", []):
            got = got.drop(columns="ID")
            g = rowlist(got)
        return expect(
            r, sorted(map(repr, g)) == sorted(map(repr, want)) and per_site(g) == per_site(want),
            f"{self.key}/{q[0]}", lambda: f"{self.tag} {self.key} {q} named={self.named}: got {g} instead of {want}",
        )

    def order(self, q, got, nums):
        """if the layer is stored in the order of the sites, so are the returned rows"""
        if isinstance(got, Exception):
            return
        ranks = {(self.label[n] if self.named else n): i for i, n in enumerate(self.st.nums)}
        pos = [ranks.get(r[0], -1) for r in rowlist(got)]
        expect(self.res, pos == sorted(pos), f"{self.key}/{q[0]}/order", lambda: f"{self.tag} {self.key} {q}: {pos}")


def attempt(f):
    try:
        return f()
    except Exception as e:  # noqa: BLE001
        return e


def query(R, big, same_order):
    st, sub = R.st, R.sub
    nums, n = st.nums, len(st.nums)
    some = range(n) if not big else sorted({0, 1, n // 2, n - 2, n - 1})
    for i in some:
        R.cmp(("get_id", "number", nums[i]), attempt(lambda: sub.get_id(nums[i])), [nums[i]])
        R.cmp(("get_id", "name", st.sites[i]), attempt(lambda: sub.get_id(sname(st.sites[i]))), [nums[i]])
    c0 = [R.cols[-1]]
    if R.key != "reader_arg" or not R.named:
        R.cmp(("get_id", "columns"), attempt(lambda: sub.get_id(nums[0], columns=c0)), [nums[0]], columns=c0)
    sizes = range(1, n + 2) if not big else (1, 3, 10, 11, 12, n - 1, n, n + 5)
    starts = [None, *range(n)] if not big else [None, 0, 1, 9, 10, n - 1]
    for k in sizes:
        for s in starts:
            a = s or 0
            x = attempt(lambda: sub.get_nids(k, start=s))
            R.cmp(("get_nids", k, s), x, nums[a : a + k])
            if same_order:
                R.order(("get_nids", k, s), x, nums[a : a + k])
            if big and s not in (None, 1):
                continue
            for rc in (None, *range(1, min(k, n) + 2)) if not big else (None, 1, 4, 10):
                q = ("get_nids_iter", k, s, rc)
                it = attempt(lambda: list(sub.get_nids_iter(k, start=s, read_chunksize=rc)))
                if isinstance(it, Exception):
                    R.cmp(q, it, nums)
                    continue
                groups = [nums[j : j + k] for j in range(a, n, k)]
                if expect(R.res, len(it) == len(groups), f"{R.key}/get_nids_iter/number",
                          lambda: f"{R.tag} {R.key} {q}: {len(it)} chunks instead of {len(groups)}"):
                    for x, g in zip(it, groups):
                        R.cmp(q, x, g)
    # lists
    lists = [nums[:1], nums[-1:], nums[::-1], nums[::2], [*nums[1:], nums[0]], nums[1:]]
    for L in lists:
        if not L:
            continue
        for named in (False, True):
            arg = [sname(st.sites[nums.index(m)]) for m in L] if named else list(L)
            for rc in (None, 1, 2):
                it = attempt(lambda: list(sub.get_nids_iter(arg, read_chunksize=rc)))
                x = it if isinstance(it, Exception) else pd.concat(it)
                R.cmp(("get_nids_iter", "list", tuple(arg), rc), x, L)
        R.cmp(("get_nids", "list", tuple(L)), attempt(lambda: sub.get_nids(list(L))), L)
    # select
    R.cmp(("select", "all"), attempt(lambda: sub.select()), nums)
    if same_order:
        R.order(("select", "all"), attempt(lambda: sub.select()), nums)
    lev = "ID" if isinstance(st.layers[R.key][0].index, pd.MultiIndex) else "index"
    for m in nums[:2]:
        R.cmp(("select", m), attempt(lambda: sub.select(where=f"{lev} = {m}")), [m])


def run_case(case):
    if "iloc" in case:
        return run_iloc(case)
    res = core.Result()
    st = Store(case["sites"], case["nums"], case["reps"], case["order"], case["cfg"])
    d = core.SCRATCH / f"c05_{core.os.getpid()}"
    d.mkdir(exist_ok=True, parents=True)
    path = d / f"{core.h(case)}.h5"
    st.write(path, index=case.get("index", False))
    from rt1.rtresults import HDFaccessor

    tag = f"sites={case['sites']} numbers={case['nums']} rows={case['reps']} order={case['order']}"
    if len(case["sites"]) > 8:
        tag = f"{len(case['sites'])} sites"
    for named in (False, True):
        with HDFaccessor(path, set_ID=named) as acc:
            want = dict(zip(case["nums"], map(sname, case["sites"])))
            expect(res, acc.IDs.ID.to_dict() == want, "IDs", f"{tag}: IDs {acc.IDs.ID.to_dict()} instead of {want}")
            expect(res, acc.IDs.index.tolist() == list(case["nums"]), "IDs/order", f"{tag} {acc.IDs}")
            found = set()
            for k, v in vars(acc.datasets).items():
                found |= {k + "/" + kk for kk in vars(v) if not kk.startswith("_")} if v.__class__.__name__ == "_cfgselector" else {k}
            expect(res, found == set(st.layers), "layers", f"{tag}: {sorted(found)} instead of {sorted(st.layers)}")
            keys = [k for k in st.layers if not case.get("few") or k in ("reader_arg", "A/dynamic", "dynamic", "res")]
            for key in keys:
                query(Reader(res, st, acc, key, tag, named), len(case["sites"]) > 8, case["order"] == "same")
            # several layers read in an interleaved way
            ks = [k for k in st.layers if k.endswith(("static", "dynamic"))][:2]
            a, b = (Reader(res, st, acc, k, tag, named) for k in ks)
            ia, ib = a.sub.get_nids_iter(1), b.sub.get_nids_iter(1)
            for m in case["nums"]:
                a.cmp(("interleaved",), attempt(lambda: next(ia)), [m])
                b.cmp(("interleaved",), attempt(lambda: next(ib)), [m])
    # static reader of the processor
    for key in st.layers:
        cfg, k = key.split("/") if "/" in key else (None, key)
        g = attempt(lambda: P.rtw.RT1_processor.get_data(path, k, config=cfg))
        want = [r for f in st.layers[key] for r in rowlist(f)]
        res.evaluations += 1
        expect(res, not isinstance(g, Exception) and rowlist(g) == want, f"get_data/{key}",
               lambda: f"{tag} get_data({k}, {cfg}): {g if isinstance(g, Exception) else rowlist(g)}")
    path.unlink()
    res.sample(case if len(case["sites"]) < 9 else dict(n=len(case["sites"])))
    return res


INDEXERS = [None, 0, 1, 2, -1, -2, [0], [1, 0], slice(1, None), slice(0, 1), slice(5, 9)]
MISSING = object()


def nth(values, i):
    """the selected index-values (or MISSING if there is no such value)"""
    if i is None:
        return values
    try:
        return values[i] if isinstance(i, slice) else [values[j] for j in (i if isinstance(i, list) else [i])]
    except IndexError:
        return MISSING


def run_iloc(case):
    """selecting index-values of a MultiIndex by their position: all sets of rows, all indexers"""
    from rt1.rtresults import iloc_level

    res = core.Result()
    shape = case["shape"]
    one = INDEXERS if case["iloc"] == "all" else [None, 0, -1] if case["iloc"] == "few" else [None, 0, 1, -1, [1, 0], slice(1, None)]
    indexers = [0, None, -1, [1], [None], [-1], [None, 1], *itertools.product(one, repeat=len(shape))]
    full = list(itertools.product(*[[7, 3, 5][:n] if k == 0 else list("pqr")[:n] for k, n in enumerate(shape)]))
    names = ["ID", "cfg", "param"][: len(shape)]
    for rows in itertools.chain.from_iterable(itertools.combinations(full, n) for n in range(1, len(full) + 1)):
        for how in [case["how"]]:
            use = rows[::-1] if how == "reversed" else rows
            df = pd.DataFrame({"v": [float(full.index(r)) for r in use]}, index=pd.MultiIndex.from_tuples(use, names=names))
            if how == "filtered":
                df = pd.DataFrame({"v": np.arange(float(len(full)))}, index=pd.MultiIndex.from_tuples(full, names=names))
                df = df[df.v.isin([full.index(r) for r in rows])]
            elif how == "renamed":
                # (e.g. the names of the sites in place of their numbers)
                df.index = df.index.set_levels([f"s{10 - i}" for i in range(len(df.index.levels[0]))], level=0)
            before = df.copy()
            values = [[v for v in lev if v in df.index.get_level_values(k)] for k, lev in enumerate(df.index.levels)]
            for idx in indexers:
                want_val = [nth(v, i) for v, i in zip(values, idx if isinstance(idx, (list, tuple)) else [idx])]
                key = f"iloc {list(df.index)} {how} {idx}"
                want = [] if any(w is MISSING for w in want_val) else [
                    (*i, v) for i, v in zip(df.index, df.v) if all(i[k] in w for k, w in enumerate(want_val))]
                try:
                    got = iloc_level(df, idx)
                except Exception as e:  # noqa: BLE001
                    expect(res, not want, key, f"{type(e).__name__}: {e}")
                    continue
                rows_got = [(*i, v) for i, v in zip(got.index, got.v)]
                expect(res, sorted(rows_got) == sorted(want), key, f"{rows_got} instead of {want}")
                res.evaluations += 1
            expect(res, df.equals(before), f"iloc {rows} {how}", "the data has been changed")
            res.state(("iloc", rows, how))
            if len(res.violations) > 4:
                return res
    return res


def cases(tier, seed):
    iloc = [("all", [3, 2]), ("few", [2, 2, 2])] + ([("some", [3, 3]), ("some", [2, 2, 2])] if tier == "thorough" else [])
    iloc = [dict(sites=[], iloc=i, shape=s, how=how) for i, s in iloc for how in ("stored", "reversed", "filtered", "renamed")]
    out = []
    names = ["p1", "9", "p10", "zz"]
    numberings = {
        1: [[0], [3]],
        2: [[0, 1], [1, 0], [2, 5], [7, 3]],
        3: [[0, 1, 2], [2, 0, 1], [1, 0, 2], [5, 9, 3], [0, 2, 4], [12, 10, 11]],
        4: [[0, 1, 2, 3], [3, 1, 0, 2], [4, 1, 0, 9], [2, 3, 0, 1]],
    }
    if tier == "thorough":
        numberings[3] = [list(p) for c in itertools.combinations([0, 1, 2, 5], 3) for p in itertools.permutations(c)]
        numberings[4] = [list(p) for c in ([0, 1, 2, 3], [0, 2, 5, 9]) for p in itertools.permutations(c)]
    reps = {1: [[1], [3]], 2: [[1, 2], [2, 2]], 3: [[1, 1, 1], [2, 1, 3]], 4: [[2, 1, 1, 3]]}
    k = 0
    for n in (1, 2, 3, 4):
        for nums in numberings[n]:
            for r in reps[n]:
                for order in ("same", "rev") if n > 1 else ("same",):
                    k += 1
                    if tier == "quick" and n >= 3 and k % 2:
                        continue
                    out.append(dict(sites=names[:n], nums=nums, reps=r, order=order, cfg=bool(k % 2),
                                    index=k % 3 == 0, few=tier == "quick" and n == 4))
    for n in (13, 40):
        sites = [f"s{i}" for i in range(n)]
        for nums in (list(range(n)), list(range(n))[::-1], [3 * i + 1 for i in range(n)],
                     [(7 * i) % n if n == 13 else (7 * i) % 41 for i in range(n)]):
            out.append(dict(sites=sites, nums=nums, reps=[1, 2], order="same", cfg=True, few=True))
    return iloc + sorted(out, key=lambda c: -len(c["sites"]))
