"""C23: grouping, padding, splitting, chunking and numbering helpers lose nothing."""
import datetime as dt
import itertools
import keyword

import numpy as np
import pandas as pd

from mc import core
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every input up to the stated size: all row-length patterns (<=4 rows of <=4 elements) x element types x containers for "
    "padding; all sequences over 3 letters of length <=6 for grouping; all (length, sizes) for splitting / pairing / "
    "chunking; all subsets of {0..8} x N for numbering; all multisets of 4 dates for averaging; all short strings for "
    "identifiers; distinct = distinct (function, input)"
)
NOTE = "Complete for the stated sizes; padding is specified for rows of one dtype with at least one element."
TIMEOUT = 600


def cases(tier, seed):
    return [[f, tier] for f in CHECKS]


def case_key(c):
    return c[0]


def same(a, b):
    return type(a) is type(b) and a == b


def safe(res, key, f):
    try:
        return True, f()
    except Exception as e:  # noqa: BLE001
        res.violation(key + "/error", core.exc_text(e))
        return False, None


def rectangularize(res, tier):
    from rt1.general_functions import rectangularize as rect

    M = 4 if tier == "quick" else 5
    kinds = {
        "int": lambda i: i + 1, "float": lambda i: 0.5 * i - 1, "bool": lambda i: i % 2 == 0, "str": lambda i: chr(97 + i),
        "date": lambda i: np.datetime64("2020-01-01") + np.timedelta64(i, "D"),
    }
    rows_as = {"list": list, "tuple": tuple, "array": np.array}
    for n in range(1, M + 1):
        for lens in itertools.product(range(1, M + 1), repeat=n):
            for kind, mk in kinds.items():
                it = iter(range(10**6))
                rows = [[mk(next(it)) for _ in range(k)] for k in lens]
                for ra, conv in rows_as.items():
                    if kind != "int" and ra != "array" and n > 2:
                        continue
                    src = [conv(r) for r in rows]
                    conts = {"list": src, "tuple": tuple(src), "values": dict(enumerate(src)).values()}
                    for cn, c in conts.items():
                        for dim in (None, max(lens) + 2) if cn == "list" else (None,):
                            d = max(lens) if dim is None else dim
                            want = [r + [r[-1]] * (d - len(r)) for r in rows]
                            wmask = [[False] * len(r) + [True] * (d - len(r)) for r in rows]
                            key = f"{kind}/{lens}/{ra}/{cn}/{dim}"
                            ok, out = safe(res, key, lambda: (rect(c, dim=dim), rect(c, dim=dim, return_mask=True),
                                                              rect(c, dim=dim, return_masked=True)))
                            if not ok:
                                continue
                            a, (b, m), x = out
                            expect(res, a.shape == (n, d) and a.tolist() == np.array(want).tolist(), key, lambda: f"{a} instead of {want}")
                            expect(res, b.tolist() == a.tolist() and m.tolist() == wmask, key + "/mask", lambda: f"{m} instead of {wmask}")
                            expect(res, np.ma.getmaskarray(x).tolist() == wmask and np.ma.getdata(x).tolist() == a.tolist(),
                                   key + "/masked", lambda: f"{x}")
                            res.evaluations += 3
                            res.state(key)
                            if len(res.violations) > 4:
                                return


def groupby(res, tier):
    from rt1.general_functions import groupby_unsorted as g

    def want(a, key, get):
        d = {}
        for x in a:
            d.setdefault(key(x), []).append(get(x))
        return d

    ident = lambda x: x
    for n in range(0, 7 if tier == "quick" else 8):
        for a in itertools.product("bac", repeat=n):
            pairs = [(x, i) for i, x in enumerate(a)]
            for kind, src, key, get in (
                ("plain", list(a), ident, ident), ("gen", pairs, lambda p: p[0], lambda p: p[1]),
                ("key", pairs, lambda p: p[0], ident), ("const", pairs, lambda p: 0, lambda p: p[1]),
                ("index", pairs, lambda p: p[1] % 2, lambda p: p[0]),
            ):
                w = want(src, key, get)
                kw = {}
                if key is not ident:
                    kw["key"] = key
                if get is not ident:
                    kw["get"] = get
                for srt in (False, True):
                    feed = iter(src) if kind == "gen" else src
                    ok, out = safe(res, f"{kind}/{a}/{srt}", lambda: g(feed, sort=srt, **kw))
                    if not ok:
                        continue
                    items = sorted(w.items()) if srt else list(w.items())
                    expect(res, list(out.items()) == items, f"{kind}/{''.join(a)}/sort={srt}", lambda: f"{out} instead of {items}")
                    res.evaluations += 1
                res.state((kind, a))
            if len(res.violations) > 4:
                return


def pairs(res, tier):
    from rt1.general_functions import pairwise

    for n in range(0, 8):
        for k in range(1, 6):
            want = [tuple(range(i, i + k)) for i in range(n - k + 1)]
            for kind, src in (("list", list(range(n))), ("gen", (i for i in range(n))), ("array", np.arange(n)),
                              ("dict", dict.fromkeys(range(n)))):
                ok, out = safe(res, f"{n}/{k}/{kind}", lambda: [tuple(x) for x in pairwise(src, k)])
                expect(res, not ok or out == want, f"{n}/{k}/{kind}", lambda: f"{out} instead of {want}")
                res.evaluations += 1
            res.state((n, k))
        ok, out = safe(res, f"{n}/default", lambda: [tuple(x) for x in pairwise(list(range(n)))])
        expect(res, not ok or out == [(i, i + 1) for i in range(n - 1)], f"{n}/default", lambda: str(out))


def split(res, tier):
    from rt1.general_functions import split_into

    for n in range(0, 7):
        for m in range(0, 5):
            for sizes in itertools.product((0, 1, 2, 3, None), repeat=m):
                want, rest = [], list(range(n))
                for s in sizes:
                    if s is None:
                        want.append(rest)
                        break
                    want.append(rest[:s])
                    rest = rest[s:]
                for kind, src, sz in (("list", list(range(n)), sizes), ("gen", iter(range(n)), iter(sizes)),
                                      ("array", np.arange(n), list(sizes))):
                    ok, out = safe(res, f"{n}/{sizes}/{kind}", lambda: [list(x) for x in split_into(src, sz)])
                    expect(res, not ok or out == want, f"{n}/{sizes}/{kind}", lambda: f"{out} instead of {want}")
                    res.evaluations += 1
                res.state((n, sizes))
            if len(res.violations) > 4:
                return


def chunk(res, tier):
    from rt1.general_functions import chunkit

    L = 26 if tier == "quick" else 60
    for n in range(0, L):
        for k in range(1, L + 2):
            for kind, src in (("list", [f"s{i}" for i in range(n)]), ("array", np.arange(n) * 3), ("tuple", tuple(range(n))),
                              ("Index", pd.Index(range(n, 2 * n)))):
                ok, out = safe(res, f"{n}/{k}/{kind}", lambda: [list(x) for x in chunkit(src, k)])
                want = [list(src)[i:i + k] for i in range(0, n, k)]
                expect(res, not ok or out == want, f"{n}/{k}/{kind}", lambda: f"{out} instead of {want}")
                res.evaluations += 1
            res.state((n, k))
        out = [list(x) for x in chunkit(list(range(n)))]
        expect(res, sum(out, []) == list(range(n)), f"{n}/default", str(out))


def missing(res, tier):
    from rt1.general_functions import find_missing

    U = 9 if tier == "quick" else 11
    for bits in range(2**U):
        sub = [i for i in range(U) if bits >> i & 1]
        free = [i for i in range(3 * U) if i not in sub]
        for kind, src in (("list", sub), ("reversed", sub[::-1]), ("set", set(sub)), ("array", np.array(sub, int)),
                          ("Index", pd.Index(sub[1::2] + sub[::2]))):
            for N in (None, 0, 1, 3, 7):
                ok, out = safe(res, f"{sub}/{kind}/{N}",
                               lambda: [int(i) for i in (itertools.islice(find_missing(src), 9) if N is None else find_missing(src, N))])
                want = free[: 9 if N is None else N]
                expect(res, not ok or out == want, f"{sub}/{kind}/N={N}", lambda: f"{out} instead of {want}")
                res.evaluations += 1
        res.state(tuple(sub))
        if len(res.violations) > 4:
            return


def mean_date(res, tier):
    from rt1.general_functions import meandatetime

    days = [pd.Timestamp(d).as_unit("ns") for d in ("2020-01-01", "2020-01-03 06:00", "2020-02-29 23:59:59", "1999-12-31", "2031-07-01 12:00")]
    for n in range(1, 5):
        for c in itertools.product(range(len(days)), repeat=n):
            ts = [days[i] for i in c]
            t0 = pd.Timestamp("2020-01-01").as_unit("ns")
            want = t0 + sum(((t - t0) for t in ts), pd.Timedelta(0)) / n
            for kind, src in (("timestamps", ts), ("datetimes", [t.to_pydatetime() for t in ts]),
                              ("datetime64", np.array(ts, "datetime64[ns]")), ("list64", [t.to_datetime64() for t in ts]),
                              ("index", pd.DatetimeIndex(ts))):
                ok, out = safe(res, f"{c}/{kind}", lambda: pd.Timestamp(meandatetime(src)))
                expect(res, not ok or abs(out - want) < pd.Timedelta("1ms"), f"{c}/{kind}", lambda: f"{out} instead of {want}")
                res.evaluations += 1
            res.state(c)
            if len(res.violations) > 4:
                return


def scaling(res, tier):
    from rt1.general_functions import scale

    vals = [-3.0, -0.5, 0.0, 1.25, 7.0, np.nan]
    for n in range(2, 5):
        for x in itertools.product(vals, repeat=n):
            x = np.array(x)
            f = x[np.isfinite(x)]
            if f.size < 2 or f.min() == f.max():
                continue
            for rng in (None, (0, 1), (-2.0, 5.0), (3, 1)):
                lo, hi = rng or (0, 1)
                for kind in ("default", "given"):
                    kw = {} if rng is None else dict(out_range=rng)
                    a, b = f.min(), f.max()
                    if kind == "given":
                        kw["domainfuncs"] = (lambda y: np.nanmin(y) - 1.0, lambda y: np.nanmax(y) + 3.0)
                        a, b = a - 1, b + 3
                    ok, out = safe(res, f"{x}/{rng}/{kind}", lambda: np.asarray(scale(x.copy(), **kw), float))
                    want = lo + (x - a) / (b - a) * (hi - lo)
                    expect(res, not ok or np.allclose(out, want, equal_nan=True), f"{x}/{rng}/{kind}", lambda: f"{out} instead of {want}")
                    res.evaluations += 1
            res.state(tuple(x))


def hms(res, tier):
    from rt1.general_functions import dt_to_hms, update_progress

    for s in itertools.chain(range(0, 7300, 7), range(86390, 86410), range(172790, 176500, 61), [31536000, 99999999]):
        d, h, m, sec = dt_to_hms(dt.timedelta(seconds=s))
        expect(res, d * 86400 + h * 3600 + m * 60 + sec == s and 0 <= h < 24 and 0 <= m < 60 and 0 <= sec < 60, f"hms/{s}",
               f"{s} seconds -> {(d, h, m, sec)}")
        res.state(("hms", s))
        res.evaluations += 1
    for mx in (1, 3, 7, 100):
        for p in range(mx + 1):
            for p2 in (None, 0, p):
                msg = update_progress(p, mx, title="T", progress2=p2)
                if p < mx:
                    expect(res, msg.count("#") + msg.count("-") == 20 and abs(msg.count("#") - 20 * p / mx) <= 0.5 and "T" in msg
                           and msg.endswith(f"{p} / {mx}" if p2 is None else f"{p} [{p2}] / {mx}"), f"progress/{mx}/{p}/{p2}", msg)
                else:
                    expect(res, "#" not in msg and "DONE" in msg, f"progress/{mx}/{p}/{p2}", msg)
                res.state(("progress", mx, p, p2))


def interpolate(res, tier):
    from rt1.general_functions import interpolate_to_index as itp

    t0 = pd.Timestamp("2020-03-01")
    for days in itertools.combinations(range(0, 7), 3):
        src = pd.DatetimeIndex([t0 + pd.Timedelta(days=d) for d in days])
        for hours in ((0, 36, 60, 90, 144), (24,), (200, -30)):
            idx = pd.DatetimeIndex([t0 + pd.Timedelta(hours=h) for h in hours])
            y = np.array([2.0, -1.0, 5.5])
            x = np.array(hours) / 24.0
            want = np.where((x < days[0]) | (x > days[2]), np.nan, np.interp(x, days, y))
            key = f"{days}/{hours}"
            for kind, f in (("series", lambda: itp(pd.Series(y, src), idx)), ("list", lambda: itp(list(y), idx, data_index=src)),
                            ("array", lambda: itp(y, idx, data_index=src)),
                            ("frame", lambda: itp(pd.DataFrame(dict(a=y, b=2 * y), src), idx))):
                ok, out = safe(res, f"{key}/{kind}", f)
                if not ok:
                    continue
                good = list(out.index) == list(idx)
                if kind == "frame":
                    good = good and list(out) == ["a", "b"] and np.allclose(out["a"], want, equal_nan=True, atol=1e-6) and np.allclose(
                        out["b"], 2 * want, equal_nan=True, atol=1e-6)
                else:
                    good = good and np.allclose(out, want, equal_nan=True, atol=1e-6)
                expect(res, good, f"{key}/{kind}", lambda: f"{out} instead of {want}")
                res.evaluations += 1
            res.state(key)


def identifiers(res, tier):
    from rt1.general_functions import isidentifier

    chars = "aB_0 .-é"
    for n in range(0, 4):
        for c in itertools.product(chars, repeat=n):
            s = "".join(c)
            want = bool(s) and s.isidentifier() and not keyword.iskeyword(s)
            expect(res, isidentifier(s) is want, f"id/{s!r}", f"isidentifier({s!r}) is not {want}")
            res.evaluations += 1
            res.state(s)
    for s in [*keyword.kwlist, *(k + "_" for k in keyword.kwlist)]:
        expect(res, isidentifier(s) is (s.endswith("_")), f"id/{s}", f"isidentifier({s!r})")
    for x in (1, None, 2.5, b"a", ["a"]):
        try:
            out = isidentifier(x)
            expect(res, not out, f"id/{x!r}", f"isidentifier({x!r}) = {out}")
        except TypeError:
            pass


CHECKS = dict(rectangularize=rectangularize, groupby=groupby, pairwise=pairs, split_into=split, chunkit=chunk, find_missing=missing,
              meandatetime=mean_date, scale=scaling, hms=hms, interpolate=interpolate, isidentifier=identifiers)


def run_case(case):
    res = core.Result()
    CHECKS[case[0]](res, case[1])
    res.sample({"case": case[0]})
    return res
