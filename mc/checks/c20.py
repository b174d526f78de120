"""C20: the parameter-definition container behaves like the dictionary it is given as."""
import copy
import itertools
import pickle

import pandas as pd

from mc import core
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all operation sequences up to the stated depth over {add, replace (list/dict), change one property by attribute, key "
    "or position, remove, convert to dict/table/copy/pickle and back, assign through a fit} on two variables, incl. the "
    "invalid variant of every operation; after every operation all views of the container are compared to a plain dict "
    "model; states = distinct contents reached"
)
NOTE = "Complete for the stated operation alphabet, two variables and depth; says nothing about longer histories."
TIMEOUT = 600
PROPS = ["fitQ", "val", "freq", "minval", "maxval", "interpQ"]
DEFAULT = dict(fitQ=True, val=0.5, freq=None, minval=0.0, maxval=1.0, interpQ=False)
NONE = dict.fromkeys(PROPS)


def L(fitQ=None, val=None, freq=None, bounds=([None], [None]), interpQ=None):
    return dict(fitQ=fitQ, val=val, freq=freq, minval=bounds[0][0], maxval=bounds[1][0], interpQ=interpQ)


class Sys:
    """the real container together with its model (an ordered dict of dicts)"""

    def __init__(self, init):
        from rt1._containers import _RT1_defdict as D
        from rt1.rtfits import Fits

        self.D, self.Fits = D, Fits
        self.m = {}
        if init == "empty":
            self.d = D()
        elif init == "lists":
            src = {"a": [True, 0.25, "D", ([0.01], [0.9]), True], "b": [False, 3]}
            self.d = D.from_dict(src)
            self.m = {"a": L(*src["a"]), "b": L(*src["b"])}
            src["a"][3][0][0] = -1  # the container must have its own copy
        elif init == "dicts":
            src = {"b": {"val": "auxiliary", "fitQ": False}, "a": {"freq": "2M + manual", "maxval": 3.0}}
            self.d = D.from_dict(src)
            self.m = {k: {**DEFAULT, **v} for k, v in src.items()}
        elif init == "fit":
            src = {"a": [True, 0.25, 3, ([0.01], [0.9])], "b": [False, 3.5]}
            self.fit = Fits(defdict=src)
            self.d = self.fit.defdict
            self.m = {"a": L(*src["a"]), "b": L(*src["b"])}

    # --- operations: (real, model); "raises" = the model says it is invalid
    def apply(self, op):
        k, *a = op
        ok = True
        m = self.m

        def real(f):
            nonlocal ok
            try:
                f()
                return None
            except Exception as e:  # noqa: BLE001
                ok = False
                return e

        d = self.d
        if k == "add":
            n, kw = a
            err = real(lambda: d.add_variable(n, **kw))
            exp = not (set(kw) - set(PROPS))
            if exp:
                m[n] = {**DEFAULT, **kw}
        elif k == "attr":
            n, v = a
            err = real(lambda: setattr(d, n, copy.deepcopy(v)))
            if isinstance(v, list):
                exp = len(v) <= 5 and (len(v) < 4 or (isinstance(v[3], (tuple, list)) and len(v[3]) == 2))
                if exp:
                    m[n] = L(*v)
            elif isinstance(v, dict):
                exp = not (set(v) - set(PROPS))
                if exp:
                    m[n] = {**DEFAULT, **v}
            else:
                exp = False
        elif k == "set":  # one property
            how, n, p, v = a
            if how == "attr":
                err = real(lambda: setattr(d[n], p, v))
            elif how == "key":
                err = real(lambda: d[n].__setitem__(p, v))
            elif how == "pos":
                err = real(lambda: d[n].__setitem__(["fitQ", "val", "freq", None, "interpQ"].index(p), v))
            else:
                err = real(lambda: d[n].__setitem__(3, v))
            exp = n in m
            if exp:
                if how == "bounds":
                    m[n]["minval"], m[n]["maxval"] = v[0][0], v[1][0]
                else:
                    m[n][p] = v
        elif k == "badset":
            n, p = a
            err = real(lambda: d[n].__setitem__(p, 1))
            exp = False
        elif k == "remove":
            (n,) = a
            err = real(lambda: d.remove_variable(n))
            exp = n in m
            m.pop(n, None)
        elif k == "conv":
            (how,) = a
            exp = True

            def f():
                old = self.d
                if how == "list":
                    self.d = self.D.from_dict(d.to_dict())
                elif how == "dict":
                    self.d = self.D.from_dict(d.to_dict("dict"))
                elif how == "table":
                    self.d = self.D.from_dict(pd.DataFrame(d.to_dict("dict")))
                elif how == "table_list":
                    self.d = self.D.from_dict(pd.DataFrame(d.to_dict()))
                elif how == "deepcopy":
                    self.d = copy.deepcopy(d)
                elif how == "pickle":
                    self.d = pickle.loads(pickle.dumps(d))
                elif how == "fit":
                    self.fit = self.Fits(defdict=d.to_dict())
                    self.d = self.fit.defdict
                # the old object has to be independent of the new one
                for n in [*old]:
                    old.remove_variable(n)
                old.add_variable("zz")

            err = real(f)
        if ok != exp:
            return f"{'accepted' if ok else 'refused'}: {op}" + (f" ({type(err).__name__}: {err})" if err else "")
        return None

    def compare(self):
        d, m = self.d, self.m
        out = []

        def eq(name, got, want):
            if got != want:
                out.append(f"{name}: {got!r} instead of {want!r}")

        aslist = {n: [v["fitQ"], v["val"], v["freq"], ([v["minval"]], [v["maxval"]]), v["interpQ"]] for n, v in m.items()}
        try:
            eq("iter", [*d], [*m])
            eq("keys", list(d.keys()), [*m])
            td = d.to_dict()
            eq("to_dict", td, aslist)
            eq("order", [*td], [*m])
            eq("to_dict(dict)", d.to_dict("dict"), m)
            eq("items", list(d.items()), list(aslist.items()))
            eq("again", self.D.from_dict(d.to_dict()).to_dict(), aslist)
            eq("again(dict)", self.D.from_dict(d.to_dict("dict")).to_dict("dict"), m)
            for n in ("a", "b"):
                eq(f"{n} in", n in d, n in m)
            for n, v in m.items():
                for p in PROPS:
                    eq(f"d[{n}].{p}", getattr(d[n], p), v[p])
                    eq(f"d[{n}][{p}]", d[n][p], v[p])
                for i in range(5):
                    eq(f"d[{n}][{i}]", d[n][i], aslist[n][i])
            eq("repr", repr(d), "\n".join(f"{n}: {v}" for n, v in aslist.items()))
            # changing a converted dict must not change the container
            for n, v in td.items():
                v[0], v[1] = "x", "x"
                v[3][0][0] = "x"
            for n, v in d.to_dict("dict").items():
                v["val"] = "x"
            eq("to_dict (after changing a converted dict)", d.to_dict(), aslist)
        except Exception as e:  # noqa: BLE001
            out.append("reading failed: " + core.exc_text(e))
        return out


def ops(tier):
    o = []
    for n in ("a", "b"):
        o += [
            ("add", n, {}),
            ("add", n, dict(fitQ=False, val=2.0)),
            ("attr", n, [True, 0.75, "3D", ([0.1], [0.7]), True]),
            ("attr", n, [False, 1]),
            ("attr", n, {"freq": 5, "interpQ": True}),
            ("set", "attr", n, "freq", "manual"),
            ("set", "key", n, "fitQ", False),
            ("set", "pos", n, "val", 0.125),
            ("set", "bounds", n, None, ([-2.0], [2.0])),
            ("remove", n),
        ]
    o += [
        ("attr", "a", 3.0),
        ("attr", "b", {"vall": 1}),
        ("attr", "a", [1, 2, 3, ([0], [1]), 5, 6, 7]),
        ("attr", "b", [True, 0.5, None, 7]),
        ("badset", "a", "vall"),
        ("set", "attr", "b", "interpQ", True),
        ("set", "pos", "a", "interpQ", True),
        ("set", "key", "b", "maxval", 9.0),
    ]
    o += [("conv", h) for h in ("list", "dict", "table", "table_list", "deepcopy", "pickle", "fit")]
    return o


INITS = ["empty", "lists", "dicts", "fit"]


def cases(tier, seed):
    n = len(ops(tier))
    depth = 3 if tier == "quick" else 4
    return [[init, i, depth, j] for init in INITS for i in range(n) for j in (range(n) if depth > 3 else [None])]


def case_key(c):
    return "/".join(map(str, c))


def run_case(case):
    init, first, depth, second = case
    res = core.Result()
    O = ops("quick")
    rest = depth - 1 if second is None else depth - 2
    head = (first,) if second is None else (first, second)

    for tail in itertools.product(range(len(O)), repeat=rest):
        seq = head + tail
        s = Sys(init)
        hist = []
        bad = s.compare() if seq == head + (0,) * rest else []
        for pos, i in enumerate(seq):
            if bad:
                break
            hist.append(O[i])
            e = s.apply(O[i])
            res.transitions += 1
            bad = [e] if e else []
            # prefixes are shared: compare the intermediate states only once
            if not bad and (pos == len(seq) - 1 or not any(seq[pos + 1:])):
                bad = s.compare()
                res.state((init == "fit", sorted(s.m.items(), key=lambda x: x[0]), [*s.m]))
        res.traces += 1
        if bad:
            res.violation(f"{init}/{hist}", f"after {hist} on '{init}': " + "; ".join(bad[:3]))
            return res
    res.evaluations = res.traces
    return res
