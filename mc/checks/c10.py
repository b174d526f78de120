"""C10: multi-configuration fits share their inputs and stay independent otherwise.

Every sequence of operations up to a depth is executed on a real MultiFits object (a second one coexists). A small
abstract state (which configuration has which settings, inputs, name and results) predicts all that can be observed; the
numbers are those of single fits with the same settings.
"""
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.checks import c09 as S
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all sequences of operations (add / replace a configuration, set dataset, auxiliary data, reader arguments and name, fit "
    "all / one / some configurations by accessor, apply or directly, change the settings of one configuration, read, "
    "store and load) up to the stated depth on a container with two configurations and a second container; state = "
    "abstract state (settings, inputs, names and results of every configuration); every sequence is executed on the real objects"
)
ASSUMPTIONS = [
    "the optimiser is replaced by a stand-in",
    "a name set for all configurations holds for the configurations that exist at that time (each one keeps its own name "
    "otherwise)",
]
NOTE = "Complete for the stated operations up to the stated depth with up to three configurations."
TIMEOUT = 900

KINDS = [(0, 0, False, False), (1, 1, True, False), (2, 2, False, True)]  # defdict, set_V_SRF, sig0, dB
AUX = [pd.DataFrame(dict(x=[1.0, 2.0]), index=pd.date_range("2020-01-01", periods=2)), {"k": 3}, None]
RARG = [dict(gpi=1), dict(gpi=2, name="two"), None]
IDS = ["site", "1 2", 7]


def new_fit(k, own):
    """a fit that comes with its own inputs"""
    dd, vs, sig0, dB = KINDS[k]
    f = S.new((2, dd, vs, sig0, dB, False))
    f.aux_data, f.reader_arg, f.ID = {"own": own}, dict(gpi=99 + own), f"own_{own}"
    return f


def ident(x):
    return str(x) if str(x).isidentifier() else f"RT1_{x}"


class World:
    def __init__(self):
        from rt1.rtfits import MultiFits

        self.n = 0
        self.m = MultiFits(dataset=S.DS[0], aux_data=AUX[0], reader_arg=RARG[0])
        self.inp = [0, 0, 0]
        self.cfg = {}  # name -> [defdict, set_V_SRF, sig0, dB, ID, settings of the results]
        self.add("a", 0)
        self.add("b", 1)
        self.other = MultiFits(dataset=S.DS[1], aux_data=AUX[1], reader_arg=RARG[1])
        self.other_fit = new_fit(2, 50)
        self.other.add_config("a", self.other_fit)

    def add(self, name, k):
        self.n += 1
        self.m.add_config(name, new_fit(k, self.n))
        self.cfg[name] = [*KINDS[k], f"own_{self.n}", None]

    def settings(self, name):
        return (self.inp[0], *self.cfg[name][:4], False)

    def fitted(self, names):
        for i in names:
            self.cfg[i][5] = self.settings(i)

    def name(self, i):
        return list(self.cfg)[i]

    def do(self, op, scratch):
        m, (name, *a) = self.m, op
        if name == "add":
            self.add(*a)
        elif name == "ds":
            m.set_dataset(S.DS[a[0]])
            self.inp[0] = a[0]
        elif name == "aux":
            m.set_aux_data(AUX[a[0]])
            self.inp[1] = a[0]
        elif name == "rarg":
            m.set_reader_arg(RARG[a[0]])
            self.inp[2] = a[0]
        elif name == "id":
            m.set_ID(IDS[a[0]])
            for v in self.cfg.values():
                v[4] = ident(IDS[a[0]])
        elif name == "fit-acc":
            with G.capture_optimizer(G.distinct):
                for cb in m.accessor.performfit().values():
                    cb()
            self.fitted(self.cfg)
        elif name == "fit-one":
            with G.capture_optimizer(G.distinct):
                m.accessor.performfit()[self.name(a[0])](print_progress=False)
            self.fitted([self.name(a[0])])
        elif name == "fit-apply":
            use = [self.name(i) for i in a[0]]
            with G.capture_optimizer(G.distinct):
                list(m.apply(lambda fit: fit.performfit(), use_config=use))
            self.fitted(use)
        elif name == "fit-direct":
            with G.capture_optimizer(G.distinct):
                m.configs[a[0]].performfit()
            self.fitted([self.name(a[0])])
        elif name == "cfg-dd":
            m.configs[self.name(a[0])].defdict = S.DD[a[1]]
            self.cfg[self.name(a[0])][0] = a[1]
        elif name == "cfg-sig0":
            f = getattr(m.configs, self.name(a[0]))
            f.sig0 = not f.sig0
            self.cfg[self.name(a[0])][2] ^= True
        elif name == "read":
            for f in m.configs:
                S.read_grouping(f), S.read_model(f)
        elif name == "dump":
            p = os.path.join(scratch, "m.dump")
            m.dump(p, mini=a[0])
            with open(p, "rb") as file:
                self.m = pickle.load(file)
            os.remove(p)
        else:
            raise KeyError(name)

    def state(self):
        return (tuple(self.inp), tuple((k, *map(str, v[:4]), v[4][:4], str(v[5])) for k, v in self.cfg.items()))


OPS = [("add", "c", 2), ("add", "a", 1), ("add", "b", 2), ("ds", 1), ("ds", 2), ("aux", 1), ("aux", 2), ("rarg", 1), ("rarg", 2), ("id", 0), ("id", 1),
       ("fit-acc",), ("fit-one", 1), ("fit-apply", (1, 0)), ("fit-direct", 0), ("cfg-dd", 0, 1), ("cfg-sig0", 1), ("read",),
       ("dump", True), ("dump", False)]
CORE = [("add", "c", 0), ("add", "a", 1), ("ds", 1), ("fit-acc",), ("cfg-dd", 1, 3), ("read",), ("dump", False)]


def cases(tier, seed):
    out = []
    ops, depth = (OPS, 2) if tier == "quick" else (OPS, 3)
    for op in ops:
        out.append(["OPS", [op], depth])
    d = 4 if tier == "quick" else 5
    for a in itertools.product(CORE, repeat=d - 2):
        out.append(["CORE", list(a), d])
    return out


def case_key(c):
    return f"{c[0]}/{';'.join(' '.join(map(str, o)) for o in c[1])}/{c[2]}"


def tup(o):
    return tuple(tuple(i) if isinstance(i, list) else i for i in o)


def run_case(case):
    G.memo_lambdify()
    res = core.Result()
    alpha, first, depth = case
    first = [tup(o) for o in first]
    ops = dict(OPS=OPS, CORE=CORE)[alpha]
    scratch = tempfile.mkdtemp(dir=core.SCRATCH)
    try:
        for k in range(len(first), depth + 1):
            if alpha == "CORE" and k < depth:
                continue
            for rest in itertools.product(ops, repeat=k - len(first)):
                one(res, first + list(rest), scratch)
                if len(res.violations) > 8:
                    return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


_REF = {}


def reference(s):
    if s not in _REF:
        _REF[s] = S.snapshot(S.new(s), ("grouping", "model", "fit"))
    return _REF[s]


def one(res, seq, scratch):
    key = ";".join(" ".join(map(str, o)) for o in seq)
    w = World()
    w.do(("read",), scratch)
    try:
        for op in seq:
            w.do(op, scratch)
            res.transitions += 1
    except Exception as e:  # noqa: BLE001
        res.violation(key + "/error", core.exc_text(e))
        return
    observe(res, w, key)
    res.traces += 1
    res.evaluations += 1
    res.state(w.state())


def eq(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)) or isinstance(b, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b)
    return a == b


def observe(res, w, key):
    m, names = w.m, list(w.cfg)
    E = lambda ok, q, msg: expect(res, ok, f"{key}/{q}", msg)  # noqa: E731

    # structure of the container
    E(list(m.config_names) == names, "names", lambda: f"{m.config_names} != {names}")
    fits = {i: m.configs[i] for i in names}
    E([id(f) for f in m.configs] == [id(f) for f in fits.values()], "iter", "iteration over the configs")
    E(all(m.configs[i] is f for i, f in enumerate(fits.values())), "int", "access by number")
    E(len({id(f) for f in fits.values()}) == len(names), "distinct", "the same object for two configurations")

    # what all fits see (settings are read before anything else is evaluated)
    ds = S.DS[w.inp[0]].sort_index()
    for n, f in (*fits.items(), (None, m)):
        E(f.dataset is not None and f.dataset.sort_index(kind="stable").equals(S.DS[w.inp[0]].sort_index(kind="stable")) and
          f.dataset.index.is_monotonic_increasing and len(f.dataset) == len(ds), f"dataset/{n}", lambda: f"dataset {f.dataset}")
        E(eq(f.aux_data, AUX[w.inp[1]]), f"aux/{n}", lambda: f"aux_data {f.aux_data}")
        E(f.reader_arg == RARG[w.inp[2]], f"rarg/{n}", lambda: f"reader_arg {f.reader_arg}")
    E(m.ID == w.cfg[names[0]][4], "ID", lambda: f"{m.ID}")
    for n, f in fits.items():
        E(f.ID == w.cfg[n][4], f"ID/{n}", lambda: f"{f.ID} != {w.cfg[n][4]}")
        E(f.config_name == n, f"config_name/{n}", lambda: f"{f.config_name}")

    # accessor and apply: the same as on the fits alone
    acc = m.accessor
    for prop in ("ID", "sig0", "dB", "int_Q", "dataset", "defdict", "lsq_kwargs", "set_V_SRF", "index", "inc",
                 "data", "param_dyn_df", "fixed_dict", "_startvaldict", "_order"):
        got = getattr(acc, prop)
        E(list(got) == names, f"accessor/{prop}/names", lambda: f"{list(got)}")
        for n, f in fits.items():
            v = getattr(f, prop)
            ok = got[n] is v or (prop in ("set_V_SRF",) and got[n] == v)
            if not ok and prop not in ("dataset", "defdict", "set_V_SRF"):
                if isinstance(v, (bool, str, int)) or v is None or prop == "lsq_kwargs":
                    ok = got[n] == v
                else:
                    ok = S.differs(S.freeze(got[n]), S.freeze(v)) is None
            E(ok, f"accessor/{prop}/{n}", lambda: f"{got[n]} != {v}")

    for use, exp in ((None, names), (names[-1], names[-1:]), (names[::-1], names[::-1]), ([names[1]], [names[1]])):
        calls = []

        def func(fit, **kw):
            calls.append(fit)
            return fit.config_name, kw

        got = list(m.apply(func, use_config=use, z=3))
        E([i[0] for i in got] == exp and [i[1] for i in got] == [(n, dict(z=3)) for n in exp] and
          [id(f) for f in calls] == [id(fits[n]) for n in exp], f"apply/{use}", lambda: f"{got}")

    # methods: arguments, evaluation on demand
    x = {n: S.values(f) for n, f in fits.items()}
    cbs = acc.calc_model(return_components=True)
    E(list(cbs) == names, "accessor/calc_model/names", lambda: f"{list(cbs)}")
    refs = {n: S.read_model(f) for n, f in fits.items()}
    for n, f in fits.items():
        got = cbs[n](res_dict=x[n])
        exp = f.calc_model(res_dict=x[n], return_components=True)
        E(S.differs(S.freeze(got), S.freeze(exp)) is None, f"accessor/calc_model/{n}", "other values than the fit alone")
        got = cbs[n](res_dict=x[n], return_components=False)
        exp = f.calc_model(res_dict=x[n], return_components=False)
        E(S.differs(S.freeze(got), S.freeze(exp)) is None, f"accessor/calc_model-kw/{n}", "keyword not passed on")
    before = {n: f.__dict__.get("res_dict") for n, f in fits.items()}
    acc.performfit(print_progress=False)  # (nothing is evaluated)
    E(all(f.__dict__.get("res_dict") is before[n] for n, f in fits.items()), "lazy", "evaluated without a call")

    # every configuration is what a fit with these settings is
    own = {}
    for n, f in fits.items():
        own[n] = dict(grouping=S.read_grouping(f), model=refs[n], res=None if "res_dict" not in f.__dict__ else
                      S.freeze({k: np.asarray(v) for k, v in f.res_dict.items()}))
    o = w.other
    E([f is w.other_fit for f in o.configs] == [True] and list(o.accessor.ID) == ["a"] and
      o.accessor.ID["a"] == "own_50" and eq(w.other_fit.aux_data, AUX[1]) and w.other_fit.reader_arg == RARG[1],
      "other", "the other container has been changed")
    om = S.read_model(w.other_fit)
    for n in names:
        r = reference(w.settings(n))
        for q in ("grouping", "model"):
            d = S.differs(own[n][q], r[q])
            E(d is None, f"{q}/{n}", lambda: f"{w.settings(n)}{d}"[:1000])
        s = w.cfg[n][5]
        d = S.differs(own[n]["res"], None if s is None else reference(s)["fit"][4]) if (own[n]["res"] is None) == (s is None) \
            else f": {own[n]['res']}"
        E(d is None, f"results/{n}", lambda: f"results of {s}{d}"[:1000])
    d = S.differs(om, reference((1, 2, 2, False, True, False))["model"])
    E(d is None, "other/model", lambda: f"{d}"[:1000])
