"""C11: a configuration file yields exactly the fit it describes.

Files are generated from a grammar (sections x kinds of values x spellings x orders); for every file the expected content is
known from its construction (never from parsing the text).  The real parser and the real fit objects are compared to it.
"""
import copy
import itertools
import shutil
import sys
import tempfile
from datetime import datetime
from pathlib import Path

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc import ref
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all files generated from the grammar: every combination of the parts of a parameter definition; every pair of "
    "scattering functions with every kind of argument (number, name, expression) and linear combinations, in all rotations "
    "of the lines; every spelling of every typed option; every pair of sets of overridden sections in files with several "
    "configurations, in different orders of the sections; all sequences of reads / changes of returned objects / module "
    "imports up to the stated depth; one trace = one file written, parsed and turned into fits by the real code"
)
ASSUMPTIONS = ["values are written without line breaks and inline comments", "the optimiser is replaced by a stand-in"]
NOTE = "Complete for the stated grammar; values are taken from small alphabets."
TIMEOUT = 600

BASE = {
    "fits_kwargs": [("sig0", "False"), ("dB", "False"), ("int_Q", "False"), ("verbose", "0")],
    "least_squares_kwargs": [("ftol", "1e-3"), ("method", "trf")],
    "defdict": [("omega", "[False, 0.3]"), ("tau", "[True, 0.5, None, 0.01, 1.5]"), ("N", "[False, 0.2]")],
    "RT1_V": [("V_name", "Rayleigh"), ("tau", "tau"), ("omega", "omega")],
    "RT1_SRF": [("SRF_name", "Isotropic"), ("NormBRDF", "N")],
    "CONFIGFILES": [("module__processing_cfg", "cfgmod.py")],
    "PROCESS_SPECS": [("path__save_path", "out"), ("dumpfolder", "dump")],
}
EXPECT = dict(
    lsq_kwargs=dict(ftol=1e-3, method="trf"),
    fits_kwargs=dict(sig0=False, dB=False, int_Q=False, verbose=0),
    defdict=dict(omega=[False, 0.3], tau=[True, 0.5, None, ([0.01], [1.5]), False], N=[False, 0.2]),
    set_V_SRF=dict(V_props=dict(V_name="Rayleigh", tau="tau", omega="omega"), SRF_props=dict(SRF_name="Isotropic", NormBRDF="N")),
)


def write(path, sections, sep=" = "):
    with open(path, "w") as f:
        for name, lines in sections.items() if isinstance(sections, dict) else sections:
            f.write(f"[{name}]\n" + "".join(f"{k}{sep}{v}\n" if v is not None else f"{k}\n" for k, v in lines) + "\n")
    return path


def parser(path):
    from rt1.rtparse import RT1_configparser

    return RT1_configparser(str(path))


def same(a, b):
    """equal values of equal types (a: expected); whitespace within names and expressions does not matter"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, type(a)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a.replace(" ", "") == b.replace(" ", "")
    if type(a) is float:
        return type(b) is float and (a == b or (a != a and b != b))
    return type(a) is type(b) and a == b


def unordered(d):
    return {k: unordered(d[k]) for k in sorted(d)} if isinstance(d, dict) else d


# ------------------------------------------------------------------------------------ grammar of parameter definitions
NUMS = [("0.25", 0.25), ("1", 1.0), ("5.e-2", 0.05)]
FREQ = [("None", None), ("index", "index"), ("manual", "manual"), ("2M", "2M"), ("A", "A"), ("5", "5"), ("2 + manual", "2+manual"),
        ("manual + 3D", "manual+3D")]
BND = [(("0.01", "0.5"), ([0.01], [0.5])), (("-1", "2."), ([-1.0], [2.0])), (("1e-3", "1E2"), ([1e-3], [100.0]))]
INTERP = [(None, False), ("True", True), ("False", False)]
LAYOUT = [lambda x: "[" + ", ".join(x) + "]", lambda x: "[" + ",".join(x) + "]", lambda x: "[ " + " ,   ".join(x) + " ]"]


def definitions():
    for lay in LAYOUT:
        for n, v in NUMS + [("auxiliary", "auxiliary")]:
            yield lay(["False", n]), [False, v]
            for (f, fv), (b, bv), (i, iv) in itertools.product(FREQ, BND, INTERP):
                yield lay(["True", n, f, *b] + ([i] if i else [])), [True, v, fv, bv, iv]


def dd_case(res, tmp, part):
    defs = list(definitions())
    per = 8
    names = ["tau", "omega", "N", "t_v", "BSF", "bsf", "a_1", "X"]
    chunks = [defs[i: i + per] for i in range(0, len(defs), per)]
    for j, ch in enumerate(chunks):
        if j % 4 != part:
            continue
        exp = dict(zip(names, (d[1] for d in ch)))
        p = write(tmp / f"d{j}.ini", {**BASE, "defdict": list(zip(names, (d[0] for d in ch)))},
                  sep=[" = ", "=", " : ", "    =   "][j % 4])
        got = parser(p).get_config()["defdict"]
        res.traces += 1
        for k, d in zip(names, ch):
            e = list(exp[k])
            g = list(got.get(k, []))
            if len(g) > 2 and isinstance(g[2], int) and not isinstance(g[2], bool):
                g[2] = str(g[2])  # an integer variability may be a number
            res.state(("dd", d[0]))
            expect(res, same(e, g), f"defdict/{d[0]}", f"'{k} = {d[0]}' was parsed as {got.get(k)!r} instead of {exp[k]!r}")
        expect(res, list(got) == list(exp), f"defdict-names/{j}", f"parsed parameters {list(got)} instead of {list(exp)}")


# ------------------------------------------------------------------------------------ scattering functions
VALS = dict(tau=0.4, omega=0.3, N=0.25, t_v=0.35, t_s=0.15, x=0.8, w=0.6)
FITTED = ("tau", "t_v", "N", "w")
NUMEXPR = {
    # text -> (parsed value, value of the argument for VALS)
    "number": lambda name: ("0.2", 0.2, lambda p: 0.2),
    "int": lambda name: ("1", 1.0, lambda p: 1.0),
    "name": lambda name: (name, name, lambda p: p[name]),
    "expr": lambda name: (f"{name} * x + 0.05", f"{name} * x + 0.05", lambda p: p[name] * p["x"] + 0.05),
    "func": lambda name: (f"exp(-{name}) / (1 + x**2)", f"exp(-{name}) / (1 + x**2)", lambda p: np.exp(-p[name]) / (1 + p["x"] ** 2)),
}
AS = [None, ("[0.9, 1., 1.]", [0.9, 1.0, 1.0]), ("[ -.5,1,  1.0 ]", [-0.5, 1.0, 1.0])]
VF = ["Rayleigh", "HenyeyGreenstein", "HGRayleigh"]
SF = ["Isotropic", "CosineLobe", "HenyeyGreenstein", "HG_nadirnorm"]


def component(kind, func, tkind, a, prefix="", tname="t_v", ncoefs=4):
    """-> lines, expected props, reference(params)"""
    nm = "V_name" if kind == "V" else "SRF_name"
    lines, props = [(prefix + nm, func)], {nm: func}
    t = i = None
    if func == "Rayleigh" and a:
        lines.append((prefix + "a", a[0]))
        props["a"] = a[1]
    if func not in ("Rayleigh", "Isotropic"):
        if func == "CosineLobe":
            lines.append((prefix + "i", "3"))
            props["i"] = 3
        else:
            txt, val, t = ("0", 0.0, lambda p: 0.0) if tkind == "int" else NUMEXPR[tkind](tname)
            lines.append((prefix + "t", txt))
            props["t"] = val
        lines.append((prefix + "ncoefs", str(ncoefs)))
        props["ncoefs"] = ncoefs
        if a:
            lines.append((prefix + "a", a[0]))
            props["a"] = a[1]
    A = tuple(a[1]) if a else (ref.A_V if kind == "V" else ref.A_S)

    def fn(p):
        if func == "Rayleigh":
            return ("Rayleigh", A)
        if func == "Isotropic":
            return ("Iso",)
        if func == "CosineLobe":
            return ("Cos", 3, A)
        return ({"V": dict(HenyeyGreenstein="HG", HGRayleigh="HGRay"),
                 "S": dict(HenyeyGreenstein="HGs", HG_nadirnorm="HGn")}[kind][func], t(p), A)

    return lines, props, fn


def top(kind, k1, k2=None):
    if kind == "V":
        a, b = NUMEXPR[k1]("tau"), NUMEXPR[k2]("omega")
        return [("tau", a[0]), ("omega", b[0])], dict(tau=a[1], omega=b[1]), (a[2], b[2])
    a = NUMEXPR[k1]("N")
    return [("NormBRDF", a[0])], dict(NormBRDF=a[1]), (a[2],)


FRACS = {"num": ("0.3", 0.3, lambda p: 0.3), "name": ("w", "w", lambda p: p["w"]), "expr": ("1 - w", "1 - w", lambda p: 1 - p["w"]),
         None: (None, 1, lambda p: 1.0)}


def lincomb(kind, parts):
    """parts: [(frac kind, func, tkind, a)]"""
    name = "LinCombV" if kind == "V" else "LinCombSRF"
    nm = "V_name" if kind == "V" else "SRF_name"
    lines, props, fns, choices = [(nm, name)], {nm: name}, [], []
    for letter, (fr, func, tk, a) in zip("ABC", parts):
        pre = f"{letter}__"
        l, pr, fn = component(kind, func, tk, a, pre, "t_v" if letter == "A" else "t_s")
        txt, val, ff = FRACS[fr]
        if txt is not None:
            l = [(pre + "frac", txt)] + l
        lines += l
        choices.append([val, pr])
        fns.append((ff, fn))
    props["Vchoices" if kind == "V" else "SRFchoices"] = choices
    return lines, props, lambda p: ("Lin", tuple((f(p), g(p)) for f, g in fns))


def functions(kind, thorough=False):
    """-> (lines, props, reference)"""
    for func in VF if kind == "V" else SF:
        for tk in NUMEXPR if func not in ("Rayleigh", "Isotropic", "CosineLobe") else ["number"]:
            if tk == "int" and func == "HG_nadirnorm":
                continue  # (normalisation undefined for t=0)
            for a in AS if func != "Isotropic" else [None]:
                yield component(kind, func, tk, a, tname="t_v" if kind == "V" else "t_s")
    two = VF if kind == "V" else SF
    for f1, f2 in itertools.product(two, repeat=2):
        for fr in (("num", "num"), ("name", "expr"), (None, "name")):
            yield lincomb(kind, [(fr[0], f1, "name", AS[1]), (fr[1], f2, "expr", None)])
    if kind == "V":
        yield lincomb(kind, [("num", "HenyeyGreenstein", "number", None), ("name", "Rayleigh", "number", None),
                             ("expr", "HGRayleigh", "name", AS[2])])
    else:
        yield lincomb(kind, [(None, "CosineLobe", "number", None), ("name", "HG_nadirnorm", "func", AS[1]),
                             ("expr", "Isotropic", "number", None)])


def rotations(lines, all_=False):
    n = len(lines)
    idx = range(n) if all_ else sorted({0, 1, n // 2})
    for i in idx:
        yield lines[i:] + lines[:i]
    yield lines[::-1]


def ddv(fitted=FITTED):
    return [(k, f"[True, {v}, None, 0.001, 2.]" if k in fitted else f"[False, {v}]") for k, v in VALS.items()]


INC = np.array([0.3, 0.6, 0.9])


def dataset():
    return pd.DataFrame(dict(inc=INC, sig=[0.1, 0.2, 0.3]), index=pd.date_range("2020-01-01", periods=3))


def props_ok(exp, got):
    """order of the lines is irrelevant (except for the order of the elements of a linear combination)"""
    exp, got = dict(exp), dict(got)
    for c in ("Vchoices", "SRFchoices"):
        if (c in exp) != (c in got):
            return False
        if c in exp:
            a, b = exp.pop(c), [list(x) for x in got.pop(c)]
            if len(a) != len(b):
                return False
            for x in a:
                for y in b:
                    if (same(x[0], y[0]) or (x[0] == y[0] == 1)) and same(unordered(x[1]), unordered(dict(y[1]))):
                        b.remove(y)
                        break
                else:
                    return False
    return same(unordered(exp), unordered(got))


def model_ok(res, key, fit, vspec, sspec, top_v, top_s, sig0=False, dB=False, vals=VALS, fitted=FITTED):
    """the model of the fit equals the reference evaluated for the described functions"""
    fit.dataset = dataset()
    p = vals
    used = [k for k in fitted if k in fit.defdict]
    want = ref.mono(vspec(p), sspec(p), INC, top_v[0](p), top_v[1](p), top_s[0](p), p.get("bsf", 0.0))
    want = ref.to_units(want[0] + want[1], INC, sig0, dB)
    m = np.ravel(np.ma.filled(fit.calc_model(res_dict={k: [p[k]] for k in used}), np.nan))
    return expect(res, m.shape == want.shape and np.allclose(m, want, rtol=1e-8, equal_nan=True), key,
                  f"the model of the parsed fit is {m} instead of {want}")


def vs_case(res, tmp, kind, idx, thorough):
    fl = list(functions(kind))
    lines, props, fn = fl[idx]
    tops = list(itertools.product(NUMEXPR, repeat=2)) if kind == "V" else [(k,) for k in NUMEXPR]
    simple_v = component("V", "HGRayleigh", "name", None)
    simple_s = component("S", "HG_nadirnorm", "name", None, tname="t_s")
    n = 0
    G.memo_lambdify()
    for j, tk in enumerate(tops):
        tl, tp, tf = top(kind, *tk)
        for r, ll in enumerate(rotations(lines + tl, all_=thorough)):
            if kind == "V":
                ol, op, of = top("S", "name")
                sl, sp_, sf = simple_s
                sec = {"RT1_V": ll, "RT1_SRF": sl + ol}
                expv, exps = {**props, **tp}, {**sp_, **op}
                args = (fn, sf, tf, of)
            else:
                ol, op, of = top("V", "name", "name")
                vl, vp, vf = simple_v
                sec = {"RT1_V": vl + ol, "RT1_SRF": ll}
                expv, exps = {**vp, **op}, {**props, **tp}
                args = (vf, fn, of, tf)
            # (parameters are only fitted if they are used)
            name, arg = dict(V=("tau", "tau"), S=("N", "NormBRDF"))[kind]
            fitted = [k for k in FITTED if k != name or not isinstance(tp[arg], float)]
            p = write(tmp / f"v{n}.ini", {**BASE, **sec, "defdict": ddv(fitted)})
            n += 1
            cp = parser(p)
            got = cp.get_config()["set_V_SRF"]
            key = f"{kind}/{idx}/{'-'.join(tk)}/r{r}"
            res.state(("vs", repr(ll)))
            res.traces += 1
            expect(res, props_ok(expv, got["V_props"]), f"V_props/{key}", f"parsed {got['V_props']} instead of {expv} from {sec}")
            expect(res, props_ok(exps, got["SRF_props"]), f"SRF_props/{key}",
                   f"parsed {got['SRF_props']} instead of {exps} from {sec}")
            if r == (idx + j) % 4:
                res.transitions += 1
                try:
                    fit = cp.get_fitobject()
                    model_ok(res, f"model/{key}", fit, *args, fitted=fitted)
                except Exception:
                    expect(res, False, f"model/{key}", f"no fit from {sec}: {core.exc_text(sys.exc_info()[1])}")


# ------------------------------------------------------------------------------------ typed options
BOOLS = [("True", True), ("False", False), ("yes", True), ("no", False), ("on", True), ("off", False), ("1", True), ("0", False),
         ("TRUE", True), ("false", False)]
INTS = [("0", 0), ("12", 12), ("-3", -3)]
FLTS = [("0.5", 0.5), ("1e-8", 1e-8), ("3", 3.0), ("-.25", -0.25)]
STRS = [("trf", "trf"), ("some text", "some text"), ("None", None), ("/a/b.c", "/a/b.c"), ("AbC", "AbC")]


def options_case(res, tmp):
    n = 0

    def run(section, lines, expd, get, what):
        nonlocal n
        n += 1
        p = write(tmp / f"o{n}.ini", {**BASE, section: lines})
        res.state((section, repr(lines)))
        res.traces += 1
        try:
            got = get(parser(p))
        except Exception:
            return expect(res, False, what, f"[{section}] {lines} cannot be parsed: {core.exc_text(sys.exc_info()[1])}")
        return expect(res, same(expd, got), what, f"[{section}] {lines} was parsed as {got} instead of {expd}")

    for (a, av), (b, bv), (c, cv) in itertools.product(BOOLS, repeat=3):
        if len({a, b, c}) == 3 or a == b == c:
            run("fits_kwargs", [("sig0", a), ("dB", b), ("int_Q", c), ("verbose", "2"), ("lambda_backend", "sympy")],
                dict(sig0=av, dB=bv, int_Q=cv, verbose=2, lambda_backend="sympy"), lambda c_: c_.get_config()["fits_kwargs"],
                f"fits_kwargs/{a}-{b}-{c}")
    for (v, vv), (s, sv) in itertools.product(INTS, STRS):
        run("fits_kwargs", [("verbose", v), ("lambda_backend", s), ("_fnevals_input", None)],
            dict(verbose=vv, lambda_backend=sv, _fnevals_input=None), lambda c_: c_.get_config()["fits_kwargs"], f"fits_kwargs/{v}/{s}")
    for (v, vv), (f, fv), (s, sv) in itertools.product(INTS, FLTS, STRS):
        run("least_squares_kwargs",
            [("verbose", v), ("max_nfev", v), ("ftol", f), ("gtol", f), ("xtol", f), ("method", s), ("x_scale", "jac")],
            dict(verbose=vv, max_nfev=vv, ftol=fv, gtol=fv, xtol=fv, method=sv, x_scale="jac"),
            lambda c_: c_.get_config()["lsq_kwargs"], f"lsq_kwargs/{v}/{f}/{s}")
    for k in ("ftol", "gtol", "xtol", "max_nfev"):
        run("least_squares_kwargs", [(k, "None")], {k: None}, lambda c_: c_.get_config()["lsq_kwargs"], f"lsq_kwargs/{k}=None")

    base = BASE["PROCESS_SPECS"]
    bexp = dict(save_path=Path("out"), dumpfolder="dump")

    def specs(lines, expd, what):
        run("PROCESS_SPECS", base + lines, {**bexp, **expd}, lambda c_: c_.get_process_specs(), what)

    d1, d2 = datetime(2018, 1, 2), datetime(2019, 11, 30, 12, 45, 6, 250000)
    DF = "%Y-%m-%d %H:%M:%S.%f"
    items = []
    items += [(f"bool__{{}}", t, v) for t, v in BOOLS]
    items += [(f"int__{{}}", t, v) for t, v in INTS]
    items += [(f"float__{{}}", t, v) for t, v in FLTS]
    items += [("{}", t, v) for t, v in STRS]
    items += [("path__{}", t, Path(t)) for t in ("a/b", "/x/y z/q.nc", "rel", "/a.b/c")]
    items += [("path__{}", f"{tmp}/a/../b", (tmp / "b").resolve())]
    items += [("datetime__{}", "2018-01-02 00:00:00.0", d1), ("datetime__{}", "2.1.2018 fmt=%d.%m.%Y", d1),
              ("datetime__{}", "2.1.2018   fmt=   %d.%m.%Y", d1), ("datetime__{}", d2.strftime(DF), d2),
              ("datetime__{}", "30-11-19 12:45:06.25 fmt=%d-%m-%y %H:%M:%S.%f", d2)]
    for lay in ("[{}]", "[ {} ]"):
        for join in (",", ", ", "  ,  "):
            def L(x):
                return lay.format(join.join(x))
            items += [("list__{}", L(["a", "B c", "AbCd#"]), ["a", "B c", "AbCd#"]), ("list__{}", L(["x"]), ["x"]),
                      ("list__float__{}", L([".1", "2", "-1e3"]), [0.1, 2.0, -1000.0]), ("list__int__{}", L(["1", "-2"]), [1, -2]),
                      ("list__int__{}", L(["7"]), [7]), ("list__bool__{}", L(["True", "0", "off", "yes"]), [True, False, False, True]),
                      ("list__datetime__{}", L(["2.1.2018", "3.1.2018"]) + " fmt=%d.%m.%Y", [d1, datetime(2018, 1, 3)]),
                      ("list__datetime__{}", L(["2.1.2018"]) + "   fmt= %d.%m.%Y", [d1]),
                      ("list__datetime__{}", L(["2018-01-02 00:00:00.0", d2.strftime(DF)]), [d1, d2])]
    items += [("list__{}", "[]", []), ("list__float__{}", "[]", []), ("list__int__{}", "[ ]", []), ("list__bool__{}", "[]", [])]
    for tag, t, v in items:
        for name in ("v", "Some_Name", "int__"[:3] + "_x", "list_of"):
            specs([(tag.format(name), t)], {name: v}, f"specs/{tag}/{t}/{name}")
    # all pairs of different kinds of values in one file, in both orders
    short = {}
    for tag, t, v in items:
        short.setdefault(tag, (t, v))
    for (a, (at, av)), (b, (bt, bv)) in itertools.permutations(short.items(), 2):
        specs([(a.format("p"), at), (b.format("q"), bt)], dict(p=av, q=bv), f"specs-pair/{a}/{b}")
    # references to other values
    specs([("x", "${dumpfolder}"), ("float__f", "${int__i}.5"), ("int__i", "4"), ("m", "${CONFIGFILES:module__processing_cfg}")],
          dict(x="dump", f=4.5, i=4, m="cfgmod.py"), "specs/references")
    specs([("path__a", "${path__save_path}/sub"), ("list__l", "[${dumpfolder}, ${x}]"), ("x", "1")],
          dict(a=Path("out/sub"), l=["dump", "1"], x="1"), "specs/references2")


def required_case(res, tmp):
    """incomplete files are refused"""
    n = 0

    def refused(sections, what):
        nonlocal n
        n += 1
        p = write(tmp / f"r{n}.ini", sections)
        res.traces += 1
        res.state(("refused", what))
        try:
            parser(p)
        except AssertionError:
            return
        except Exception:
            expect(res, False, f"refused/{what}", f"a config-file without {what} raised {core.exc_text(sys.exc_info()[1])}")
            return
        expect(res, False, f"refused/{what}", f"a config-file without {what} was accepted")

    for s in BASE:
        refused({k: v for k, v in BASE.items() if k != s}, s)
    refused({**BASE, "PROCESS_SPECS": BASE["PROCESS_SPECS"][1:]}, "path__save_path")
    refused({**BASE, "PROCESS_SPECS": BASE["PROCESS_SPECS"][:1]}, "dumpfolder")
    refused({**BASE, "CONFIGFILES": [("module__other", "x.py")]}, "module__processing_cfg")
    refused({**BASE, "CONFIGFILES": [("processing_cfg_module", "abc"), ("module__other", "x.py")]}, "module__abc")
    for order in itertools.permutations(range(3)):
        names = list(BASE)
        secs = [(names[(i + order[0]) % 7] if False else k, v) for i, (k, v) in enumerate(BASE.items())]
        secs = [secs[i] for i in order] + secs[3:]
        c = parser(write(tmp / f"ok{order}.ini".replace(" ", ""), secs))
        res.traces += 1
        expect(res, same(EXPECT, unorder_top(c.get_config())), f"base/{order}", f"{c.get_config()} instead of {EXPECT}")
    bad = {**BASE, "#config a unknown": [("x", "1")]}
    c = parser(write(tmp / "bad.ini", bad))
    try:
        c.config_names, c.get_fitobject()
        expect(res, False, "refused/unknown-section", "overrides of an unknown section were accepted")
    except AssertionError:
        pass
    alt = {**BASE, "CONFIGFILES": [("processing_cfg_module", "abc"), ("module__abc", "x.py")]}
    parser(write(tmp / "alt.ini", alt))


def unorder_top(c):
    return {k: c[k] for k in EXPECT if k in c}


# ------------------------------------------------------------------------------------ several configurations
OVER = {
    # section -> per variant: (lines, function changing the expectation)
    "defdict": [([("tau", "[False, 0.7]"), ("omega", "[True, 0.1, D, 0.05, 0.9, True]")],
                 lambda e: e["defdict"].update(tau=[False, 0.7], omega=[True, 0.1, "D", ([0.05], [0.9]), True])),
                ([("bsf", "[False, 0.15]")], lambda e: e["defdict"].update(bsf=[False, 0.15]))],
    "fits_kwargs": [([("sig0", "True")], lambda e: e["fits_kwargs"].update(sig0=True)),
                    ([("dB", "yes"), ("verbose", "1")], lambda e: e["fits_kwargs"].update(dB=True, verbose=1))],
    "least_squares_kwargs": [([("ftol", "1e-5"), ("max_nfev", "7")], lambda e: e["lsq_kwargs"].update(ftol=1e-5, max_nfev=7)),
                             ([("method", "dogbox")], lambda e: e["lsq_kwargs"].update(method="dogbox"))],
    "RT1_V": [([("tau", "tau*N")], lambda e: e["set_V_SRF"]["V_props"].update(tau="tau*N")),
              ([("V_name", "HenyeyGreenstein"), ("t", "0.3"), ("ncoefs", "3")],
               lambda e: e["set_V_SRF"]["V_props"].update(V_name="HenyeyGreenstein", t=0.3, ncoefs=3))],
    "RT1_SRF": [([("NormBRDF", "0.15")], lambda e: e["set_V_SRF"]["SRF_props"].update(NormBRDF=0.15)),
                ([("SRF_name", "CosineLobe"), ("i", "2"), ("ncoefs", "3")],
                 lambda e: e["set_V_SRF"]["SRF_props"].update(SRF_name="CosineLobe", i=2, ncoefs=3))],
}
SECT = list(OVER)


def subset(m, variant, name):
    """-> sections, expectation"""
    e = copy.deepcopy(EXPECT)
    secs = []
    for i, s in enumerate(SECT):
        if m >> i & 1:
            l, f = OVER[s][variant]
            secs.append((f"#config {name} {s}", l))
            f(e)
    if not secs:
        secs = [(f"#config {name}", [])]
    return secs, e


def described_model(e):
    """the closed form described by an expectation of this alphabet (constants; for the model of a fit)"""
    v, s = e["set_V_SRF"]["V_props"], e["set_V_SRF"]["SRF_props"]

    def val(x):
        return (lambda p: x) if isinstance(x, float) else (lambda p: eval(x, {}, dict(p)))

    vs = (lambda p: ("Rayleigh",)) if v["V_name"] == "Rayleigh" else (lambda p: ("HG", v["t"], ref.A_V))
    ss = (lambda p: ("Iso",)) if s["SRF_name"] == "Isotropic" else (lambda p: ("Cos", s["i"], ref.A_S))
    return vs, ss, (val(v["tau"]), val(v["omega"])), (val(s["NormBRDF"]),)


def check_fit(res, key, fit, e, run=True):
    fk = e["fits_kwargs"]
    ok = expect(res, (fit.sig0, fit.dB, fit.int_Q) == (fk["sig0"], fk["dB"], fk["int_Q"]) and fit.sig0 is fk["sig0"],
                f"{key}/units", f"sig0, dB, int_Q = {fit.sig0}, {fit.dB}, {fit.int_Q} instead of {fk}")
    dd = dict(fit.defdict.to_dict())
    want = {k: (v + [False])[:5] if v[0] and len(v) == 4 else v for k, v in e["defdict"].items()}
    dd = {k: (list(v) + [False])[:5] if v[0] and len(v) == 4 else list(v[: 5 if v[0] else 2]) for k, v in dd.items()}
    ok &= expect(res, list(dd) == list(want) and all(list(map(repr, dd[k])) == list(map(repr, want[k])) for k in want),
                 f"{key}/defdict", f"definitions of the fit: {dd} instead of {want}")
    ok &= expect(res, dict(fit.lsq_kwargs or {}) == e["lsq_kwargs"], f"{key}/lsq", f"{fit.lsq_kwargs} instead of {e['lsq_kwargs']}")
    vals = {k: v[1] for k, v in e["defdict"].items()}
    fitted = [k for k, v in e["defdict"].items() if v[0]]
    p = {**vals, **{k: 0.45 for k in fitted}}
    ok &= model_ok(res, f"{key}/model", fit, *described_model(e), sig0=fk["sig0"], dB=fk["dB"], vals=p, fitted=fitted) \
        if all(e["defdict"][k][2] is None for k in fitted) else True
    if run:
        fit.dataset = dataset()
        if fitted:
            with G.capture_optimizer() as c:
                fit.performfit()
            opts = {k: c[0].get(k) for k in e["lsq_kwargs"]}
            expect(res, opts == e["lsq_kwargs"], f"{key}/options", f"the optimiser got {opts} instead of {e['lsq_kwargs']}")
            n = {k: 3 if e["defdict"][k][2] == "D" else 1 for k in fitted}
            x0 = sorted(itertools.chain(*([e["defdict"][k][1]] * n[k] for k in fitted)))
            expect(res, np.allclose(sorted(np.atleast_1d(c[0]["x0"])), x0), f"{key}/x0", f"start values {c[0]['x0']} instead of {x0}")
            for side in (0, 1):
                b = sorted(itertools.chain(*(e["defdict"][k][3][side] * n[k] for k in fitted)))
                expect(res, np.allclose(sorted(np.atleast_1d(c[0]["bounds"][side])), b), f"{key}/bounds",
                       f"bounds {c[0]['bounds']} instead of {b}")
    return ok


def multi_case(res, tmp, m1, tier):
    n = 0
    G.memo_lambdify()
    for m2 in range(32):
        for v1, v2 in ((0, 1), (1, 1), (1, 0)) if tier == "quick" else itertools.product((0, 1), repeat=2):
            s1, e1 = subset(m1, v1, "one")
            s2, e2 = subset(m2, v2, "a_2")
            third = (m1 + m2) % 5 == 0
            inter = [x for p in itertools.zip_longest(s2, s1) for x in p if x]
            orders = [list(BASE.items()) + s1 + s2, s2 + list(BASE.items()) + s1, inter + list(BASE.items())]
            for o in range(3):
                if tier == "quick" and o != (m1 + m2) % 3:
                    continue
                secs = orders[o] + ([("#config zz", [])] if third else [])
                key = f"multi/{m1}/{m2}/{v1}{v2}/{o}"
                res.state(key)
                res.traces += 1
                exp = dict(one=e1, a_2=e2)
                if third:
                    exp["zz"] = EXPECT
                p = write(tmp / f"m{n}.ini", secs)
                n += 1
                cp = parser(p)
                want_names = list(dict.fromkeys(s[0].split()[1] for s in secs if s[0].startswith("#config")))
                expect(res, sorted(cp.config_names) == sorted(want_names), f"{key}/names", f"{cp.config_names} instead of {want_names}")
                for name in want_names:
                    got = unorder_top(cp.get_config(name))
                    for part in EXPECT:
                        expect(res, same(unordered(exp[name][part]), unordered(got.get(part))), f"{key}/{name}/{part}",
                               f"'{part}' of config '{name}' is {got.get(part)} instead of {exp[name][part]}")
                got = unorder_top(cp.get_config())
                expect(res, same(EXPECT, got), f"{key}/common", f"the common sections became {got}")
                if not (m2 % 4 == m1 % 4 or m2 == 31 or tier != "quick"):
                    continue
                res.transitions += 1
                try:
                    fits = cp.get_fitobject()
                except Exception:
                    expect(res, False, f"{key}/fit", f"no fit: {core.exc_text(sys.exc_info()[1])}")
                    continue
                expect(res, list(fits.config_names) == want_names, f"{key}/order",
                       f"the configurations of the fit are {fits.config_names} instead of {want_names} (order of the file)")
                for name in want_names:
                    check_fit(res, f"{key}/{name}", getattr(fits.configs, name), exp[name])
                # changing one configuration leaves the others as described
                first, rest = want_names[0], want_names[1:]
                f = getattr(fits.configs, first)
                f.lsq_kwargs["ftol"] = 0.5
                f.defdict.tau = [False, 99.0]
                f.set_V_SRF["V_props"]["omega"] = 0.01
                for name in rest:
                    check_fit(res, f"{key}/{name}/after-change", getattr(fits.configs, name), exp[name], run=False)
                again = cp.get_fitobject()
                check_fit(res, f"{key}/{first}/again", getattr(again.configs, first), exp[first], run=False)


# overrides of (parts of) linear combinations
def lin_case(res, tmp):
    va = [("V_name", "LinCombV"), ("tau", "tau"), ("omega", "0.3"), ("A__V_name", "HenyeyGreenstein"), ("A__t", "t_v"),
          ("A__ncoefs", "3"), ("A__frac", "w"), ("B__V_name", "Rayleigh"), ("B__frac", "1 - w")]
    sa = [("SRF_name", "LinCombSRF"), ("NormBRDF", "N"), ("A__SRF_name", "CosineLobe"), ("A__i", "2"), ("A__ncoefs", "3"),
          ("A__frac", "0.4"), ("B__SRF_name", "HenyeyGreenstein"), ("B__t", "t_s"), ("B__ncoefs", "3"), ("B__frac", "w")]
    ve = dict(V_name="LinCombV", tau="tau", omega=0.3, Vchoices=[["w", dict(V_name="HenyeyGreenstein", t="t_v", ncoefs=3)],
                                                               ["1 - w", dict(V_name="Rayleigh")]])
    se = dict(SRF_name="LinCombSRF", NormBRDF="N", SRFchoices=[[0.4, dict(SRF_name="CosineLobe", i=2, ncoefs=3)],
                                                               ["w", dict(SRF_name="HenyeyGreenstein", t="t_s", ncoefs=3)]])

    def ch(e, c, k, /, **kw):
        e[c][k][1].update(kw)

    VO = [
        ([("A__t", "0.15")], lambda e: ch(e, "Vchoices", 0, t=0.15)),
        ([("A__frac", "0.25")], lambda e: e["Vchoices"][0].__setitem__(0, 0.25)),
        ([("A__t", "t_s"), ("B__V_name", "HGRayleigh"), ("B__t", "0.2"), ("B__ncoefs", "2")],
         lambda e: (ch(e, "Vchoices", 0, t="t_s"), ch(e, "Vchoices", 1, V_name="HGRayleigh", t=0.2, ncoefs=2))),
        ([("C__V_name", "HGRayleigh"), ("C__t", "0.2"), ("C__ncoefs", "2"), ("C__frac", "0.1")],
         lambda e: e["Vchoices"].append([0.1, dict(V_name="HGRayleigh", t=0.2, ncoefs=2)])),
        ([("tau", "0.7")], lambda e: e.update(tau=0.7)),
        ([("V_name", "Rayleigh")], lambda e: (e.update(V_name="Rayleigh"), e.pop("Vchoices"))),
    ]
    SO = [
        ([("A__i", "5")], lambda e: ch(e, "SRFchoices", 0, i=5)),
        ([("B__frac", "0.3"), ("A__a", "[0.9, 1, 1]")],
         lambda e: (e["SRFchoices"][1].__setitem__(0, 0.3), ch(e, "SRFchoices", 0, a=[0.9, 1.0, 1.0]))),
        ([("B__t", "t_v * 0.5")], lambda e: ch(e, "SRFchoices", 1, t="t_v * 0.5")),
        ([("SRF_name", "HG_nadirnorm"), ("t", "0.2"), ("ncoefs", "4")],
         lambda e: (e.update(SRF_name="HG_nadirnorm", t=0.2, ncoefs=4), e.pop("SRFchoices"))),
        ([], lambda e: None),
    ]
    PLAINV = BASE["RT1_V"], EXPECT["set_V_SRF"]["V_props"]
    n = 0

    def evl(x, p):
        return x if not isinstance(x, str) else eval(x, {}, dict(p))

    def spec_v(d, p):
        if "Vchoices" in d:
            return ("Lin", tuple((evl(f, p), spec_v(m, p)) for f, m in d["Vchoices"]))
        a = tuple(d.get("a", ref.A_V))
        return {"Rayleigh": lambda: ("Rayleigh",), "HenyeyGreenstein": lambda: ("HG", evl(d["t"], p), a),
                "HGRayleigh": lambda: ("HGRay", evl(d["t"], p), a)}[d["V_name"]]()

    def spec_s(d, p):
        if "SRFchoices" in d:
            return ("Lin", tuple((evl(f, p), spec_s(m, p)) for f, m in d["SRFchoices"]))
        a = tuple(d.get("a", ref.A_S))
        return {"Isotropic": lambda: ("Iso",), "CosineLobe": lambda: ("Cos", d["i"], a),
                "HenyeyGreenstein": lambda: ("HGs", evl(d["t"], p), a), "HG_nadirnorm": lambda: ("HGn", evl(d["t"], p), a)}[d["SRF_name"]]()

    G.memo_lambdify()
    for (i, (vl, vf)), (j, (sl, sf)) in itertools.product(enumerate(VO), enumerate(SO)):
        for common in ("lin", "plain-to-lin"):
            ev, es = copy.deepcopy(ve), copy.deepcopy(se)
            if common == "lin":
                vf(ev), sf(es)
                secs = [(k, v) for k, v in {**BASE, "RT1_V": va, "RT1_SRF": sa, "defdict": ddv()}.items()]
                secs += [("#config x defdict", [("tau", "[False, 0.4]")])] if i == 4 else []
                secs += [("#config x RT1_V", vl)] + ([("#config x RT1_SRF", sl)] if sl else []) + [("#config y", [])]
                other = (ve, se)
            else:
                if i or j:
                    continue
                secs = [(k, v) for k, v in {**BASE, "defdict": ddv()}.items()] + [("#config x RT1_V", va), ("#config x RT1_SRF", sa)]
                secs += [("#config y", [])]
                other = (PLAINV[1], EXPECT["set_V_SRF"]["SRF_props"])
            p = write(tmp / f"l{n}.ini", secs)
            n += 1
            cp = parser(p)
            key = f"lincomb/{common}/{i}/{j}"
            fx = [k for k in FITTED if k != "tau" or i != 4]
            res.state(key)
            res.traces += 1
            for name, (a, b) in dict(x=(ev, es), y=other).items():
                got = cp.get_config(name)["set_V_SRF"]
                expect(res, props_ok(a, got["V_props"]), f"{key}/{name}/V", f"parsed {got['V_props']} instead of {a}")
                expect(res, props_ok(b, got["SRF_props"]), f"{key}/{name}/SRF", f"parsed {got['SRF_props']} instead of {b}")
            try:
                fits = cp.get_fitobject()
                for name, (a, b) in dict(x=(ev, es), y=other).items():
                    model_ok(res, f"{key}/{name}/model", getattr(fits.configs, name), lambda p, a=a: spec_v(a, p),
                             lambda p, b=b: spec_s(b, p), (lambda p, a=a: evl(a["tau"], p), lambda p, a=a: evl(a["omega"], p)),
                             (lambda p, b=b: evl(b["NormBRDF"], p),), fitted=fx if name == "x" else FITTED)
            except Exception:
                expect(res, False, f"{key}/fit", f"no fit: {core.exc_text(sys.exc_info()[1])}")


# ------------------------------------------------------------------------------------ histories of one parser
def hist_case(res, tmp, first, depth):
    (tmp / "mods").mkdir()
    (tmp / "out/dump/cfg").mkdir(parents=True)
    for sub, who in ((tmp / "mods", "original"), (tmp / "out/dump/cfg", "copy")):
        for m in ("cfgmod", "extra"):
            (sub / f"{m}.py").write_text(f"WHO = {who + '-' + m!r}\nVALUES = []\n")
    s1, e1 = subset(0b11111, 0, "one")
    s2, e2 = subset(0b10101, 1, "a_2")
    secs = list({**BASE, "CONFIGFILES": [("module__processing_cfg", f"{tmp}/mods/cfgmod.py"), ("module__more", f"{tmp}/mods/extra.py")],
                 "PROCESS_SPECS": [("path__save_path", f"{tmp}/out"), ("dumpfolder", "dump"), ("list__int__l", "[1, 2]")]}.items())
    secs += s1 + s2
    p = write(tmp / "h.ini", secs)
    exp = {None: EXPECT, "one": e1, "a_2": e2}
    specs = dict(save_path=tmp / "out", dumpfolder="dump", l=[1, 2])

    def cfg(name):
        def op(cp, key):
            got = cp.get_config(name)
            expect(res, same(unordered(exp[name]), unordered(unorder_top(got))), key, f"config {name}: {got} instead of {exp[name]}")
            got["defdict"]["tau"] = [False, 3.0]  # changes of what was returned must not come back
            got["defdict"]["N"][1] = 77.0
            got["set_V_SRF"]["V_props"]["tau"] = 9
            got["lsq_kwargs"].clear()
            got["fits_kwargs"]["sig0"] = None
        return op

    def spec(cp, key):
        got = cp.get_process_specs()
        expect(res, same(specs, got), key, f"process specs {got} instead of {specs}")
        got["l"].append(3)
        got["dumpfolder"] = "x"

    def mod(name, load_copy):
        def op(cp, key):
            m = cp.get_module(name, load_copy=load_copy)
            want = ("copy" if load_copy else "original") + "-" + {"processing_cfg": "cfgmod", "more": "extra"}[name]
            expect(res, m.WHO == want, key, f"imported module {m.WHO} instead of {want}")
        return op

    def mods(load_copy):
        def op(cp, key):
            got = {k: m.WHO for k, m in cp.get_all_modules(load_copy=load_copy).items()}
            w = "copy" if load_copy else "original"
            want = dict(processing_cfg=f"{w}-cfgmod", more=f"{w}-extra")
            expect(res, got == want, key, f"imported modules {got} instead of {want}")
        return op

    def fits(cp, key):
        f = cp.get_fitobject()
        for name in ("one", "a_2"):
            check_fit(res, f"{key}/{name}", getattr(f.configs, name), exp[name], run=False)
        f.configs.one.lsq_kwargs["ftol"] = 3.0
        f.configs.a_2.defdict.N = [False, 88.0]

    OPS = {"cfg": cfg(None), "cfg-one": cfg("one"), "cfg-a_2": cfg("a_2"), "specs": spec, "fits": fits,
           "mod": mod("processing_cfg", False), "mod-copy": mod("processing_cfg", True), "more": mod("more", False),
           "more-copy": mod("more", True), "mods": mods(False), "mods-copy": mods(True)}
    known = set(sys.modules)
    G.memo_lambdify()
    for seq in itertools.product(OPS, repeat=depth - 1):
        seq = (first, *seq)
        cp = parser(p)
        res.traces += 1
        res.state(seq)
        for i, o in enumerate(seq):
            res.transitions += 1
            try:
                OPS[o](cp, "history/" + ">".join(seq[: i + 1]))
            except Exception:
                expect(res, False, "history/" + ">".join(seq[: i + 1]), f"failed: {core.exc_text(sys.exc_info()[1])}")
        for k in set(sys.modules) - known:
            if k in ("cfgmod", "extra"):
                del sys.modules[k]


HIST_OPS = ["cfg", "cfg-one", "cfg-a_2", "specs", "fits", "mod", "mod-copy", "more", "more-copy", "mods", "mods-copy"]


# ------------------------------------------------------------------------------------
def cases(tier, seed):
    out = [["defdict", i] for i in range(4)] + [["options"], ["required"], ["lincomb"]]
    for kind in ("V", "S"):
        out += [["vs", kind, i, tier != "quick"] for i in range(len(list(functions(kind))))]
    out += [["multi", m, tier] for m in range(32)]
    out += [["hist", o, 3 if tier == "quick" else 4] for o in HIST_OPS]
    return out


def case_key(c):
    return "/".join(map(str, c))


def run_case(case):
    res = core.Result()
    tmp = Path(tempfile.mkdtemp(dir=core.SCRATCH))
    try:
        if case[0] == "defdict":
            dd_case(res, tmp, case[1])
        elif case[0] == "options":
            options_case(res, tmp)
        elif case[0] == "required":
            required_case(res, tmp)
        elif case[0] == "lincomb":
            lin_case(res, tmp)
        elif case[0] == "vs":
            vs_case(res, tmp, *case[1:])
        elif case[0] == "multi":
            multi_case(res, tmp, *case[1:])
        else:
            hist_case(res, tmp, *case[1:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res.evaluations = res.traces + res.transitions
    res.sample(case_key(case))
    return res
