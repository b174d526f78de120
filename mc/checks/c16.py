"""C16: results do not depend on how the same model is specified, nor on the history of the object."""
import itertools
import pickle

import numpy as np

from mc import core, ref, rtgen
from mc.checks import c14
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "all sequences (up to the depth) of changes of parameters, parameter dictionaries and angles of one RT1 object, with and "
    "without evaluations in between, each evaluated and compared to the closed forms / quadrature for the current settings "
    "(states = distinct settings x last operation); plus, for every pair of scattering functions, every equivalent "
    "specification (numeric/symbolic, backends, scalar/element/array, f/v/mono geometries, pre-evaluated coefficients, "
    "pickled copy); traces = executed histories"
)
NOTE = "Complete for the stated alphabets and depth (changes of scattering functions of an existing object are not included)."
TIMEOUT = 800
VALS = c14.VALS


def cases(tier, seed):
    out = []
    vs, ss = (c14.VS, c14.SS) if tier == "quick" else (c14.VS_T, c14.SS_T)
    for v, s in itertools.product(vs, ss):
        out.append(["equiv", v, s, tier])
    for v, s, g in HIST:
        for op in range(len(ops_for(v, s, g))):
            out.append(["hist", v, s, g, op, (3 if tier == "quick" else 4) - (g == "fvfv")])
    return out


HIST = [
    (["HG", "q", 3, None], ["HGs", "t", 3, None], "mono"),
    (["HGRay", "q*0.5", 3, None], ["HGn", "t", 2, [0.9, 1.0, 1.0]], "vvvv"),
    (["LinV", [["w", ["HG", "q", 3, None]], ["1-w", ["Rayleigh"]]]], ["Cos", 2, 3, None], "fvfv"),
]


def case_key(c):
    return c[0] + "/" + c14.case_key(c[1:]) + ("" if c[0] == "equiv" else f"/{c[3]}/op{c[4]}")


# ------------------------------------------------------------------------------------ histories
def ops_for(v, s, g):
    names = sorted(c14._free(v) | c14._free(s))
    ops = [("tau", 1.1), ("tau", [0.2, 0.6, 0.9]), ("omega", 0.7), ("N", 0.8), ("bsf", 0.45)]
    for k in names:
        ops += [("param", k, VALS[k] + 0.12), ("inplace", k, VALS[k] * 0.5)]
    ops += [("params", {k: [VALS[k] * x for x in (0.8, 1.0, 1.2)] for k in names})]
    if g == "mono":
        ops += [("t_0", [0.9, 0.1, 0.5]), ("t_0", [0.0, 1.3, 0.7])]
    elif g == "vvvv":
        ops += [("t_0", [0.9, 0.1, 0.5]), ("t_ex", [0.3, 0.8, 1.2]), ("p_0", [0.1, 0.4, 0.9]), ("p_ex", [2.0, 2.5, 3.1])]
    else:
        ops += [("t_ex", [0.3, 0.8, 1.2]), ("t_ex", [1.3, 0.2, 0.0]), ("p_ex", [2.0, 2.5, 3.1])]
    ops += [("int_Q", False)]
    return ops


EVALS = ["calc", "interaction", "jacobian"]
_cache = {}


def initial(v, s, g):
    return dict(tau=0.3, omega=0.25, N=0.4, bsf=0.1, params={k: VALS[k] for k in sorted(c14._free(v) | c14._free(s))},
                t_0=[0.2, 0.6, 1.0] if g != "fvfv" else [0.4] * 3, t_ex=[0.5, 0.5, 0.9],
                p_0=[0.2, 0.2, 0.6] if g == "vvvv" else [0.2] * 3, p_ex=[1.0, 3.0, 4.0], int_Q=True)


def apply(st, op):
    st = {**st, "params": dict(st["params"])}
    if op[0] in ("param", "inplace"):
        st["params"][op[1]] = op[2]
    elif op[0] == "params":
        st["params"] = dict(op[1])
    else:
        st[op[0]] = op[1]
    return st


def do(R, op):
    k, x = op[0], op[-1]
    arr = lambda y: np.array(y) if isinstance(y, list) else y
    if k == "tau":
        R.V.tau = arr(x)
    elif k == "omega":
        R.V.omega = x
    elif k == "N":
        R.SRF.NormBRDF = x
    elif k == "param":
        R.param_dict = {**R.param_dict, op[1]: x}
    elif k == "inplace":
        R.param_dict[op[1]] = x
    elif k == "params":
        R.param_dict = {i: np.array(j) for i, j in x.items()}
    else:
        setattr(R, k, arr(x))


def angles(st, g):
    t0, p0 = np.array(st["t_0"], float), np.array(st["p_0"], float)
    return (t0, t0, p0, p0 + np.pi) if g == "mono" else (t0, np.array(st["t_ex"]), p0, np.array(st["p_ex"]))


def expected(v, s, g, st):
    key = repr((v, s, g, st))
    if key not in _cache:
        A = angles(st, g)
        n = len(A[0])
        b = lambda x: np.broadcast_to(np.asarray(x, float), (n,))
        tau = b(st["tau"])
        out = np.empty((3, n))
        for i in range(n):
            vals = {k: float(b(x)[i]) for k, x in st["params"].items()}
            (vs, vn), (ss, sn) = rtgen.spec(v, vals), rtgen.spec(s, vals)
            a = [x[i] for x in A]
            out[0, i] = ref.surface(ss, *a, tau[i], st["N"], st["bsf"])
            out[1, i] = ref.volume(vs, *a, tau[i], st["omega"], st["bsf"])
            sk = repr((v, s, a, vals, tau[i]))
            if sk not in _cache:
                _cache[sk] = ref.interaction(vs, vn, ss, sn, *a, tau[i], 1.0, 1.0)
            out[2, i] = _cache[sk] * st["N"] * st["omega"] * (1 - st["bsf"])
        _cache[key] = out
    return _cache[key]


def check_state(res, key, R, v, s, g, st):
    want = expected(v, s, g, st)
    got = R.calc()
    exp_ = [want.sum(0), *want] if st["int_Q"] else [want[:2].sum(0), *want[:2]]
    names = ["total", "surface", "volume", "interaction"]
    if not expect(res, len(got) == len(exp_), key + "/calc", f"calc() returned {len(got)} values"):
        return False
    good = True
    for nme, a, b in zip(names, got, exp_):
        good &= expect(res, np.allclose(np.broadcast_to(a, b.shape), b, rtol=1e-7), key + "/" + nme,
                       lambda: f"{nme}: {a} instead of {b}  (settings {st})")
    return good


def run_hist(res, v, s, g, first, depth):
    from rt1.rt1 import RT1

    ops = ops_for(v, s, g)
    st0 = initial(v, s, g)

    fnevals = None
    for tail in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = [ops[first]] + [ops[i] for i in tail]
        for mode in ("each", "end"):
            st = st0
            A = angles(st0, g)
            R = RT1(1.0, *A, V=rtgen.make_v(v, st["tau"], st["omega"]), SRF=rtgen.make_s(s, st["N"]), geometry=g,
                    bsf=st["bsf"], param_dict=dict(st["params"]), verbosity=0, _fnevals_input=fnevals if g != "fvfv" else None)
            if fnevals is None:
                fnevals = R._fnevals
            if mode == "each":
                R.calc()
            bad = False
            for n, op in enumerate(seq):
                do(R, op)
                st = apply(st, op)
                res.transitions += 1
                if mode == "each" or n == len(seq) - 1:
                    key = f"{case_key(['hist', v, s, g, first])}/{[*map(str, seq[: n + 1])]}/{mode}"
                    if not check_state(res, key, R, v, s, g, st):
                        bad = True
                        break
                    if mode == "end":  # evaluating again gives the same
                        check_state(res, key + "/again", R, v, s, g, st)
                    res.state((v, s, g, st, op))
            res.traces += 1
            res.evaluations += 1
            if bad and len(res.violations) > 4:
                return


# ------------------------------------------------------------------------------------ equivalent specifications
def run_equiv(res, v, s, tier):
    from rt1.rt1 import RT1

    names = sorted(c14._free(v) | c14._free(s))
    lab = case_key(["equiv", v, s])
    pd_ = {k: VALS[k] for k in names}
    tau, om, N, bsf = 0.4, 0.3, 0.35, 0.2

    def obj(A, symb=True, V=None, S=None, **kw):
        vv, sv, p = (v, s, dict(pd_)) if symb else (freeze(v), freeze(s), {})
        return RT1(1.3, *A, V=V or rtgen.make_v(vv, kw.pop("tau", tau), kw.pop("omega", om)),
                   SRF=S or rtgen.make_s(sv, kw.pop("N", N)), bsf=bsf, param_dict={**p, **kw.pop("more", {})}, verbosity=0, **kw)

    T, P = [0.3, 0.9, 1.2], 0.4
    A = [np.array(T), np.array(T), np.full(3, P), np.full(3, P + np.pi)]
    base = np.array(obj(A, geometry="vvvv", lambda_backend="sympy").calc())
    variants = {
        "symengine": lambda: obj(A, geometry="vvvv", lambda_backend="symengine").calc(),
        "numeric": lambda: obj(A, False, geometry="vvvv").calc(),
        "numeric-sympy": lambda: obj(A, False, geometry="vvvv", lambda_backend="sympy").calc(),
        "mono": lambda: obj(A, geometry="mono").calc(),
        "mono-sympy": lambda: obj(A, geometry="mono", lambda_backend="sympy").calc(),
        "mono-ignores-exit": lambda: obj([A[0], A[0] * 0.3, A[2], A[3] * 0.1], geometry="mono").calc(),
        "vvff": lambda: obj([A[0], A[1], np.array([P]), np.array([P + np.pi])], geometry="vvff").calc(),
        "scalar-azimuth": lambda: obj([A[0], A[1], P, P + np.pi], geometry="vvvv").calc(),
        "element": lambda: np.concatenate([obj([x[i:i + 1] for x in A], geometry="vvvv").calc() for i in range(3)], axis=1),
        "scalar": lambda: np.concatenate([obj([float(x[i]) for x in A], geometry="mono").calc() for i in range(3)], axis=1),
        "ffff": lambda: np.concatenate([obj([float(x[i]) for x in A], geometry="ffff").calc() for i in range(3)], axis=1),
        "array-parameters": lambda: obj(A, geometry="vvvv", tau=np.full(3, tau), omega=np.full(3, om), N=np.full(3, N),
                                        more={k: np.full(3, x) for k, x in pd_.items()}).calc(),
        "repeated": lambda: [o.calc() for o in [obj(A, geometry="vvvv")] for _ in range(3)][-1],
    }

    def with_fn():
        o = obj(A, geometry="vvvv")
        return obj(A, geometry="vvvv", fn_input=o.fn).calc()

    def with_fnevals():
        o = obj(A, geometry="mono")
        return obj(A, geometry="mono", fn_input=1, _fnevals_input=o._fnevals).calc()

    def pickled():
        o = obj(A, geometry="mono")
        o._fnevals
        return pickle.loads(pickle.dumps(o)).calc()

    def pickled_fixed():
        o = obj([A[0], A[1], np.array([P]), np.array([P + np.pi])], geometry="vvff")
        o.calc()
        return pickle.loads(pickle.dumps(o)).calc()

    def reordered():  # the order of the parameter dictionary is irrelevant
        o = obj(A, geometry="mono")
        o2 = RT1(1.3, *A, V=o.V, SRF=o.SRF, bsf=bsf, param_dict=dict(reversed(list(o.param_dict.items()))), verbosity=0)
        return o2.calc()

    def shared_functions():  # two objects using the same scattering functions
        o = obj(A, geometry="mono")
        o2 = RT1(1.3, *[x[:2] for x in A], V=o.V, SRF=o.SRF, bsf=bsf, param_dict=dict(pd_), verbosity=0)
        o2.calc()
        return o.calc()

    if "Lin" in lab:  # (linear combinations can not be pickled)
        pickled = pickled_fixed = None
    variants.update(fn_input=with_fn, fnevals_input=with_fnevals, pickled=pickled, pickled_fixed=pickled_fixed,
                    reordered=reordered, shared=shared_functions)
    for name, f in variants.items():
        if f is None:
            continue
        key = f"{lab}/{name}"
        try:
            got = np.array([np.broadcast_to(x, base.shape[1:]) for x in f()])
            expect(res, got.shape == base.shape and np.allclose(got, base, rtol=1e-9, atol=1e-14), key,
                   lambda: f"{got} instead of {base}")
        except Exception as e:  # noqa: BLE001
            res.violation(key + "/error", core.exc_text(e))
        res.transitions += 1
        res.traces += 1
        res.evaluations += 1
        res.state(key)


def freeze(d):
    """symbolic parameters replaced by their values"""
    def g(x):
        return float(rtgen.num(x, VALS)) if isinstance(x, str) else x

    if d[0] in ("LinV", "LinS"):
        return [d[0], [[g(w), freeze(m)] for w, m in d[1]]]
    return [d[0]] + [g(x) for x in d[1:]]


def run_case(case):
    res = core.Result()
    if case[0] == "equiv":
        run_equiv(res, *case[1:])
    else:
        run_hist(res, *case[1:])
    res.sample({"case": case_key(case)})
    return res
