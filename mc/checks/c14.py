"""C14: the analytic interaction contribution equals the numerical integral with the same expansions."""
import itertools

import numpy as np

from mc import core, ref, rtgen
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every pair (volume function, surface function) of the alphabet (all implemented functions, 1-6 coefficients, "
    "generalised scattering angles, symbolic parameters, linear combinations) x geometry settings (mono and all 16 f/v "
    "combinations) x backend x angles (incl. nadir) x optical depths; every value is compared to a numerical quadrature of "
    "the defining integrals; distinct = distinct (functions, geometry, angles, tau)"
)
NOTE = ("Complete for the stated alphabet of functions, angles and optical depths; members of linear combinations that share "
        "the scattering angle have the same number of coefficients.")
TIMEOUT = 600

G2 = [-0.9, 0.8, 1.1]
GS = [0.9, 1.0, 0.7]
VS = [
    ["Rayleigh"],
    ["HG", 0.3, 1, None],
    ["HG", 0.45, 4, None],
    ["HG", "q", 3, G2],
    ["HGRay", 0.4, 5, None],
    ["HGRay", "q*0.5", 2, G2],
    ["LinV", [[0.3, ["Rayleigh", [-0.8, 1.0, 0.9]]], ["1-w", ["HG", 0.35, 4, None]]]],
    ["LinV", [["w", ["HGRay", 0.35, 3, None]], [0.5, ["HG", "q", 3, G2]]]],
]
SS = [
    ["Iso"],
    ["Cos", 2, 3, None],
    ["Cos", 5, 6, GS],
    ["HGs", "t", 4, None],
    ["HGs", 0.2, 1, GS],
    ["HGn", "t", 3, [0.7, 1.0, 1.0]],
    ["HGn", 0.3, 4, None],
    ["LinS", [["w", ["HGs", 0.3, 3, None]], [0.2, ["Iso"]], [0.4, ["Cos", 1, 3, None]]]],
    ["LinS", [["1-w", ["HGs", "t", 2, GS]], [0.2, ["HGn", "t", 3, None]]]],
]
VS_T = VS + [["HG", -0.3, 7, None], ["HGRay", 0.6, 8, G2], ["LinV", [["w", ["HGRay", "q", 4, None]],
                                                                    ["1-w", ["HG", "q", 4, None]]]]]
SS_T = SS + [["Cos", 1, 8, None], ["HGs", 0.6, 7, GS], ["HGn", 0.5, 6, GS]]
VALS = dict(q=0.33, t=0.27, w=0.4)
GEOMS = ["".join(g) for g in itertools.product("vf", repeat=4)]
T0 = [0.35, 0.0, 1.1, 1.45]
TEX = [0.35, 0.8, 1.3]
P0 = [0.0, 0.9]
PEX = [np.pi, 2.2]
TAU = [0.004, 0.3, 2.5]


def cases(tier, seed):
    vs, ss = (VS, SS) if tier == "quick" else (VS_T, SS_T)
    out = []
    for n, (v, s) in enumerate(itertools.product(vs, ss)):
        # every pair: mono, vvvv and (quick) two other settings that rotate through all of them
        geoms = ["mono", "vvvv"] + (GEOMS[1:] if tier != "quick" else [GEOMS[1 + (n * 2 + i) % 15] for i in range(2)])
        if tier == "quick":
            out.append([v, s, geoms, n])
        else:
            out += [[v, s, [g], n + i] for i, g in enumerate(geoms)]
    return out


def case_key(c):
    return rtgen.label(c[0]) + "|" + rtgen.label(c[1])


def run_case(case):
    from rt1.rt1 import RT1

    v, s, geoms, n = case
    res = core.Result()
    (vs, vn), (ss, sn) = rtgen.spec(v, VALS), rtgen.spec(s, VALS)
    names = sorted(_free(v) | _free(s))
    pd_ = {k: VALS[k] for k in names}
    om, N, bsf, I0 = 0.23, 0.31, 0.15, 1.7
    known = {}

    def want(t0, te, p0, pe, tau):
        k = (t0, te, p0, pe, tau)
        if k not in known:
            known[k] = ref.interaction(vs, vn, ss, sn, t0, te, p0, pe, tau, om, N, bsf, I0)
        return known[k]

    for gi, g in enumerate(geoms):
        backend = ("symengine", "sympy")[(n + gi) % 2]
        if g == "mono":
            combos = [[(t, t, p, p + np.pi) for t in T0] for p in P0]
        else:
            ax = [T0, TEX, P0, PEX]
            # fixed angles: one object for each of (up to) three different sets of values
            fpos = [i for i in range(4) if g[i] == "f"]
            fsets = list(itertools.product(*[ax[i] for i in fpos]))
            if len(fsets) > 3:
                fsets = [fsets[(n * 5 + k * 7) % len(fsets)] for k in range(3)]
            combos = []
            for fs in dict.fromkeys(fsets):
                rng = [list(x) for x in ax]
                for i, f in zip(fpos, fs):
                    rng[i] = [f]
                combos.append(list(itertools.product(*rng)))
        for combo in combos:
            arr = [np.array(x) for x in zip(*combo)]
            for ti, tau in enumerate(TAU):
                key = f"{case_key(case)}/{g}/{backend}/tau={tau}"
                try:
                    if ti == 0:
                        R = RT1(I0, *arr, V=rtgen.make_v(v, tau, om), SRF=rtgen.make_s(s, N), geometry=g, bsf=bsf,
                                param_dict=dict(pd_), lambda_backend=backend, verbosity=0)
                    else:
                        R.V.tau = tau
                    got = np.broadcast_to(np.asarray(R.interaction(), float), arr[0].shape)
                except Exception as e:  # noqa: BLE001
                    res.violation(key + "/error", core.exc_text(e))
                    break
                for c, x in zip(combo, got):
                    y = want(*c, tau)
                    if not expect(res, np.isclose(x, y, rtol=1e-7, atol=1e-13), key,
                                  lambda: f"interaction at (t_0, t_ex, p_0, p_ex)={c}: {x} instead of {y}"):
                        break
                    res.evaluations += 1
                    res.state((rtgen.label(v), rtgen.label(s), g, c, tau))
            if len(res.violations) > 4:
                return res
    res.sample({"V": rtgen.label(v), "SRF": rtgen.label(s), "geometry": geoms[0]})
    return res


def _free(d):
    out = set()
    for x in d[1:]:
        if isinstance(x, str):
            out |= {k for k in VALS if k in x}
        elif isinstance(x, list):
            for m in x:
                if isinstance(m, list):
                    if isinstance(m[0], str):
                        out |= {k for k in VALS if k in m[0]}
                    out |= _free(m[1])
    return out
