"""C08: the optimiser gets the documented residuals, their true derivative, start values and bounds."""
import itertools

import numpy as np

from mc import core
from mc import fitgen as G
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every combination of model specification (plain, bare-soil, functional and shared parameters, linear combinations, "
    "callable), unit, weights, dataset shape and pair of parameter dynamics; the residual vector and the jacobian handed "
    "to the optimiser are compared at two points to closed-form residuals and to central differences; distinct = distinct "
    "(model, dynamics, dataset, unit, weights)"
)
NOTE = ("Complete for the stated models, dynamics and dataset shapes; derivatives are compared to finite differences at "
        "two points each, interpolated parameters are excluded (documented as first-order only).")
TIMEOUT = 400
QDYN = [None, "D", "index", 2, "manual"]
TDYN = [None, "D", "2D", "index", 2, 3, "manual", "2D + manual"]
QMODELS = [*G.MODELS]


def cases(tier, seed):
    out = []
    if tier == "quick":
        for m, d1 in itertools.product(G.MODELS, QDYN):
            out.append([m, d1, QDYN, ["ragged", "intraday", "long"], "quick"])
    else:
        for m, d1, d2 in itertools.product(G.MODELS, TDYN, TDYN):
            out.append([m, d1, [d2], ["single", "daily", "ragged", "intraday", "unsorted", "long"], "thorough"])
    return out


def case_key(c):
    return f"{c[0]}-{c[1]}"


MAN = ["runs", "neg"]
KNOWN = "jacobian/d_volume_d_tau=1/mu_0+mu_ex"


def check(res, model, ds, dyn, sig0, dB, weights, start, key, int_Q=False):
    manual = {k: MAN[i % 2] for i, k in enumerate(dyn) if dyn[k] is not None and "manual" in str(dyn[k])}
    kw = dict(sig0=sig0, dB=dB)
    lsq = dict(ftol=1e-7, max_nfev=13, x_scale="jac")
    fit, df = G.build(model, ds, dyn, weights=weights, manual=manual, start=start, lsq=lsq, int_Q=int_Q, **kw)
    ref = G.Reference(model, df, dyn, **kw)
    with G.capture_optimizer(G.distinct) as calls:
        fit.performfit()
    ok = expect(res, len(calls) == 1, key + "/calls", f"{len(calls)} optimisations")
    if not ok:
        return
    c = calls[0]
    fun, jac, x0 = c["fun"], c["jac"], np.atleast_1d(np.asarray(c["x0"], float))
    x = G.distinct(x0)
    rd = fit.res_dict
    if not expect(res, x0.size == ref.total, key + "/nvals", f"{x0.size} values are fitted instead of {ref.total}"):
        return
    expect(res, np.array_equal(np.sort(np.concatenate([np.ravel(rd[k]) for k in rd])), np.sort(x)), key + "/result",
           lambda: f"res_dict {rd} is not the solution {x}")
    pos = G.unpack(x, rd)
    lo, hi = (np.asarray(b, float) for b in c["bounds"])
    for k, p in pos.items():
        s, mi, ma = ref.m.fit[k]
        expect(res, len(p) == ref.n[k], key + "/n", f"{k}: {len(p)} values instead of {ref.n[k]}")
        if len(p) != ref.n[k]:
            return
        expect(res, np.allclose(x0[p], ref.startvals(k)), key + "/start",
               lambda: f"start values of {k}: {x0[p]} instead of {ref.startvals(k)}")
        expect(res, np.all(np.broadcast_to(lo, x.shape)[p] == mi) and np.all(np.broadcast_to(hi, x.shape)[p] == ma),
               key + "/bounds", lambda: f"bounds of {k}: {lo}, {hi} instead of {mi}, {ma}")
    for k, v in lsq.items():
        expect(res, c.get(k) == v, key + "/kwargs", f"option {k}={c.get(k)} instead of {v}")
    for xx in (x, x0):
        d = {k: xx[p] for k, p in pos.items()}
        f = np.asarray(fun(xx.copy()))
        if not int_Q:
            e = ref.residuals(d)
            expect(res, f.shape == e.shape and G.same_multiset(f, e), key + "/residuals",
                   lambda: f"residuals at {d}: {np.sort(f)} instead of {np.sort(e)}")
            J = jac(xx.copy())
            J = np.asarray(J.todense() if hasattr(J, "todense") else J)
            N = np.empty((f.size, xx.size))
            for i in range(xx.size):
                h = 1e-6 * max(abs(xx[i]), 0.1)
                a, b = xx.copy(), xx.copy()
                a[i] += h
                b[i] -= h
                N[:, i] = (np.asarray(fun(a)) - np.asarray(fun(b))) / (2 * h)
            scale = np.abs(N).max() + 1e-12
            okj = J.shape == N.shape and np.all(np.abs(J - N) <= 2e-6 * scale + 2e-6 * np.abs(N))
            if not okj and J.shape == N.shape:
                # exactly the deviation that is recorded as a known finding?
                K = G.add_tau_defect(N, f, ref, d, pos)
                if np.all(np.abs(J - K) <= 2e-6 * scale + 2e-6 * np.abs(K)):
                    if not any(v[0] == KNOWN for v in res.violations):
                        res.violation(KNOWN, "derivative of the volume contribution with respect to tau")
                    okj = True
                    res.count("jacobians_with_known_tau_defect")
            expect(res, okj, key + "/jacobian", lambda: f"jacobian\n{J}\ninstead of\n{N}")
            res.transitions += 2
    res.evaluations += 1
    res.state((model, ds, sorted((k, str(v)) for k, v in dyn.items()), sig0, dB, weights, start))


def run_case(case):
    model, d1, d2s, dss, tier = case
    res = core.Result()
    p1, p2 = [*G.MODELS[model].fit][:2]
    for ds, d2 in itertools.product(dss, d2s):
        dyn = {p1: d1, p2: d2}
        for i, (sig0, dB, w) in enumerate(itertools.product((False, True), repeat=3)):
            start = (p1,) if i in (3, 4) else (p2,) if i == 6 else ()
            key = f"{model}/{ds}/{p1}={d1},{p2}={d2}/sig0={sig0},dB={dB}/weights={w}"
            try:
                check(res, model, ds, dyn, sig0, dB, w, start, key)
            except Exception as e:  # noqa: BLE001
                res.violation(key + "/error", core.exc_text(e))
            if len(res.violations) > 4:
                return res
    res.sample({"model": model, "dyn1": str(d1)})
    return res
