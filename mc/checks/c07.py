"""C07: every observation is evaluated with the value of its own time group, exactly once, with its own inputs."""
import itertools

import numpy as np
import pandas as pd

from mc import core
from mc import fitgen as G
from mc.core import expect

LEVEL = "exploration"
RULE = (
    "every dataset shape (unique/ragged/intraday/unsorted timestamps, gaps) x every pair of variabilities (none, periods, "
    "groups of N dates incl. N larger than the dataset, index, manual values and their combinations) x manual value kinds "
    "x start values x weights; the residuals handed to the optimiser, the calculated model and the reported series are "
    "compared to a per-observation evaluation with independently computed groups; distinct = distinct combinations"
)
NOTE = "Complete for the stated datasets (2-18 observations) and variabilities; offset aliases are D, 2D, 12h, M."
TIMEOUT = 400
DYN = [None, "D", "2D", "12h", "M", "index", 1, 2, 3, 7, 100, "manual", "2D + manual", "manual + 3"]


def cases(tier, seed):
    out = []
    for ds in G.DATASETS:
        for d1 in DYN:
            out.append([ds, d1, tier])
    return out


def case_key(c):
    return f"{c[0]}/{c[1]}"


def ser(idx, vals):
    return sorted(zip([pd.Timestamp(i).value for i in idx], np.round(np.asarray(vals, float), 10)))


def check(res, model, ds, dyn, manual, start, weights, int_Q, key):
    fit, df = G.build(model, ds, dyn, weights=weights, manual=manual, start=start, int_Q=int_Q)
    ref = G.Reference(model, df, dyn)
    with G.capture_optimizer(G.distinct) as calls:
        fit.performfit()
    c = calls[0]
    x0 = np.atleast_1d(np.asarray(c["x0"], float))
    x = G.distinct(x0)
    if not expect(res, x0.size == ref.total, key + "/nvals",
                  f"{x0.size} values are fitted instead of {ref.n}"):
        return
    rd = {k: np.asarray(v, float) for k, v in fit.res_dict.items()}
    for k, n in ref.n.items():
        if not expect(res, k in rd and rd[k].shape == (n,), key + "/res_dict",
                      lambda: f"res_dict: {rd} instead of {ref.n} values"):
            return
    expect(res, all(np.allclose(x0[p], ref.startvals(k)) for k, p in G.unpack(x, rd).items()), key + "/start",
           lambda: f"start values {x0}")
    if not int_Q:
        e = ref.residuals(rd)
        f = np.asarray(c["fun"](x))
        expect(res, f.shape == e.shape and G.same_multiset(f, e), key + "/residuals",
               lambda: f"residuals {np.sort(f)} instead of {np.sort(e)}")
        # the model evaluated at the dates of the observations
        m = fit.calc_model()
        got, want = ser(m.index, m["tot"]), ser(df.index, ref.model(rd))
        expect(res, len(got) == len(want) and np.allclose(got, want, rtol=1e-7), key + "/calc_model",
               lambda: f"model series {got} instead of {want}")
    comp = fit.calc_model(return_components=True)
    expect(res, len(comp) == len(df), key + "/components", f"{len(comp)} modelled values instead of {len(df)}")
    # the reported series
    rdf = fit.res_df
    expect(res, sorted(rdf.index) == sorted(set(df.index)) and set(rdf.columns) == set(rd), key + "/res_df",
           lambda: f"res_df {rdf}")
    p = ref.params(rd)
    for k in rd:
        for d in rdf.index:
            vals = p[k][np.asarray(df.index == d)]
            if not expect(res, np.any(np.isclose(rdf[k].loc[d], vals, rtol=1e-9)), key + "/res_df",
                          lambda: f"res_df[{k}] at {d}: {rdf[k].loc[d]} instead of {set(vals)}"):
                break
    # the arrays used in the fit
    mask = np.asarray(fit.mask)
    inc = np.asarray(fit.inc)[~mask]
    dat = np.asarray(fit.data)[~mask]
    got = sorted(zip(np.ravel(inc), np.ravel(dat)))
    expect(res, np.allclose(got, sorted(zip(df.inc, df.sig))), key + "/arrays", lambda: f"(inc, sig) used: {got}")
    res.evaluations += 1
    res.state(key)


def run_case(case):
    ds, d1, tier = case
    res = core.Result()
    man_kinds = [("runs", "neg"), ("near", "text"), ("huge", "near"), ("digits1", "digits2")]
    for model in (("plain",) if tier == "quick" else ("plain", "bsf", "shared")):
        p1, p2 = [*G.MODELS[model].fit][:2]
        for d2 in DYN:
            dyn = {p1: d1, p2: d2}
            man = [k for k in (p1, p2) if "manual" in str(dyn[k])]
            kinds = man_kinds if man else [None]
            for i, mk in enumerate(kinds):
                manual = {k: mk[(p1, p2).index(k)] for k in man}
                for j, start in enumerate([(), (p1,), (p1, p2)]):
                    for w in (False, True):
                        if tier == "quick" and (i + j + w) % 2:
                            continue
                        key = f"{model}/{ds}/{dyn}/{manual}/start={start}/weights={w}"
                        try:
                            check(res, model, ds, dyn, manual, start, w, False, key)
                        except Exception as e:  # noqa: BLE001
                            res.violation(key + "/error", core.exc_text(e))
                        if len(res.violations) > 3:
                            return res
    res.sample({"dataset": ds, "dyn": str(d1)})
    return res
