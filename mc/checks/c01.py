"""C01: every successfully processed site ends up in the results store exactly once."""
from mc.checks.pipe_common import *  # noqa: F401,F403
from mc.checks import pipe_common as pc
from mc import core, pipeline as P

LEVEL = "model_checking"
RULE = (
    "stateless exploration of the real processing pipeline (worker pool, combiners, writers, progress "
    "display) under a controlled scheduler; all executions with at most `dev` deviations from three default "
    "schedules; a state is the vector of pending operations of all tasks"
)
ASSUMPTIONS = [
    "processes, queues, events, locks and the store are stand-ins with the documented multiprocessing semantics "
    "(bound to the real ones by the end-to-end case with real processes)",
    "virtual time: computing takes no time unless the scenario gives a site a duration",
]
TIMEOUT = 600


def _scenarios(tier):
    """(scn, policies, dev, parts)"""
    out = []
    lean = dict(reader=True, shape="lean")
    # two deviations, small pipelines
    out.append((dict(lean, n=2, workers=1, combiners=1, writers=1, chunk=1, cache=1), ["fifo"], 2, 16))
    # one deviation, broader configurations
    for n, wk, co, wr, chunk, cache, dur in [
        (3, 2, 2, 2, 2, 1, 0),
        (4, 2, 2, 1, 1, 1, 3),
        (3, 1, 1, 2, 1000, 10, 6),
        (3, 2, 1, 1, 2, 2, 2),
    ]:
        out.append((dict(lean, n=n, workers=wk, combiners=co, writers=wr, chunk=chunk, cache=cache, dur=dur),
                    ["fifo", "lifo", "rr"], 1, 2))
    # all shapes of results
    out.append((dict(n=3, workers=2, combiners=2, writers=2, chunk=2, cache=1, shape="full"), ["fifo", "rr"], 1, 3))
    # default schedules of many configurations
    for n in (1, 2, 3, 5, 7):
        for wk in (1, 2, 3):
            for co in (1, 2):
                for wr in (1, 2):
                    for chunk in (1, 2, 3, 1000):
                        for cache in (1, 10):
                            for dur in (0, 2.5, 7):
                                if tier == "quick" and (n, wk, co, wr, chunk) and (n + wk + co + wr + cache) % 3:
                                    continue
                                out.append((dict(lean, n=n, workers=wk, combiners=co, writers=wr, chunk=chunk,
                                                 cache=cache, dur=dur), ["fifo", "rr"], 0, 1))
    if tier == "thorough":
        for chunk, cache, dur in [(1, 1, 0), (2, 1, 3), (1000, 10, 0)]:
            out.append((dict(lean, n=2, workers=1, combiners=1, writers=1, chunk=chunk, cache=cache, dur=dur),
                        ["fifo", "lifo", "rr"], 2, 64))
        out.append((dict(lean, n=2, workers=2, combiners=2, writers=2, chunk=1, cache=1), ["fifo", "rr"], 2, 256))
        for n, wk, co, wr, chunk, cache, dur in [
            (6, 3, 2, 2, 2, 1, 1), (5, 2, 3, 2, 1, 1, 4), (4, 1, 2, 3, 3, 2, 5.5), (8, 2, 1, 1, 3, 1, 0),
        ]:
            out.append((dict(lean, n=n, workers=wk, combiners=co, writers=wr, chunk=chunk, cache=cache, dur=dur),
                        ["fifo", "lifo", "rr"], 1, 8))
    return out


def cases(tier, seed):
    out = [dict(kind="real", n=3)]
    for scn, pols, dev, parts in _scenarios(tier):
        for pol in pols:
            for k in range(parts):
                out.append(dict(scn=scn, policy=pol, dev=dev, part=[k, parts]))
    # deep ones first (load balance)
    return out[:1] + sorted(out[1:], key=lambda c: -c["dev"])


def checker(o, scn, case):
    return pc.check_content(o, scn) + pc.check_counts(o, scn)


def run_case(case):
    if case.get("kind") == "real":
        return run_real(case)
    return pc.explore_case(case, checker)


def run_real(case):
    """the same job with real processes and a real HDF store (conformance of the stand-ins)"""
    import subprocess
    import sys
    import tempfile

    import pandas as pd

    res = core.Result()
    res.evaluations = res.traces = 1
    core.SCRATCH.mkdir(exist_ok=True, parents=True)
    with tempfile.TemporaryDirectory(dir=core.SCRATCH) as d:
        r = subprocess.run([sys.executable, "-B", "-m", "mc.realrun", d, str(case["n"])], cwd=core.VERIF,
                           capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            res.violation("real/exit", f"real processes: exit {r.returncode}: {r.stderr[-800:]}")
            return res
        got = {}
        with pd.HDFStore(d + "/fit_db.h5", "r") as st:
            for k in st.keys():
                got[k.strip("/")] = sorted(P.rows(st.select(k)))
    exp = P.expected(dict(n=case["n"], shape="full"))
    core.expect(res, got == exp, "real/content", lambda: f"stored {got} instead of {exp}")
    return res
