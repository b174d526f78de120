"""C03: a failing site affects neither the results of other sites nor the counters."""
import itertools

from mc.checks import pipe_common as pc

LEVEL = "model_checking"
RULE = (
    "all assignments of {ok, reader fails, reader has no data, processing fails, processing returns nothing} to "
    "the sites of a run, each under the default schedules, and under all one-deviation schedules for the "
    "assignments of 3 sites; a state is the vector of pending operations of all tasks"
)
TIMEOUT = 600
B = ["ok", "raise", "none", "rnone", "rraise"]


def cases(tier, seed):
    out = []
    lean = dict(reader=True, shape="lean")
    n = 4
    for beh in itertools.product(B, repeat=n):
        d = {str(i): b for i, b in enumerate(beh) if b != "ok"}
        if not d:
            continue
        for j, (wk, co, wr, chunk, dur, pol) in enumerate(
            [(2, 2, 1, 2, 0, "rr"), (1, 1, 1, 1000, 6, "fifo"), (2, 1, 2, 1, 2, "fifo"), (2, 2, 2, 3, 0, "lifo")]
        ):
            out.append(dict(scn=dict(lean, n=n, workers=wk, combiners=co, writers=wr, chunk=chunk, cache=1, dur=dur,
                                     behave=d), policy=pol, dev=0))
    k = 2 if tier == "quick" else 3
    for beh in itertools.product(B, repeat=k):
        d = {str(i): b for i, b in enumerate(beh) if b != "ok"}
        if not d:
            continue
        if tier == "quick" and len(d) > 1 and "none" in d.values():
            continue
        out.append(dict(scn=dict(lean, n=k, workers=2, combiners=2, writers=1, chunk=2, cache=1, behave=d),
                        policy="rr", dev=1))
        if tier == "thorough":
            out.append(dict(scn=dict(lean, n=k, workers=2, combiners=1, writers=1, chunk=1, cache=1, dur=2, behave=d),
                            policy="fifo", dev=1))
    return sorted(out, key=lambda c: -c["dev"])


def checker(o, scn, case):
    return pc.check_content(o, scn) + pc.check_counts(o, scn)


def run_case(case):
    return pc.explore_case(case, checker)
