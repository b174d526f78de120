"""C02: a processing run always comes to an end, and the store is never opened concurrently."""
from mc.checks import pipe_common as pc

LEVEL = "model_checking"
RULE = (
    "controlled executions of the real pipeline with injected faults: every k-th write or open of the store "
    "fails, starting a process fails, sites fail, or the main process receives SIGTERM at its k-th operation; each combined with all "
    "schedules of at most `dev` deviations; no execution may deadlock, livelock or open the store while "
    "another process writes to it"
)
ASSUMPTIONS = [
    "a signal is delivered between two operations of the main process, not inside one",
    "virtual time; 'no termination' means > 900 s of virtual time or > 6000 operations",
]
TIMEOUT = 600


def cases(tier, seed):
    out = []
    lean = dict(reader=True, shape="lean")
    pols = ["fifo", "lifo", "rr"]
    cfgs = [
        dict(lean, n=4, workers=2, combiners=1, writers=1, chunk=1, cache=1),
        dict(lean, n=5, workers=2, combiners=2, writers=2, chunk=1, cache=1),
        dict(lean, n=5, workers=1, combiners=2, writers=2, chunk=2, cache=2),
        dict(lean, n=6, workers=3, combiners=1, writers=2, chunk=1, cache=2),
    ]
    durs = [0, 1, 3, 6]
    # every write / open fails once
    for c in cfgs:
        for dur in durs:
            for pol in pols:
                for k in range(0, 2 * c["n"], 1 if tier == "thorough" else 2):
                    out.append(dict(scn=dict(c, dur=dur, fail_append=k), policy=pol, dev=0))
                for k in range(0, c["n"], 1 if tier == "thorough" else 2):
                    out.append(dict(scn=dict(c, dur=dur, fail_open=k), policy=pol, dev=0))
                # starting a process fails
                for k in range(c["writers"] + c["combiners"]):
                    out.append(dict(scn=dict(c, dur=dur, fail_start=k), policy=pol, dev=0))
                # SIGTERM at every operation of the main process
                for k in range(0, 26):
                    out.append(dict(scn=dict(c, dur=dur), policy=pol, dev=0, interrupt=k))
    # one deviation
    for c in cfgs[:3]:
        for dur in (0, 3):
            for pol in ("rr",) if tier == "quick" else pols:
                out.append(dict(scn=dict(c, dur=dur, fail_append=0), policy=pol, dev=1))
                out.append(dict(scn=dict(c, dur=dur, fail_append=3), policy=pol, dev=1))
                out.append(dict(scn=dict(c, dur=dur, fail_open=1), policy=pol, dev=1))
                for k in (9, 14, 17) if tier == "quick" else range(5, 22):
                    out.append(dict(scn=dict(c, dur=dur), policy=pol, dev=1, interrupt=k))
    # no fault, failing sites: two writers must never collide
    for c in cfgs:
        for pol in ("rr", "fifo") if tier == "quick" else pols:
            out.append(dict(scn=dict(c, dur=2, behave={"1": "raise"}), policy=pol, dev=1))
    # small pipelines, two deviations
    for c, K in ((dict(lean, n=2, workers=1, combiners=1, writers=2, chunk=1, cache=1), 16),):
        for k in range(K):
            out.append(dict(scn=c, policy="fifo", dev=2 if tier == "thorough" else 1, part=[k, K]))
        for k in range(K if tier == "thorough" else 0):
            out.append(dict(scn=dict(c, fail_append=1, n=3, dur=2), policy="rr", dev=2, part=[k, K]))
    return sorted(out, key=lambda c: (-c["dev"], c.get("part", [0, 1])[1]))


def checker(o, scn, case):
    return pc.check_overlap(o)


def run_case(case):
    faulty = case.get("interrupt") is not None or "fail_append" in case["scn"] or "fail_open" in case["scn"] or "fail_start" in case["scn"]
    orig = pc.base_problems

    def bp(o):
        r = orig(o)
        if faulty:
            # an error report is fine as long as the run ends
            r = [x for x in r if x[0] != "exception"]
        return r

    pc.base_problems = bp
    try:
        return pc.explore_case(case, checker)
    finally:
        pc.base_problems = orig
