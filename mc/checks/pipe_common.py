"""shared parts of the pipeline checks (C01-C04)"""
import itertools

from mc import core, pipeline as P, sched


def scn_text(c):
    return core.json.dumps(c, sort_keys=True)


def base_problems(o):
    s = o.sched
    out = [("hang", p) for p in s.problems if not p.startswith("divergence")]
    out += [("replay", p) for p in s.problems if p.startswith("divergence")]
    for name, e in s.exceptions:
        out.append(("exception", f"{name}: {core.exc_text(e)}"))
    return out


def check_content(o, scn):
    got, exp = P.content(o.disk), P.expected(scn)
    if got == exp:
        return []
    out = []
    for k in sorted(set(got) | set(exp)):
        g, e = got.get(k, []), exp.get(k, [])
        if g != e:
            out.append(("content", f"layer {k!r}: stored rows {g} instead of {e}"))
    return out


def check_overlap(o):
    return [("overlap", f"store opened by {a} while {b} had it open for writing") for a, b in o.disk.overlaps]


def check_counts(o, scn):
    beh = {int(k): v for k, v in scn.get("behave", {}).items()}
    ok = sum(1 for i in range(scn["n"]) if beh.get(i, "ok") == "ok")
    bad = sum(1 for i in range(scn["n"]) if beh.get(i, "ok") in ("raise", "none", "rraise"))
    out = []
    w = o.w
    mc, tc = getattr(w, "p_meancnt", None), getattr(w, "p_totcnt", None)
    if isinstance(mc, sched.FValue) and isinstance(tc, sched.FValue):
        if mc.value != ok:
            out.append(("count", f"counter of successful sites is {mc.value} instead of {ok}"))
        if tc.value != ok + bad:
            out.append(("count", f"counter of finished sites is {tc.value} instead of {ok + bad}"))
    return out


def explore_case(case, checker):
    """case: dict(scn=..., policy=..., dev=d, part=[k, K], early=bool, interrupt=None|int)"""
    res = core.Result()
    scn = case["scn"]
    k, K = case.get("part", [0, 1])
    states = set()
    firsts = {}

    def run(ch):
        o = P.run_pipeline(scn, ch, case.get("policy", "fifo"), early=case.get("early", True),
                           interrupt_at=case.get("interrupt"))
        o.sched.o = o
        return o.sched

    def tree():
        # all executions with <= dev deviations; the first deviations are split over K parts
        s0 = run({})
        yield {}, s0
        if case["dev"] < 1:
            return
        n = 0
        for step in range(len(s0.nalts)):
            for a in range(1, s0.nalts[step]):
                n += 1
                if n % K == k:
                    yield from sched.explore(run, case["dev"], first={step: a})

    import hashlib

    for ch, s in tree():
        o = s.o
        res.evaluations += 1
        res.traces += 1
        res.transitions += s.step
        states |= s.states
        fp = hashlib.blake2b(repr(s.trace).encode(), digest_size=8).hexdigest()
        if fp not in firsts:
            firsts[fp] = 1
        for kind, msg in base_problems(o) + checker(o, scn, case):
            res.violation(f"{kind}", f"{msg} [scenario {scn} policy {case.get('policy')} deviations {ch} interrupt {case.get('interrupt')}]")
        if len(res.violations) >= 5:
            break
    res.keys = {f"{x & 0xffffffffffff:x}" for x in states}
    res.count("executions", res.evaluations)
    res.count("distinct_schedules", len(firsts))
    res.sample(dict(case=case, last_schedule=[f"{a}: {b}" for a, b in s.trace[:40]]))
    return res
