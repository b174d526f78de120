"""python -m mc.run <property id> [--replay FILE]   (tier: VERIF_TIER, seed: VERIF_SEED)"""
import importlib
import json
import os
import sys
import time
from pathlib import Path

from . import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = f"mc.checks.{pid.lower()}"
    try:
        mod = importlib.import_module(modname)
    except ModuleNotFoundError as e:
        if e.name == modname:
            print(f"no check for {pid}")
            sys.exit(2)
        raise
    mod.PID = pid

    if "--replay" in sys.argv:
        rep = json.loads(Path(sys.argv[sys.argv.index("--replay") + 1]).read_text())
        if hasattr(mod, "prepare"):
            mod.prepare(rep.get("tier", tier))
        core.contain()
        res = core.run_one(mod, rep["case"])
        for k, m in res.violations:
            print(f"  {k}: {m}")
        print("REPRODUCED" if res.violations else "not reproduced")
        sys.exit(1 if res.violations else 0)

    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    cases = mod.cases(tier, seed)
    budget = getattr(mod, "BUDGET", {}).get(tier)
    deadline = t0 + budget if budget else None
    results, lost, skipped = core.run_cases(mod, cases, deadline=deadline)

    keys, samples, extra = set(), [], {}
    ev = tr = traces = 0
    viol, known = [], {}
    for i, r in sorted(results, key=lambda x: x[0]):
        ev += r.evaluations
        tr += r.transitions
        traces += r.traces
        keys |= r.keys
        for k, v in r.extra.items():
            extra[k] = extra.get(k, 0) + v
        if r.samples and len(samples) < 5:
            samples.extend(r.samples[: 5 - len(samples)])
        for k, m in r.violations:
            d = core.is_known(pid, k)
            if d:
                known[k] = d
            else:
                viol.append((i, k, m))
    for i, why in lost:
        viol.append((i, "lost/" + core.h(cases[i]), why))
    viol.sort()

    cov = dict(extra)
    if mod.LEVEL == "model_checking":
        cov.update(
            states=len(keys),
            transitions=tr,
            traces_validated_against_impl=traces,
            rule=mod.RULE,
        )
    else:
        cov.update(
            evaluations=ev, distinct_nontrivial=len(keys), rule=mod.RULE
        )
    cov["samples"] = samples or [cases[0] if cases else None]
    cov["cases"] = len(results)
    cov["cases_total"] = len(cases)
    cov["exhaustive"] = not lost and skipped == 0 and not viol
    evd = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    edir = core.VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{pid}.json").write_text(json.dumps(evd, indent=1, default=str) + "\n")

    # one line per listed finding that is present (or that was not reached because of a cut)
    for k, d in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {d['text']}")
    print(
        f"{pid} [{tier}] cases={len(results)}/{len(cases)} "
        + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int))
        + f" wall={evd['wall_s']}s"
    )
    if viol:
        rdir = core.VERIF / "replay"
        rdir.mkdir(exist_ok=True)
        for n, (i, k, m) in enumerate(viol[:5]):
            rp = rdir / f"{pid}-{n}.json"
            rp.write_text(
                json.dumps(dict(property=pid, tier=tier, key=k, message=m, case=cases[i]), indent=1, default=str)
                + "\n"
            )
            print(f"  {k}: {m}")
            print(f"VIOLATION property={pid} replay={rp.relative_to(core.VERIF)}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
