"""writes MANIFEST.json; a property is claimed as soon as its check module exists"""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]

HIST = "explicit-state exploration of operation histories on the real objects against a reference model"
SCHED = "stateless model checking: the real pipeline under a controlled scheduler, all schedules up to a deviation bound"
ENUM = "bounded-exhaustive enumeration of configurations and inputs on the real code against a reference"
TECH = dict(
    C01=SCHED, C02=SCHED + ", with fault and signal injection", C03=SCHED + ", with all fault assignments",
    C27="stateless exploration of runs of the real code under a controlled scheduler (faults, signals, schedules) and explicit-state exploration of histories of log-files",
    C04="explicit-state exploration of histories of runs (with failures and interruptions) on a real results store",
)
for c in "C09 C10 C12 C16 C20 C22 C24 C26 C28 C29".split():
    TECH[c] = HIST
NOTE = dict(
    C01="Trusts the stand-ins for queues/locks/processes (validated against a run with real processes).",
    C02="Signals arrive between operations of the main process; a crash of the machine or SIGKILL is outside.",
    C03="Same trust as C01.",
)
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "mc" / "checks" / f"{i.lower()}.py"
    if not f.exists():
        na.append(dict(property=i, reason="not claimed: the check for this property is not built yet"))
        continue
    src = f.read_text()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    m = re.search(r'^NOTE = \(?((?:\s*"[^"]*"\s*)+)\)?', src, re.M)
    note = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else NOTE.get(i)
    checks.append(dict(
        property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        technique=TECH.get(i, ENUM), level=level,
        level_note=(note or "Complete within the stated bounds; says nothing about values outside the alphabet."),
    ))
man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
           notes="Checks import rt1 from /repo's working tree (pure python, nothing to build). "
                 "Every check can replay a violation: ./check.sh ID --replay replay/ID-n.json")
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
