"""Shared runner of the bounded-exhaustive checks.

A check module (mc/checks/<id>.py) enumerates *cases* (JSON-able descriptors, in a fixed
order) and executes each one on the real code of rt1.  A case may itself stand for a whole
tree of executions (e.g. all schedules with <= 2 deviations below a given first deviation).

    LEVEL, RULE, ASSUMPTIONS, TIMEOUT (seconds a single case may take)
    cases(tier, seed)  -> list of JSON-able objects
    run_case(case)     -> Result

Every case is run in one of N forked children; a case that does not come back within
TIMEOUT, or kills its child, is itself a finding (the code under test hung or died).
"""
import gc
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
from multiprocessing import shared_memory  # noqa: F401  (import cost paid once, before fork)
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SCRATCH = Path(os.environ.get("RT1MC_SCRATCH", "/tmp/rt1mc.dev"))
NPROC = int(os.environ.get("RT1MC_NPROC", os.cpu_count() or 4))
MAX_VIOLATIONS = 20


def h(obj):
    """short stable hash of a repr-able object"""
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Result:
    """what one case covered, and what it found"""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.keys = set()  # hashes of distinct non-trivial cases / states
        self.violations = []  # (key, message)
        self.samples = []
        self.extra = {}  # summed up counters

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def state(self, obj):
        self.keys.add(h(obj))

    def violation(self, key, msg):
        """key: stable identification of the failing input / call site / history"""
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append((str(key), str(msg)[:2000]))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def expect(res, cond, key, msg):
    if not cond:
        res.violation(key, msg() if callable(msg) else msg)
    return bool(cond)


def _exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = " <- ".join(f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in tb[-4:][::-1])
    return f"{type(e).__name__}: {str(e)[:500]} @ {loc}"


exc_text = _exc_text


def run_one(mod, case):
    """run one case; an exception that escapes is the code under test failing"""
    try:
        return mod.run_case(case)
    except Exception as e:  # noqa: BLE001
        r = Result()
        r.evaluations = 1
        r.violation(getattr(mod, "case_key", lambda c: h(c))(case) + "/exception", _exc_text(e))
        return r


_DESTRUCTIVE = {"shutil.rmtree": 1, "os.remove": 1, "os.rmdir": 1, "os.rename": 2, "os.truncate": 1, "shutil.move": 2,
                "os.chmod": 1, "os.chown": 1, "os.symlink": 0, "os.link": 0}


def contain():
    """from now on, this process can only delete or move files below the scratch directory (or its own temporary files):
    whatever the code under test does (or a change of it), the sandbox is not damaged"""
    import tempfile

    roots = tuple(os.path.realpath(p) + os.sep for p in (SCRATCH, os.path.join(tempfile.gettempdir(), "pymp-")))
    roots = (roots[0], roots[1].rstrip(os.sep))

    def hook(event, args):
        n = _DESTRUCTIVE.get(event)
        if not n:
            return
        fds = args[n:] if event in ("shutil.rmtree", "os.remove", "os.rmdir") else ()
        if any(isinstance(fd, int) and fd >= 0 for fd in fds):
            return  # relative to a directory that has been checked (rmtree)
        for p in args[:n]:
            if isinstance(p, int):
                continue
            p = os.path.abspath(os.fsdecode(p))
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if not p.startswith(roots):
                raise PermissionError(f"{event}({p}): outside of the scratch directory of the check")

    sys.addaudithook(hook)


def silence():
    """send the chatter of the code under test to /dev/null"""
    dn = open(os.devnull, "w")
    sys.stdout = dn
    sys.stderr = dn


class _Child:
    __slots__ = ("pid", "fd", "buf", "current", "t0", "todo", "done_all")


def run_cases(mod, cases, nproc=NPROC, timeout=None, deadline=None, fail_fast=True):
    """execute all cases on forked children, work handed out one by one.

    returns (list of (case_index, Result)), list of (case_index, reason) for lost cases,
    number of cases not started because of the deadline
    """
    timeout = timeout or getattr(mod, "TIMEOUT", 120)
    order = list(range(len(cases)))
    results, lost = [], []
    nextpos = 0
    stop = False
    children = {}
    import select

    def spawn():
        r_cmd, w_cmd = os.pipe()
        r_out, w_out = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(w_cmd)
            os.close(r_out)
            for c in children.values():
                os.close(c["w"])
                os.close(c["r"])
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            silence()
            contain()
            try:
                while True:
                    b = b""
                    while len(b) < 8:
                        x = os.read(r_cmd, 8 - len(b))
                        if not x:
                            os._exit(0)
                        b += x
                    i = int.from_bytes(b, "little")
                    out = pickle.dumps((i, run_one(mod, cases[i])))
                    msg = len(out).to_bytes(8, "little") + out
                    while msg:
                        n = os.write(w_out, msg)
                        msg = msg[n:]
            except BaseException:  # noqa: BLE001
                os._exit(3)
        os.close(r_cmd)
        os.close(w_out)
        children[pid] = dict(w=w_cmd, r=r_out, buf=b"", cur=None, t0=None)
        return pid

    def give(pid):
        nonlocal nextpos
        c = children[pid]
        if stop or nextpos >= len(order) or (deadline and time.time() > deadline):
            c["cur"] = None
            return False
        i = order[nextpos]
        nextpos += 1
        c["cur"], c["t0"] = i, time.time()
        os.write(c["w"], i.to_bytes(8, "little"))
        return True

    def drop(pid, kill=False):
        c = children.pop(pid)
        if kill:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(c["w"])
        os.close(c["r"])
        os.waitpid(pid, 0)

    gc.collect()
    gc.freeze()  # the code under test collects garbage explicitly; do not let it scan the imports
    for _ in range(min(nproc, len(cases))):
        give(spawn())
    nviol = 0
    while any(c["cur"] is not None for c in children.values()):
        fds = {c["r"]: pid for pid, c in children.items() if c["cur"] is not None}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            pid = fds[fd]
            c = children[pid]
            data = os.read(fd, 1 << 20)
            if not data:
                lost.append((c["cur"], "the process running this case died"))
                drop(pid)
                if fail_fast:
                    stop = True
                elif nextpos < len(order):
                    give(spawn())
                continue
            c["buf"] += data
            if len(c["buf"]) >= 8:
                n = int.from_bytes(c["buf"][:8], "little")
                if len(c["buf"]) >= 8 + n:
                    i, res = pickle.loads(c["buf"][8 : 8 + n])
                    c["buf"] = c["buf"][8 + n :]
                    results.append((i, res))
                    if res.violations:
                        nviol += sum(1 for k, _ in res.violations if not is_known(mod.PID, k))
                        if fail_fast and nviol >= 5:
                            stop = True
                    give(pid)
        now = time.time()
        for pid in list(children):
            c = children[pid]
            if c["cur"] is not None and now - c["t0"] > timeout:
                lost.append((c["cur"], f"no answer within {timeout} s (hang)"))
                drop(pid, kill=True)
                if fail_fast:
                    stop = True
                elif nextpos < len(order):
                    give(spawn())
    for pid in list(children):
        drop(pid, kill=True)
    return results, lost, len(order) - nextpos


# ------------------------------------------------------------------ known findings
_known = None


def known_findings():
    """entries of known_findings.jsonl that are not marked as fixed"""
    global _known
    if _known is None:
        _known = []
        p = VERIF / "known_findings.jsonl"
        if p.exists():
            for line in p.read_text().splitlines():
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if "match" in d:
                        _known.append(d)
    return _known


def is_known(pid, key):
    for d in known_findings():
        if d["property"] == pid and d["match"] == key:
            return d
    return None
