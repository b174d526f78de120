"""C27: processing leaves the calling process as it was; log-files hold every message exactly once.

(runs) run_processing / run_finaloutput of the real RTprocess under the controlled scheduler (mc.sched): every process has
its own loggers, all executions within the stated bounds (faults, SIGTERM at every operation, schedules) are explored, the
files written by the real logging-process are read back and the state of the calling process is compared.
(files) all histories of starting / stopping log-files and setting levels, compared with a reference.
"""
import contextlib
import io
import itertools
import logging
import logging.handlers
import re
import shutil
import tempfile
from collections import Counter
from pathlib import Path

import tables

import rt1
import rt1.rtprocess as rtp

from mc import core, sched
from mc import fitgen as G
from mc import pipeline as P
from mc.checks import c12, c22
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "(runs) every history of <= 2 processing runs / final outputs (level of the log-file x outcome x place at which the user's "
    "code fails), each under the default schedules, with SIGTERM at every operation of the main process, with every start of "
    "a process failing, and under all schedules with <= dev deviations: messages of all levels are logged by the main process, "
    "the workers and the writers; (files) all histories of starting, stopping and re-starting two log-files and setting levels up to the "
    "stated depth, with messages of all levels in between; a state is the set of active handlers and levels (files) or the "
    "history, fault and control state reached (runs)"
)
ASSUMPTIONS = [
    "every process has its own loggers (spawned processes); captured warnings are logged by the process that issued them",
    "a signal is delivered between two operations of the main process, not while logging is switched off again",
]
NOTE = "Complete for the stated histories; real processes: C01, C22."
TIMEOUT = 900
LEVELS = [5, 10, 20, 21, 30, 40, 50]

MOD = """
from rt1.processing_config import rt1_processing_config
from mc.checks import c27

class proc(rt1_processing_config):
    def preprocess(self, **kwargs):
        return c27.preprocess(**kwargs)
    def reader(self, reader_arg):
        return c27.reader(reader_arg)
    def postprocess(self, fit, reader_arg=None):
        return c27.postprocess(fit)
    def finalizer(self):
        c27.finalizer()
"""


# ------------------------------------------------------------------ loggers of the simulated processes
class QueueHandler(logging.handlers.QueueHandler):
    def createLock(self):
        self.lock = None


class FileHandler(logging.FileHandler):
    def createLock(self):
        self.lock = None


class Env:
    """the loggers of all processes of one execution, and the messages that have been emitted"""

    def __init__(self):
        self.procs = {}
        self.emitted = []  # (process, level, text)
        self.unhandled = []  # warnings that have not been captured
        self.open = set()
        self.own = []  # (process, run, record): all messages
        self.n = 0
        self.run = None

    def of(self, task):
        if task not in self.procs:
            m = logging.Manager(logging.RootLogger(logging.WARNING))
            m.getLogger("rt1").setLevel(logging.DEBUG)
            m.getLogger("rt1").addFilter(lambda r: self.own.append((task, self.run, r)) or True)
            self.procs[task] = {"manager": m, "captured": False}
        return self.procs[task]

    def close(self):
        for p in self.procs.values():
            for lg in (p["manager"].root, *p["manager"].loggerDict.values()):
                for h in list(getattr(lg, "handlers", ())):
                    h.close()


ENV = None


def here():
    t = sched.current()
    return None if t is None or ENV is None else ENV.of(t.proc)


class LogProxy:
    """the logger "rt1" of the current process"""

    def _logger(self):
        p = here()
        return logging.getLogger("rt1") if p is None else p["manager"].getLogger("rt1")

    def __getattr__(self, k):
        return getattr(self._logger(), k)

    def __setattr__(self, k, v):
        setattr(self._logger(), k, v)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return "LOG"


LOG = LogProxy()


def get_logger(name=None):
    p = here()
    if p is None:
        return logging.getLogger(name)
    if name == "rt1":
        return LOG
    return p["manager"].getLogger(name) if name and name != "root" else p["manager"].root


def capture_warnings(flag):
    p = here()
    if p is None:
        return logging.captureWarnings(flag)
    p["captured"] = flag


class LoggingProxy:
    handlers = sched._ModProxy(logging.handlers, {"QueueHandler": QueueHandler})
    FileHandler = FileHandler
    getLogger = staticmethod(get_logger)
    captureWarnings = staticmethod(capture_warnings)

    @property
    def _warnings_showwarning(self):
        p = here()
        return logging._warnings_showwarning if p is None else (p["captured"] or None)

    def __getattr__(self, k):
        return getattr(logging, k)


def record_factory(*a, **k):
    r = logging.LogRecord(*a, **k)
    if sched.current() is not None:
        r.processName = sched.current().proc.name
    return r


@contextlib.contextmanager
def controlled():
    """everything rt1.rtprocess needs to run below the scheduler"""
    P.patch()
    sched.patch_modules([rtp])
    import rt1._rtprocess_writer as rtw
    import rt1.processing_config as rpc

    real, proxy = logging.getLogger("rt1"), LoggingProxy()
    saved = []
    for m in (rtp, rtw, rpc, rt1):
        for k, v in list(vars(m).items()):
            if v is real:
                saved.append((m, k, v))
                setattr(m, k, LOG)
            elif v is logging:
                saved.append((m, k, v))
                setattr(m, k, proxy)
    logging.setLogRecordFactory(record_factory)
    try:
        yield
    finally:
        logging.setLogRecordFactory(logging.LogRecord)
        for m, k, v in saved:
            setattr(m, k, v)


# ------------------------------------------------------------------ the user's code
def emit(task, level, text, logger):
    ENV.open.add(text)  # (might be lost if the process is interrupted meanwhile)
    logger.log(level, "%s", text)
    ENV.open.discard(text)
    ENV.emitted.append((task.proc, level, text, ENV.run))


def say(where):
    """emit a message of every level and a warning in the current process"""
    t = sched.current()
    for lv in LEVELS:
        ENV.n += 1
        text = f"<{ENV.run}:{where}:{lv}:{ENV.n}>"
        emit(t, lv, text, LOG)
    ENV.n += 1
    text = f"<{ENV.run}:{where}:warn:{ENV.n}>"
    p = here()
    if p["captured"]:
        emit(t, 30, text, p["manager"].getLogger("py.warnings"))
    else:
        ENV.unhandled.append(text)


def fail(where):
    if OUTCOME == where:
        raise ValueError(f"failing {where}")


def preprocess(**kwargs):
    ENV.started = True
    say("pre")
    fail("pre")
    return kwargs.get("ret")


def reader(reader_arg):
    say(f"read {reader_arg['ID']}")
    if reader_arg["site"] == "skip":
        raise Exception("rt1_skip")
    return c22.read(reader_arg)


def postprocess(fit):
    say("post")
    fail("post")
    return c22.post(fit)


OUTCOME = None
IN_RUN = False


def finalizer():
    if not IN_RUN:
        return
    if ENV.started:
        say("final")
        fail("final")
    else:  # (it is also called before the run is set up: no log-file yet)
        say("early")


def config(base, save_path=True):
    path = c22.config("single", base)
    (base / "src/rt1mc_mod_c22.py").write_text(MOD)
    return path


SITES = {
    "skip": [dict(ID="a", site="skip"), dict(ID="b", site="skip")],
    "error": [dict(ID="a", site="raise"), dict(ID="b", site="skip")],
    "fit": [dict(ID="a", site="one"), dict(ID="b", site="skip")],
    "none": [],
}


class Seen(logging.Handler):
    """a handler of the user (not related to the processing)"""

    def __init__(self, name, level):
        super().__init__(level)
        self.lock = None
        self.name = name
        self.texts = []

    def createLock(self):
        self.lock = None

    def emit(self, record):
        self.texts.append(record.getMessage())


def state(s):
    """the state of the calling process that has to be maintained"""
    p = here()
    m = p["manager"]
    return {
        "level": m.getLogger("rt1").level,
        "handlers": [id(h) for h in m.getLogger("rt1").handlers],
        "levels of handlers": [h.level for h in m.getLogger("rt1").handlers],
        "handlers of py.warnings": [id(h) for h in m.getLogger("py.warnings").handlers],
        "root": [id(h) for h in m.root.handlers] + [m.root.level],
        "captured warnings": p["captured"],
        "signals": {k: v for k, v in s.handlers.items() if v not in (0, sched.real_signal.SIG_DFL, "initial")},
    }


MINE = re.compile(r"<[^<>]*:\d+>")


def execute(case, base, choices, interrupt=None, fail_start=None):
    """one controlled execution of a history of runs; returns (problems, scheduler)"""
    global ENV, OUTCOME, IN_RUN
    ENV = Env()
    base = Path(tempfile.mkdtemp(dir=base))
    path = config(base)
    disk = P.Disk()
    disk.real = True
    P.DISK = disk
    s = sched.Scheduler(choices, policy=case["policy"], max_steps=20000, early_timeouts=case.get("early", False))
    s.interrupt_at, s.fail_start = interrupt, fail_start
    s.handlers = {15: "initial", 2: "initial"}
    problems = []
    user, console = Seen("rt1_filehandler", 10), Seen("rt1_consolehandler", 21)
    done, terminated = [], []

    def main():
        global OUTCOME, IN_RUN
        for h in (user, console):
            LOG.addHandler(h)
        here()["captured"] = bool(case.get("captured"))
        p = rtp.RTprocess(path, autocontinue=True)
        for i, (op, level, outcome) in enumerate(case["history"]):
            ENV.run, OUTCOME, IN_RUN, ENV.started = i, outcome, True, False
            before = state(s)
            exc = None
            try:
                if op == "proc":
                    p.run_processing(ncpu=case.get("ncpu", 1), logfile_level=level, print_progress=False,
                                     reader_args=[dict(a, ID=f"{a['ID']}{i}") for a in SITES.get(outcome, SITES["skip"])])
                else:
                    p.run_finaloutput(ncpu=case.get("ncpu", 1), logfile_level=level, finalout_name=f"out{i}.h5", create_index=False)
            except sched.Abort:
                raise
            except (Exception, SystemExit) as e:  # noqa: BLE001
                exc = e
            IN_RUN = False
            done.append(i)
            if isinstance(exc, SystemExit) and s.interrupted and s.handlers.get(15) == "initial" and exc.code == 143:
                terminated.append(True)
                return  # terminated by the default action, there is no process left
            after = state(s)
            for k in before:
                if before[k] != after[k]:
                    problems.append(("state", f"{k} after run {i}: {after[k]!r} instead of {before[k]!r}"))
            def living():  # (the interpreter terminates daemons if the process ends since it was interrupted)
                return [t.name for t in s.tasks if t.is_proc and t is not s.main and not t.done and not (s.interrupted and t.daemon)]

            alive = living()
            if alive:  # (processes that are about to end)
                s.op(lambda: False, "wait", timeout=60)
                alive = living()
            if alive:
                problems.append(("alive", f"after run {i}: {alive}"))
            fails = outcome in ("pre", "final", "post") and not s.interrupted and fail_start is None
            if outcome in ("pre", "final") and op == "proc" and fails and not isinstance(exc, ValueError):
                problems.append(("error", f"the error of the {outcome} was not raised: {exc!r}"))
            if not fails and not s.interrupted and fail_start is None and exc is not None:
                problems.append(("error", f"run {i} fails: {exc!r}"))
            ENV.run = f"{i}+"
            say("after")
            if s.interrupted:
                return

    main_task = s.run(main, wall=120)
    P.DISK = None
    tables.file._open_files.close_all()  # (of the simulated processes)
    killed = s.interrupted and isinstance(main_task.exc, SystemExit) or terminated
    for x in s.problems:
        if not terminated:
            problems.append(("hang", x))
    # a message must not be lost, repeated or re-ordered
    logs = sorted((base / "out/dump/cfg").glob("*.log")) if (base / "out/dump/cfg").exists() else []
    found = [x for f in logs for x in MINE.findall(f.read_text()) if x not in ENV.open]
    if not killed:
        order = {}
        for i, (op, level, outcome) in enumerate(case["history"]):
            if i not in done:
                continue
            want = {}
            for proc, lv, text, run in ENV.emitted:
                if run == i and level is not None and lv >= level and ":early:" not in text:
                    want.setdefault(proc, []).append(text)
            got = [x for x in found if x.startswith(f"<{i}:") and ":early:" not in x]
            for proc, texts in want.items():
                mine = set(texts)
                g = [x for x in got if x in mine]
                if g != texts:
                    problems.append(("log-file", f"run {i} ({case['history'][i]}), messages of {proc.name}: {g} instead of {texts}"))
            extra = set(got) - {x for t in want.values() for x in t}
            if extra:
                problems.append(("log-file", f"run {i}: unexpected messages {sorted(extra)}"))
        # the messages of rt1 itself in the other processes
        text = "\n".join(f.read_text() for f in logs).split("\n")
        for i, (op, level, outcome) in enumerate(case["history"] if len(set(done)) == len(case["history"]) else ()):
            want = Counter()
            for proc, run, r in ENV.own:
                msg = r.getMessage()
                if proc in (s.main, None) or proc.name == "RTprocess logger" or run != i or level is None or r.levelno < level:
                    continue
                if msg.strip() and not MINE.search(msg) and not msg.startswith("configuring worker"):
                    want[f"{r.processName:<21}{r.levelname:<8}{msg}".split("\n")[0].strip()] += 1
            for line, cnt in want.items():
                got = sum(x.rstrip().endswith(" - " + line) for x in text)
                others = sum(
                    f"{r.processName:<21}{r.levelname:<8}{r.getMessage()}".split("\n")[0].strip() == line and r.levelno >= (case["history"][run][1] or 99)
                    for _, run, r in ENV.own if isinstance(run, int)
                )
                if got != others if not s.interrupted else got > others:
                    problems.append(("log-file", f"run {i}: {got} times instead of {others} times: {line}"))
        late = [x for x in found if re.match(r"<\d\+:", x)]
        if late:
            problems.append(("log-file", f"messages that have been emitted after the run: {late}"))
        main_msgs = [(lv, t) for proc, lv, t, run in ENV.emitted if proc is main_task and ":warn:" not in t]
        for h in (user, console):
            mine = [x for x in h.texts if MINE.fullmatch(x) and x not in ENV.open]
            exp = [t for lv, t in main_msgs if lv >= max(h.level, 10)]
            if [x for x in mine if not x.split(":")[2] == "5"] != exp:
                miss = [x for x in exp if x not in mine]
                problems.append(("other handlers", f"{h.name}: {len(mine)} messages instead of {len(exp)}; missing {miss[:6]}"))
    for name, e in s.exceptions:
        if name != "MainProcess" and not s.interrupted and fail_start is None:
            problems.append(("exception", f"{name}: {type(e).__name__}: {e}"))
    if main_task.exc is not None and not isinstance(main_task.exc, SystemExit):
        problems.append(("exception", f"main: {type(main_task.exc).__name__}: {main_task.exc}"))
    ENV.close()
    return problems, s


def run_runs(res, case, base):
    key = f"{case['history']}/{case['policy']}"
    seen = set()

    def one(ch, **kw):
        problems, s = execute(case, base, ch, **kw)
        res.evaluations += 1
        res.transitions += s.step
        res.traces += 1
        res.state((key, str(kw), len(s.trace), tuple(sorted(ch.items()))))
        seen.update(s.states)
        res.count("operations", s.step)
        for k, msg in problems[:3]:
            res.violation(f"{key}/{kw}/{sorted(ch.items())}/{k}", msg)
        return s

    with controlled(), c12.environment():
        if case["mode"] == "default":
            one({})
        elif case["mode"] == "sigterm":
            k = case["part"]
            while True:
                s = one({}, interrupt=k)
                if not s.interrupted or res.violations:
                    break
                k += case["of"]
        elif case["mode"] == "start":
            k = 0
            while not res.violations:
                s = one({}, fail_start=k)
                if getattr(s, "n_starts", 0) <= k:
                    break
                k += 1
        else:
            s0 = one({})
            for step in range(case["part"], len(s0.nalts), case["of"]):
                for a in range(1, s0.nalts[step]):
                    one({step: a})
                    if res.violations:
                        return
    res.count("control states", len(seen))


# ------------------------------------------------------------------ log-files
NAMES = {"rt1_filehandler": {}, "other": {"name": "other"}}


def alphabet(tier):
    out = []
    for n in NAMES:
        for f in ("x", "y"):
            for lv in (None, 20, 40):
                if tier == "quick" and lv == 40 and f == "y":
                    continue
                out.append(("start", n, f, lv))
        out.append(("stop", n))
        for lv in (10, 30):
            out.append(("level", n, lv))
    out.append(("level", "rt1_consolehandler", 10))
    out.append(("level", "rt1_consolehandler", 40))
    return out


def run_files(res, case, base):
    log = logging.getLogger("rt1")
    keep = list(log.handlers), log.level
    ops = alphabet(case["tier"])
    n = 0
    try:
        for rest in itertools.product(ops, repeat=case["depth"] - 1):
            hist = (tuple(case["first"]), *rest)
            log.handlers[:] = []
            log.setLevel(logging.NOTSET)
            console = io.StringIO()
            with contextlib.redirect_stdout(console):
                rt1.setup_logger()
            active = {"rt1_consolehandler": ["console", 21]}
            want = {"console": [], "x": [], "y": []}
            key = "/".join("-".join(map(str, o)) for o in hist)
            try:
                for i, o in enumerate(hist):
                    known = True
                    if o[0] == "start":
                        kw = dict(NAMES[o[1]])
                        if o[3] is not None:
                            kw["level"] = o[3]
                        rt1.start_log_to_file(base / f"{o[2]}.log" if i % 2 else str(base / f"{o[2]}.log"), **kw)
                        active[o[1]] = [o[2], 10 if o[3] is None else o[3]]
                    elif o[0] == "stop":
                        rt1.stop_log_to_file(**NAMES[o[1]])
                        active.pop(o[1], None)
                    else:
                        known = o[1] in active
                        kw = {} if o[1] == "rt1_consolehandler" else dict(name=o[1])
                        try:
                            rt1.set_log_handler_level(o[2], **kw)
                            expect(res, known, key, f"the level of the missing handler {o[1]} can be set")
                        except IndexError:
                            expect(res, not known, key, f"the level of {o[1]} can not be set")
                        if known:
                            active[o[1]][1] = o[2]
                    for lv in LEVELS:
                        n += 1
                        text = f"<{i}:m:{lv}:{n}>"
                        getattr(log, "progress")(text) if lv == 21 else log.log(lv, text)
                        for f, hl in active.values():
                            if lv >= max(hl, 10):
                                want[f].append(text)
                    names = sorted(h.name for h in log.handlers)
                    expect(res, names == sorted(active), key, f"active handlers {names} instead of {sorted(active)}")
                    res.state(sorted((k, *v) for k, v in active.items()))
                    res.transitions += 1
                got = {f: MINE.findall((base / f"{f}.log").read_text()) if (base / f"{f}.log").exists() else [] for f in "xy"}
                got["console"] = MINE.findall(console.getvalue())
                for f in want:
                    if not expect(res, got[f] == want[f], f"{key}/{f}", lambda: f"{f} holds {len(got[f])} messages instead of {len(want[f])}: "
                                  f"{[x for x in got[f] if x not in want[f]][:5]} / missing {[x for x in want[f] if x not in got[f]][:5]}"):
                        break
            except Exception as e:  # noqa: BLE001
                res.violation(key, f"{type(e).__name__}: {e}")
            finally:
                for h in list(log.handlers):
                    if isinstance(h, logging.FileHandler):
                        h.close()
                for f in base.iterdir():
                    f.unlink()
            res.evaluations += 1
            res.traces += 1
            if len(res.violations) > 4:
                return
    finally:
        log.handlers[:] = keep[0]
        log.setLevel(keep[1])


# ------------------------------------------------------------------ cases
def cases(tier, seed):
    thorough = tier == "thorough"
    out = []
    for o in alphabet(tier):
        for d in (1, 2, 3) if not thorough else (1, 2, 3, 4):
            out.append(dict(group="files", tier=tier, first=list(o), depth=d))
    pols = ["fifo", "lifo", "rr"]
    outcomes = ["skip", "error", "fit", "none", "pre", "final"]
    for lv in (None, 10, 21, 40):
        for oc in outcomes:
            for pol in pols:
                out.append(dict(group="runs", mode="default", history=[["proc", lv, oc]], policy=pol, ncpu=2))
    single = [["proc", 10, "skip"], ["proc", 21, "fit"], ["proc", 30, "pre"], ["proc", None, "skip"], ["proc", 40, "final"]]
    for a in single:
        for b in single:
            out.append(dict(group="runs", mode="default", history=[a, b], policy="rr"))
    fin = [["proc", 21, "fit"], ["final", 10, "ok"], ["final", 40, "post"], ["final", None, "ok"], ["final", None, "post"]]
    for a in fin[1:]:
        out.append(dict(group="runs", mode="default", history=[fin[0], a], policy="rr"))
        out.append(dict(group="runs", mode="default", history=[fin[0], a, fin[0][:2] + ["skip"]], policy="fifo"))
    for a in single:
        # the user captures the warnings
        out.append(dict(group="runs", mode="default", history=[a, fin[0]], policy="rr", captured=True))
    for h in ([["proc", 10, "skip"]], [["proc", 21, "fit"], ["final", 20, "ok"]], [["proc", None, "skip"]]):
        of = 4 if len(h) == 1 else 8
        for pol in pols:
            if pol != "rr" and len(h) > 1 and not thorough:
                continue
            for k in range(of):
                out.append(dict(group="runs", mode="sigterm", history=h, policy=pol, part=k, of=of))
            out.append(dict(group="runs", mode="start", history=h, policy=pol))
    for h, of, early in (([["proc", 10, "skip"]], 16, False), ([["proc", 30, "error"]], 16, True), ([["proc", 21, "pre"]], 2, True)):
        for pol in pols if thorough else ("rr",):
            for k in range(of):
                out.append(dict(group="runs", mode="dev", history=h, policy=pol, part=k, of=of, early=early))
    if thorough:
        for h in ([["proc", 21, "fit"]], [["proc", 21, "fit"], ["final", 20, "ok"]], [["proc", 21, "skip"], ["proc", 10, "error"]]):
            for k in range(48):
                out.append(dict(group="runs", mode="dev", history=h, policy="rr", part=k, of=48, early=True))
        for hist in itertools.product(single + fin[1:3], repeat=2):
            out.append(dict(group="runs", mode="default", history=[fin[0], *hist], policy="rr"))
    return out


def run_case(case):
    core.SCRATCH.mkdir(parents=True, exist_ok=True)
    base = Path(tempfile.mkdtemp(dir=core.SCRATCH)).resolve()
    res = core.Result()
    try:
        if case["group"] == "files":
            run_files(res, case, base)
        else:
            G.memo_lambdify()
            case = dict(case, history=[tuple(x) for x in case["history"]])
            run_runs(res, case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res
