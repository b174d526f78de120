"""Controlled execution of rt1's multi-process pipeline.

All processes, threads, queues, events, locks, shared values, pools (and the HDF store) that
the code under test creates are replaced by stand-ins whose every operation is a scheduling
point.  Exactly one task runs at a time; who runs next is decided by a recorded list of
choices, so an execution is a deterministic function of that list and can be replayed.

* a *process* is a task that works on a deep copy of its target and arguments (no state is
  shared by accident), ends only after its non-daemon threads ended, and kills its daemon
  threads;
* time is virtual: computing takes no time; a timed wait runs into its timeout when nobody
  else can run and it has the smallest deadline, or earlier as an explicit deviation ("all
  others were slow");
* default schedule: stay on the running task while it is enabled, else the next enabled one
  in a fixed order ("order" policy).  A *deviation* at a step picks another enabled task (or
  fires a timeout early).  Exploration enumerates all executions with at most d deviations.
"""
import copy
import _thread
import multiprocessing as real_mp
import multiprocessing.context
import multiprocessing.pool
import queue as real_queue
import signal as real_signal
import sys
import threading as real_threading
import time as real_time
from collections import deque

_RealThread = real_threading.Thread
_orig_start = _RealThread.start
_orig_join = _RealThread.join
_orig_is_alive = _RealThread.is_alive
_RealEvent = real_threading.Event
_RealLock = real_threading.Lock

_tls = real_threading.local()
CUR = None  # the active scheduler (one per OS process)


class Abort(BaseException):
    """unwinds a task when an execution is cut off"""


class Killed(BaseException):
    """a daemon thread / terminated process dies here"""


class Divergence(Exception):
    pass


class Task:
    __slots__ = (
        "tid", "name", "baton", "pending", "done", "exc", "proc", "thread_obj", "daemon",
        "kill", "children", "is_proc", "steps",
    )

    def __init__(self, tid, name, proc=None, is_proc=False, daemon=False):
        self.tid = tid
        self.name = name
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pending = None  # (enabled_fn, deadline or None, label)
        self.done = False
        self.exc = None
        self.is_proc = is_proc
        self.proc = proc if proc is not None else self  # owning process task
        self.thread_obj = None
        self.daemon = daemon
        self.kill = False
        self.children = []
        self.steps = 0


def current():
    return getattr(_tls, "task", None)


class Scheduler:
    def __init__(self, choices=None, policy="fifo", max_steps=6000, max_time=900.0,
                 early_timeouts=True, fairness=200):
        self.choices = dict(choices or {})  # step -> alternative index (>0)
        self.policy = policy
        self.max_steps = max_steps
        self.max_time = max_time
        self.early = early_timeouts
        self.fairness = fairness
        self.tasks = []
        self.now = 0.0
        self.step = 0
        self.nalts = []  # number of alternatives at each step
        self.trace = []  # (task name, label)
        self.aborting = None
        self.main_done = _thread.allocate_lock()
        self.main_done.acquire()
        self.running = None
        self.run_len = 0
        self.events = []  # application-level events recorded by stand-ins
        self.handlers = {}
        self.interrupt_at = None  # (main op index) deliver SIGTERM there
        self.main_ops = 0
        self.interrupted = False
        self.problems = []
        self.exceptions = []
        self.states = set()  # control states: what every task is about to do

    # ------------------------------------------------------------------ tasks
    def spawn(self, fn, name, proc=None, is_proc=False, daemon=False, thread_obj=None):
        t = Task(len(self.tasks), name, proc, is_proc, daemon)
        t.thread_obj = thread_obj
        t.pending = (lambda: True, None, "start")
        self.tasks.append(t)
        cur = current()
        if cur is not None:
            cur.proc.children.append(t)

        def body():
            _tls.task = t
            t.baton.acquire()
            try:
                if self.aborting:
                    raise Abort()
                if t.kill:
                    raise Killed()
                fn()
            except (Abort, Killed):
                pass
            except SystemExit as e:
                t.exc = e
            except BaseException as e:  # noqa: BLE001
                t.exc = e
                self.exceptions.append((t.name, e))
            try:
                if t.is_proc:
                    self._end_process(t)
            except (Abort, Killed):
                pass
            t.done = True
            t.pending = None
            self._handoff_final(t)

        return t, body

    def start_task(self, t, body):
        _thread.start_new_thread(body, ())

    def _end_process(self, t):
        # interpreter shutdown: terminate daemon processes, join the other processes and
        # the non-daemon threads, drop the daemon threads
        for c in t.children:
            if c.is_proc and c.daemon and not c.done:
                c.kill = True
        for c in t.children:
            if c.is_proc and not c.daemon and not c.done:
                self.op(lambda c=c: c.done, f"exit-join {c.name}")
        for c in t.children:
            if not c.is_proc and not c.daemon and not c.done:
                self.op(lambda c=c: c.done, f"exit-join {c.name}")
        for c in t.children:
            if not c.is_proc and c.daemon and not c.done:
                c.kill = True

    # ------------------------------------------------------------------ choosing
    def _enabled(self, t):
        if t.done or t.pending is None:
            return False
        if t.kill:
            return True
        return t.pending[0]()

    def _ordered(self):
        ts = self.tasks
        if self.policy == "fifo":
            return ts
        if self.policy == "lifo":
            return ts[::-1]
        if self.policy == "rr":
            if self.running is None:
                return ts
            k = self.running.tid + 1
            return ts[k:] + ts[:k]
        raise ValueError(self.policy)

    def _alternatives(self):
        """[(task, fire_timeout)], the default first"""
        run = self.running
        en = [t for t in self._ordered() if self._enabled(t)]
        if not en:
            timed = [t for t in self.tasks if not t.done and t.pending is not None and t.pending[1] is not None]
            if not timed:
                return []
            timed.sort(key=lambda t: (t.pending[1], t.tid))
            return [(timed[0], True)]
        first = None
        if self.policy != "rr" and run in en and self.run_len < self.fairness:
            first = run
        if first is None:
            first = en[0] if en[0] is not run or len(en) == 1 else en[1]
        alts = [(first, False)] + [(t, False) for t in en if t is not first]
        if self.early:
            alts += [
                (t, True)
                for t in self.tasks
                if not t.done and t.pending is not None and t.pending[1] is not None
                and not t.pending[0]() and "poll" in t.pending[2]
            ]
        return alts

    def _pick(self):
        alts = self._alternatives()
        if not alts:
            return None
        self.nalts.append(len(alts))
        c = self.choices.get(self.step, 0)
        if c >= len(alts):
            raise Divergence(f"step {self.step}: alternative {c} of {len(alts)}")
        t, fire = alts[c]
        self.step += 1
        return t, fire

    # ------------------------------------------------------------------ one operation
    def op(self, enabled, label, timeout=None, action=None):
        """perform one scheduling point; returns (timed_out, action result)"""
        t = current()
        if self.aborting:
            raise Abort()
        deadline = None if timeout is None else self.now + timeout
        t.pending = (enabled, deadline, label)
        fired = self._yield(t)
        t.pending = None
        t.steps += 1
        if fired:
            return True, None
        return False, (action() if action is not None else None)

    def _yield(self, t):
        nxt = self._next(t)
        if nxt is None:
            # cut off: nobody can run
            raise Abort()
        n, fire = nxt
        n_fired = fire
        if n is not t:
            self._fired = n_fired
            n.baton.release()
            t.baton.acquire()
            if self.aborting:
                raise Abort()
            n_fired = self._fired
        if t.kill:
            raise Killed()
        return n_fired

    def _next(self, t):
        """choose the next task to run and account for it; None -> abort"""
        if self.aborting:
            return None
        if self.step >= self.max_steps or self.now > self.max_time:
            self.problems.append(
                f"no termination: {self.step} steps, virtual time {self.now:.0f}s, waiting: " + self.who()
            )
            self._abort("livelock")
            return None
        self.states.add(hash(tuple([t.pending[2] if t.pending is not None else t.done for t in self.tasks])))
        p = self._pick()
        if p is None:
            self.problems.append("deadlock: " + self.who())
            self._abort("deadlock")
            return None
        n, fire = p
        if fire and n.pending[1] is not None:
            self.now = max(self.now, n.pending[1])
        if n is self.running:
            self.run_len += 1
        else:
            self.running, self.run_len = n, 1
        self.trace.append((n.name, n.pending[2] + ("!timeout" if fire else "")))
        return n, fire

    def who(self):
        return "; ".join(
            f"{t.name}: {t.pending[2]}" for t in self.tasks if not t.done and t.pending is not None
        )

    def _abort(self, why):
        self.aborting = why
        # wake everybody so that the threads unwind
        for t in self.tasks:
            if not t.done and t is not current():
                try:
                    t.baton.release()
                except RuntimeError:
                    pass

    def _handoff_final(self, t):
        """t has ended; pass the baton on"""
        if self.aborting:
            if all(x.done for x in self.tasks):
                self._finish()
            return
        if all(x.done for x in self.tasks):
            self._finish()
            return
        try:
            nxt = self._next(None)
        except Divergence as e:
            self.problems.append(f"divergence: {e}")
            self._abort("divergence")
            nxt = None
        if nxt is None:
            if all(x.done for x in self.tasks):
                self._finish()
            return
        self._fired = nxt[1]
        nxt[0].baton.release()

    def _finish(self):
        try:
            self.main_done.release()
        except RuntimeError:
            pass

    # ------------------------------------------------------------------ running
    def run(self, fn, name="MainProcess", wall=60):
        """run fn as the main process task; returns when every task has ended"""
        global CUR
        CUR = self
        t, th = self.spawn(fn, name, is_proc=True)
        self.main = t
        self.running = t
        try:
            self.start_task(t, th)
            self._fired = False
            t.baton.release()
            if not self.main_done.acquire(timeout=wall):
                self.problems.append(f"the execution does not come back (running: {self.running and self.running.name})")
                self.aborting = "wall"
        finally:
            CUR = None
        return t

    def advance_point(self, label, action=None):
        return self.op(lambda: True, label, action=action)[1]


def sch():
    return CUR if current() is not None else None


def maybe_interrupt():
    """deliver SIGTERM to the main process at the chosen operation"""
    s = CUR
    t = current()
    if s is None or t is not s.main:
        return
    k = s.main_ops
    s.main_ops += 1
    if s.interrupt_at is not None and k == s.interrupt_at and not s.interrupted:
        s.interrupted = True
        hdl = s.handlers.get(real_signal.SIGTERM)
        s.events.append(("SIGTERM", k))
        if callable(hdl):
            hdl(real_signal.SIGTERM, None)
        else:
            raise SystemExit(143)


# ---------------------------------------------------------------------- primitives
class _Obj:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("stand-ins are passed by reference")

    def _do(self, label, action=None, enabled=None, timeout=None):
        s = sch()
        if s is None:  # harness code looking at the object after the run
            return False, (action() if action else None)
        maybe_interrupt()
        if self._owner_dead():
            raise BrokenPipeError("manager has been shut down")
        return s.op(enabled or (lambda: True), f"{self._name}.{label}", timeout, action)

    _mgr = None

    def _owner_dead(self):
        return self._mgr is not None and self._mgr.dead


class FQueue(_Obj):
    def __init__(self, maxsize=0, name="queue", mgr=None):
        self._q = deque()
        self._max = maxsize
        self._name = name
        self._mgr = mgr
        self.log = []

    def _room(self):
        return self._max <= 0 or len(self._q) < self._max

    def put(self, item, block=True, timeout=None):
        if not block:
            timeout = 0
        if not block:
            full = [False]

            def act():
                if not self._room():
                    full[0] = True
                else:
                    self._q.append(item)

            self._do("put_nowait", act)
            if full[0]:
                raise real_queue.Full
            return
        to, _ = self._do("put poll" if timeout is not None else "put", lambda: self._q.append(item), self._room, timeout)
        if to:
            raise real_queue.Full

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if not block:
            miss = [False]

            def act():
                if self._q:
                    return self._q.popleft()
                miss[0] = True

            r = self._do("get_nowait", act)[1]
            if miss[0]:
                raise real_queue.Empty
            return r
        to, r = self._do("get poll" if timeout is not None else "get", self._q.popleft, lambda: bool(self._q), timeout)
        if to:
            raise real_queue.Empty
        return r

    def get_nowait(self):
        return self.get(block=False)

    def qsize(self):
        return self._do("qsize", lambda: len(self._q))[1]

    def empty(self):
        return self._do("empty", lambda: not self._q)[1]

    def full(self):
        return self._do("full", lambda: not self._room())[1]

    def task_done(self):
        pass

    def join(self):
        self._do("join", None, lambda: not self._q)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class FEvent(_Obj):
    def __init__(self, name="event", mgr=None):
        self._f = False
        self._name = name
        self._mgr = mgr

    def is_set(self):
        return self._do("is_set", lambda: self._f)[1]

    isSet = is_set

    def set(self):
        def a():
            self._f = True

        self._do("set", a)

    def clear(self):
        def a():
            self._f = False

        self._do("clear", a)

    def wait(self, timeout=None):
        to, _ = self._do("wait poll" if timeout is not None else "wait", None, lambda: self._f, timeout)
        return not to


class FTimerEvent(FEvent):
    """a thread-local pacing event (progress display): short periods are stretched"""

    def wait(self, timeout=None):
        if timeout is not None:
            timeout = max(timeout, 4.0)
        to, _ = self._do("wait pace" if timeout is not None else "wait", None, lambda: self._f, timeout)
        return not to


class FLock(_Obj):
    def __init__(self, name="lock", mgr=None, reentrant=False):
        self._held = None
        self._n = 0
        self._re = reentrant
        self._name = name
        self._mgr = mgr

    def acquire(self, blocking=True, timeout=None, block=None):
        if block is not None:
            blocking = block
        me = current()
        if timeout is not None and timeout < 0:
            timeout = None

        def free():
            return self._held is None or (self._re and self._held is me)

        def take():
            self._held = me or "harness"
            self._n += 1
            return True

        if not blocking:
            ok = [False]

            def act():
                if free():
                    take()
                    ok[0] = True

            self._do("try-acquire", act)
            return ok[0]
        to, _ = self._do("acquire poll" if timeout is not None else "acquire", take, free, timeout)
        return not to

    def release(self):
        bad = [False]

        def a():
            if self._held is None:
                bad[0] = True
                return
            self._n -= 1
            if self._n == 0:
                self._held = None

        self._do("release", a)
        if bad[0]:
            raise RuntimeError("release unlocked lock")

    def locked(self):
        return self._held is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class FSemaphore(_Obj):
    def __init__(self, value=1, name="sem", mgr=None):
        self._v = value
        self._name = name
        self._mgr = mgr

    def acquire(self, blocking=True, timeout=None):
        def take():
            self._v -= 1

        if not blocking:
            ok = [False]

            def act():
                if self._v > 0:
                    take()
                    ok[0] = True

            self._do("try-acquire", act)
            return ok[0]
        to, _ = self._do("acquire poll" if timeout is not None else "acquire", take, lambda: self._v > 0, timeout)
        return not to

    def release(self, n=1):
        def a():
            self._v += n

        self._do("release", a)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class FCondition(_Obj):
    def __init__(self, lock=None, name="cond", mgr=None):
        self._l = lock or FLock(name + ".lock", mgr, reentrant=True)
        self._w = deque()
        self._name = name
        self._mgr = mgr
        self.acquire, self.release = self._l.acquire, self._l.release

    def __enter__(self):
        return self._l.__enter__()

    def __exit__(self, *a):
        return self._l.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self._w.append(tok)
        self._l.release()
        to, _ = self._do("wait poll" if timeout is not None else "wait", None, lambda: tok[0], timeout)
        if to and tok in self._w:
            self._w.remove(tok)
        self._l.acquire()
        return not to

    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            if not self.wait(timeout):
                return pred()
            r = pred()
        return r

    def notify(self, n=1):
        def a():
            for _ in range(min(n, len(self._w))):
                self._w.popleft()[0] = True

        self._do("notify", a)

    def notify_all(self):
        self.notify(10**6)


class FValue(_Obj):
    def __init__(self, typecode=None, value=None, name="value", mgr=None, lock=None):
        self._v = value
        self._name = name
        self._mgr = mgr
        self._lk = None

    def get(self):
        return self._do("get", lambda: self._v)[1]

    def set(self, v):
        def a():
            self._v = v

        self._do("set", a)

    value = property(get, lambda self, v: self.set(v))

    def get_lock(self):
        if self._lk is None:
            self._lk = FLock(self._name + ".lock", None, reentrant=True)
        return self._lk


class FNamespace(_Obj):
    def __init__(self, mgr=None, **kw):
        object.__setattr__(self, "_d", dict(kw))
        object.__setattr__(self, "_name", "namespace")
        object.__setattr__(self, "_mgr", mgr)

    def __getattr__(self, k):
        if k.startswith("__") or k in ("_d", "_name", "_mgr"):
            raise AttributeError(k)
        d = object.__getattribute__(self, "_d")
        r = self._do(f"get {k}", lambda: d.get(k, AttributeError))[1]
        if r is AttributeError:
            raise AttributeError(k)
        return r

    def __setattr__(self, k, v):
        self._do(f"set {k}", lambda: self._d.__setitem__(k, v))


def _proxied(base, names):
    def mk(n):
        def f(self, *a, **k):
            return self._do(n, lambda: getattr(self._o, n)(*a, **k))[1]

        return f

    ns = {n: mk(n) for n in names}

    def init(self, *a, mgr=None, **k):
        self._o = base(*a, **k)
        self._name = base.__name__
        self._mgr = mgr

    ns["__init__"] = init
    return type("F" + base.__name__, (_Obj,), ns)


FDict = _proxied(dict, ["__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__", "get", "pop",
                        "update", "setdefault", "items", "keys", "values", "copy", "clear"])
FList = _proxied(list, ["__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__", "append", "extend",
                        "pop", "remove", "insert", "index", "count", "sort", "reverse", "__iter__"])


# ---------------------------------------------------------------------- processes
class FProcess(_Obj):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        s = sch()
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name or f"SpawnProcess-{len(s.tasks)}"
        self.daemon = bool(daemon)
        self._task = None
        self.pid = None
        self._name = "process"

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = sch()
        maybe_interrupt()
        s.n_starts = getattr(s, "n_starts", 0) + 1
        if getattr(s, "fail_start", None) == s.n_starts - 1:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        # spawn = pickle the target; nothing is shared but the manager's objects
        self._target, self._args, self._kwargs = copy.deepcopy((self._target, self._args, self._kwargs))
        self._task, th = s.spawn(self.run, self.name, is_proc=True, daemon=self.daemon)
        self.pid = 1000 + self._task.tid
        s.start_task(self._task, th)
        s.advance_point(f"spawn {self.name}")

    def join(self, timeout=None):
        maybe_interrupt()
        s = sch()
        if s is None:
            return
        s.op(lambda: self._task.done, f"join {self.name}", timeout)

    def is_alive(self):
        return self._task is not None and not self._task.done

    @property
    def exitcode(self):
        if self._task is None or not self._task.done:
            return None
        return 0 if self._task.exc is None else 1

    def terminate(self):
        maybe_interrupt()
        sch().advance_point(f"terminate {self.name}", lambda: setattr(self._task, "kill", True))

    kill = terminate

    def close(self):
        pass


class _PN:
    """current_process(): name can be re-assigned"""

    def __init__(self, task):
        self.__dict__["_t"] = task

    @property
    def name(self):
        return self._t.name

    @name.setter
    def name(self, v):
        self._t.name = v

    def __setattr__(self, k, v):
        if k == "name":
            self._t.name = v
        else:
            self.__dict__[k] = v

    daemon = False
    pid = property(lambda self: 1000 + self._t.tid)
    ident = pid
    exitcode = None

    def is_alive(self):
        return True


def f_current_process():
    t = current()
    if t is None:
        return real_mp.current_process()
    return _PN(t.proc)


class FAsyncResult(_Obj):
    def __init__(self, n, single=False, callback=None, error_callback=None):
        self._n = n
        self._left = n
        self._vals = [None] * n
        self._exc = None
        self._single = single
        self._name = "result"
        self._cb, self._ecb = callback, error_callback

    def _ready(self):
        return self._left == 0

    def ready(self):
        return self._do("ready", self._ready)[1]

    def successful(self):
        assert self._left == 0
        return self._exc is None

    def wait(self, timeout=None):
        self._do("wait poll" if timeout is not None else "wait", None, self._ready, timeout)

    def get(self, timeout=None):
        to, _ = self._do("get poll" if timeout is not None else "get", None, self._ready, timeout)
        if to:
            raise real_mp.TimeoutError
        if self._exc is not None:
            raise self._exc
        return self._vals[0] if self._single else list(self._vals)


class FPool(_Obj):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = sch()
        maybe_interrupt()
        self._name = "pool"
        self._tasks = deque()
        self._closed = False
        self._workers = []
        self._n = processes or 2
        for i in range(self._n):
            init = copy.deepcopy((initializer, tuple(initargs)))

            def body(init=init):
                if init[0] is not None:
                    init[0](*init[1])
                self._work()

            t, th = s.spawn(body, f"SpawnPoolWorker-{i + 1}", is_proc=True, daemon=True)
            self._workers.append(t)
            s.start_task(t, th)
        s.advance_point("pool start")

    def _work(self):
        s = sch()
        while True:
            _, job = s.op(
                lambda: bool(self._tasks) or self._closed, "pool.take",
                action=lambda: self._tasks.popleft() if self._tasks else None,
            )
            if job is None:
                return
            res, idx, fn, items = job
            out, exc = [], None
            fn = copy.deepcopy(fn)
            try:
                for a, k in items:
                    out.append(fn(*a, **k))
            except Exception as e:  # noqa: BLE001
                exc = e

            def fin(res=res, idx=idx, out=out, exc=exc):
                if exc is not None:
                    if res._exc is None:
                        res._exc = exc
                else:
                    for i, o in zip(idx, out):
                        res._vals[i] = o
                res._left -= len(idx)

            s.op(lambda: True, "pool.result", action=fin)

    def _submit(self, fn, calls, chunksize=None, single=False):
        calls = list(calls)
        res = FAsyncResult(len(calls), single)
        if chunksize is None:
            chunksize, extra = divmod(len(calls), self._n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        jobs = []
        for i in range(0, len(calls), chunksize):
            idx = list(range(i, min(i + chunksize, len(calls))))
            jobs.append((res, idx, fn, copy.deepcopy([calls[j] for j in idx])))
        if self._closed:
            raise ValueError("Pool not running")
        self._do("submit", lambda: self._tasks.extend(jobs))
        return res

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(a), {}) for a in iterable], chunksize)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [((a,), {}) for a in iterable], chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(args), dict(kwds or {}))], 1, single=True)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        rs = [self._submit(func, [((a,), {})], 1, single=True) for a in iterable]
        return (r.get() for r in rs)

    imap_unordered = imap

    def close(self):
        self._do("close", lambda: setattr(self, "_closed", True))

    def terminate(self):
        def a():
            self._closed = True
            self._tasks.clear()
            for t in self._workers:
                t.kill = True

        self._do("terminate", a)

    def join(self):
        maybe_interrupt()
        s = sch()
        s.op(lambda: all(t.done for t in self._workers), "pool.join")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class FManager(_Obj):
    def __init__(self):
        self.dead = False
        self._n = {}
        self._name = "manager"

    def _nm(self, kind):
        self._n[kind] = self._n.get(kind, 0) + 1
        return f"{kind}{self._n[kind]}"

    def Queue(self, maxsize=0):
        return FQueue(maxsize, self._nm("queue"), self)

    JoinableQueue = Queue

    def Event(self):
        return FEvent(self._nm("event"), self)

    def Lock(self):
        return FLock(self._nm("lock"), self)

    def RLock(self):
        return FLock(self._nm("rlock"), self, reentrant=True)

    def Semaphore(self, value=1):
        return FSemaphore(value, self._nm("sem"), self)

    BoundedSemaphore = Semaphore

    def Condition(self, lock=None):
        return FCondition(lock, self._nm("cond"), self)

    def Value(self, typecode, value=None, lock=True):
        return FValue(typecode, value, self._nm("value"), self)

    def Namespace(self, **kw):
        return FNamespace(self, **kw)

    def dict(self, *a, **k):
        return FDict(*a, mgr=self, **k)

    def list(self, *a):
        return FList(*a, mgr=self)

    def start(self, *a, **k):
        pass

    def shutdown(self):
        maybe_interrupt()
        s = sch()
        if s is not None:
            s.advance_point("manager.shutdown", lambda: setattr(self, "dead", True))

    def join(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class FContext:
    """what multiprocessing.get_context(...) / the multiprocessing module offer"""

    Process = FProcess
    TimeoutError = real_mp.TimeoutError

    def __init__(self, method=None):
        pass

    def Manager(self):
        maybe_interrupt()
        return FManager()

    def Pool(self, *a, **k):
        return FPool(*a, **k)

    def Queue(self, maxsize=0):
        return FQueue(maxsize, "mpqueue")

    JoinableQueue = Queue

    def SimpleQueue(self):
        return FQueue(0, "mpsimplequeue")

    def Event(self):
        return FEvent("mpevent")

    def Lock(self):
        return FLock("mplock")

    def RLock(self):
        return FLock("mprlock", reentrant=True)

    def Semaphore(self, value=1):
        return FSemaphore(value, "mpsem")

    BoundedSemaphore = Semaphore

    def Condition(self, lock=None):
        return FCondition(lock, "mpcond")

    def Value(self, typecode, value=0, lock=True):
        return FValue(typecode, value, "mpvalue")

    RawValue = Value

    def current_process(self):
        return f_current_process()

    def get_context(self, method=None):
        return FContext(method)

    def cpu_count(self):
        return 2

    def get_start_method(self, *a, **k):
        return "spawn"

    def set_start_method(self, *a, **k):
        pass

    def active_children(self):
        return []

    def get_logger(self):
        return real_mp.get_logger()


FCTX = FContext()


# ---------------------------------------------------------------------- threads
def _t_start(self):
    s = sch()
    if s is None:
        return _orig_start(self)
    cur = current()

    def body():
        # make current_thread() answer with this object
        ident = _thread.get_ident()
        old = real_threading._active.get(ident)
        real_threading._active[ident] = self
        try:
            self.run()
        finally:
            if old is None:
                real_threading._active.pop(ident, None)
            else:
                real_threading._active[ident] = old

    t, th = s.spawn(body, self.name, proc=cur.proc, daemon=self.daemon, thread_obj=self)
    self._mc_task = t
    self._started.set()
    s.start_task(t, th)
    maybe_interrupt()
    s.advance_point(f"thread start {self.name}")


def _t_join(self, timeout=None):
    s = sch()
    t = getattr(self, "_mc_task", None)
    if s is None or t is None:
        if t is not None:
            return
        return _orig_join(self, timeout)
    maybe_interrupt()
    s.op(lambda: t.done, f"join {self.name}", timeout)


def _t_is_alive(self):
    t = getattr(self, "_mc_task", None)
    if t is None:
        return _orig_is_alive(self)
    s = sch()
    if s is None:
        return not t.done
    return s.advance_point(f"is_alive {self.name}", lambda: not t.done)


class _ModProxy:
    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, k):
        o = self.__dict__["_over"]
        if k in o:
            return o[k]
        return getattr(self.__dict__["_real"], k)


def _f_signal(signum, handler):
    s = sch()
    if s is None:
        return real_signal.signal(signum, handler)
    old = s.handlers.get(signum, real_signal.SIG_DFL)
    s.handlers[signum] = handler
    return old


def _f_getsignal(signum):
    s = sch()
    if s is None:
        return real_signal.getsignal(signum)
    return s.handlers.get(signum, real_signal.SIG_DFL)


def _f_sleep(t):
    s = sch()
    if s is None:
        return real_time.sleep(t)
    maybe_interrupt()
    s.op(lambda: False, "sleep poll", timeout=t)


_mp_over = {n: getattr(FCTX, n) for n in dir(FCTX) if not n.startswith("_")}
_th_over = {
    "Event": lambda: FTimerEvent("thevent"),
    "Lock": lambda: FLock("thlock"),
    "RLock": lambda: FLock("thrlock", reentrant=True),
    "Condition": lambda lock=None: FCondition(lock, "thcond"),
    "Semaphore": lambda value=1: FSemaphore(value, "thsem"),
    "BoundedSemaphore": lambda value=1: FSemaphore(value, "thsem"),
}
_q_over = {"Queue": lambda maxsize=0: FQueue(maxsize, "thqueue")}


def patch_modules(mods):
    """replace the concurrency primitives seen by the given (rt1) modules"""
    _RealThread.start = _t_start
    _RealThread.join = _t_join
    _RealThread.is_alive = _t_is_alive
    whole = {
        id(real_mp): _ModProxy(real_mp, _mp_over),
        id(real_threading): _ModProxy(real_threading, _th_over),
        id(real_queue): _ModProxy(real_queue, _q_over),
        id(real_signal): _ModProxy(real_signal, {"signal": _f_signal, "getsignal": _f_getsignal}),
        id(real_time): _ModProxy(real_time, {"sleep": _f_sleep}),
    }
    single = {}
    for real, over in ((real_mp, _mp_over), (real_threading, _th_over), (real_queue, _q_over)):
        for k, v in over.items():
            if hasattr(real, k):
                try:
                    single[getattr(real, k)] = v
                except TypeError:
                    pass
    single[real_signal.signal] = _f_signal
    single[real_signal.getsignal] = _f_getsignal
    single[real_time.sleep] = _f_sleep
    for m in mods:
        for k, v in list(vars(m).items()):
            if id(v) in whole:
                setattr(m, k, whole[id(v)])
            else:
                try:
                    if not isinstance(v, type) and callable(v) and v in single or isinstance(v, type) and v in single and v is not _RealThread:
                        setattr(m, k, single[v])
                except TypeError:
                    pass


# ---------------------------------------------------------------------- exploration
def explore(run, max_dev, first=None, limit=None):
    """all executions with <= max_dev deviations (in the sub-tree of `first`).

    run(choices: dict) -> Scheduler (finished);  yields (choices, scheduler)
    """
    stack = [dict(first or {})]
    n = 0
    while stack:
        ch = stack.pop()
        s = run(ch)
        n += 1
        yield ch, s
        if limit and n >= limit:
            return
        if len(ch) >= max_dev or s.aborting == "divergence":
            continue
        last = max(ch) if ch else -1
        for step in range(last + 1, len(s.nalts)):
            for a in range(1, s.nalts[step]):
                stack.append({**ch, step: a})
