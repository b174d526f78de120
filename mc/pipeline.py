"""Drives rt1's RT1_processor under the controlled scheduler (mc.sched)."""
import logging
import os
import shutil
import tempfile
from pathlib import Path

import pandas as pd

import rt1
import rt1._rtprocess_writer as rtw
import rt1.general_functions as rtg
from . import core, sched

logging.getLogger("rt1").setLevel(logging.CRITICAL + 1)
rt1.log.setLevel(logging.CRITICAL + 1)
_RealHDFStore = pd.HDFStore

_patched = False


def patch():
    global _patched
    if not _patched:
        sched.patch_modules([rtw, rtg])
        pd.HDFStore = _store_factory
        _patched = True


class WriteFault(OSError):
    pass


class Disk:
    """the simulated disk: path -> [(key, frame)], plus observation of concurrent access"""

    real = False

    def __init__(self, fail_append=None, fail_open=None):
        self.files = {}
        self.open_w = {}  # path -> tasks that hold it open for writing
        self.overlaps = []
        self.appends = 0
        self.opens = 0
        self.fail_append = fail_append
        self.fail_open = fail_open
        self.tables = {}


DISK = None


def _store_factory(path, mode="a", *a, **k):
    if DISK is not None and (sched.current() is not None):
        if DISK.real:
            # a real file, opening it is one scheduling point
            sched.maybe_interrupt()
            sched.sch().op(lambda: True, "store.open")
            return _RealHDFStore(path, mode, *a, **k)
        return FakeStore(DISK, str(path), mode)
    return _RealHDFStore(path, mode, *a, **k)


class FakeStore:
    """the part of pd.HDFStore used for writing results; every access is a scheduling point"""

    def __init__(self, disk, path, mode="a", **kw):
        self.d, self.path, self.mode = disk, path, mode
        s = sched.sch()
        sched.maybe_interrupt()

        def act():
            disk.opens += 1
            holders = disk.open_w.setdefault(path, [])
            if mode != "r":
                if holders:
                    disk.overlaps.append((s.running.name, tuple(holders)))
                holders.append(s.running.name)
            elif holders:
                disk.overlaps.append((s.running.name, tuple(holders)))
            if disk.fail_open is not None and disk.opens - 1 == disk.fail_open:
                holders.pop()
                return WriteFault("cannot open the store")
            if mode == "w":
                disk.files[path] = []
            disk.files.setdefault(path, [])
            return None

        e = s.op(lambda: True, "store.open", action=act)[1]
        if e is not None:
            raise e
        self.is_open = True

    def _f(self):
        return self.d.files[self.path]

    def append(self, key, value, *a, **k):
        s = sched.sch()

        def act():
            n = self.d.appends
            self.d.appends += 1
            if self.d.fail_append is not None and n == self.d.fail_append:
                return WriteFault("disk full")
            self._f().append((key.strip("/"), value))
            return None

        e = s.op(lambda: True, f"store.append {key}", action=act)[1]
        if e is not None:
            raise e

    def put(self, key, value, *a, append=False, **k):
        s = sched.sch()

        def act():
            if not append:
                self.d.files[self.path] = [(kk, v) for kk, v in self._f() if kk != key.strip("/")]
            self._f().append((key.strip("/"), value))

        s.op(lambda: True, f"store.put {key}", action=act)

    __setitem__ = put

    def keys(self, *a):
        return ["/" + k for k in dict.fromkeys(k for k, _ in self._f())]

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, key):
        return "/" + key.strip("/") in self.keys()

    def __len__(self):
        return len(self.keys())

    def get(self, key):
        return pd.concat([v for k, v in self._f() if k == key.strip("/")])

    __getitem__ = get
    select = lambda self, key, *a, **k: self.get(key)  # noqa: E731

    def remove(self, key, *a, **k):
        self.d.files[self.path] = [(k, v) for k, v in self._f() if k != key.strip("/")]

    def flush(self, *a, **k):
        pass

    def close(self):
        if not self.is_open:
            return
        self.is_open = False
        s = sched.sch()

        def act():
            hs = self.d.open_w.get(self.path, [])
            if s.running.name in hs:
                hs.remove(s.running.name)

        s.op(lambda: True, "store.close", action=act)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# --------------------------------------------------------------------------- payloads
class SiteError(Exception):
    pass


CONST_KEYS = ("const__reader_arg", "const__static_layer", "const__const_props")


def site_result(i, num, shape="full"):
    """what the processing of site i returns; rows are tagged with the site number"""
    ra = pd.DataFrame({"ID": [f"s{i}"]}, index=pd.Index([num], name="ID"))
    if shape == "lean":
        return {"const__reader_arg": ra, "cfg": {"dyn": pd.DataFrame({"v": [10.0 * i, 10.0 * i + 1]}, index=[num, num])}}
    two = pd.DataFrame({"v": [10.0 * i, 10.0 * i + 1]}, index=[num, num])
    return {
        "const__reader_arg": ra,
        "const__static_layer": pd.DataFrame({"s": [float(i)]}, index=[num]),
        "cfgA": {"dynamic": two, "static": pd.DataFrame({"q": [i * 2.0]}, index=[num])},
        "cfgB": {"dynamic": two + 0.5},
        "plain": pd.DataFrame({"p": [i * 3.0]}, index=[num]),
    }


def flat_keys(res):
    out = {}
    for k, v in res.items():
        if k.startswith("const__"):
            out[k[len("const__"):]] = v
        elif isinstance(v, dict):
            for kk, vv in v.items():
                out[f"{k}/{kk}"] = vv
        else:
            out[k] = v
    return out


class Job:
    """process function / reader of a scenario (copied into the workers)"""

    def __init__(self, behave, shape="full", dur=0.0):
        self.behave = behave  # site -> ok | raise | none | rnone | rraise
        self.shape = shape
        self.dur = dur  # virtual seconds one site takes

    def reader(self, arg):
        b = self.behave.get(arg["ID"], "ok")
        if b == "rnone":
            return None
        if b == "rraise":
            raise SiteError(f"cannot read {arg['ID']}")
        return arg

    def process(self, arg, *args):
        s = sched.sch()
        if self.dur and s is not None:
            s.op(lambda: False, "compute poll", timeout=self.dur)
        b = self.behave.get(arg["ID"], "ok")
        if b == "raise":
            raise SiteError(f"cannot fit {arg['ID']}")
        if b == "none":
            return None
        i = int(arg["ID"][1:])
        return site_result(i, arg["_RT1_ID_num"], self.shape)


class Outcome:
    pass


def run_pipeline(scn, choices, policy="fifo", interrupt_at=None, disk=None, dst="/nonexistent/fit_db.h5",
                 max_steps=6000, early=True, job=None, arg_list=None, wall=60, ID_getter=(lambda a: a["ID"]), starmap_args=None):
    """one controlled execution of a complete processing run

    scn: dict(n, workers, combiners, writers, chunk, cache, behave, shape, reader, fail_append, fail_open, fail_start)
    """
    global DISK
    patch()
    own = disk is None
    DISK = disk if disk is not None else Disk(scn.get("fail_append"), scn.get("fail_open"))
    s = sched.Scheduler(choices, policy=policy, max_steps=max_steps, early_timeouts=early)
    s.interrupt_at = interrupt_at
    s.fail_start = scn.get("fail_start")
    n = scn["n"]
    if job is None:
        job = Job({f"s{k}": v for k, v in scn.get("behave", {}).items()},
                  scn.get("shape", "full"), scn.get("dur", 0.0))
    if arg_list is None:
        arg_list = [dict(ID=f"s{i}") for i in range(n)]
    o = Outcome()
    o.w = None

    def main():
        with rtw.RT1_processor.writer_pool(
            n_worker=scn.get("workers", 1),
            n_combiner=scn.get("combiners", 1),
            n_writer=scn.get("writers", 1),
            dst_path=dst,
            write_chunk_size=scn.get("chunk", 1000),
            out_cache_size=scn.get("cache", 10),
        ) as w:
            o.w = w
            o.ret = w.run_starmap(
                arg_list=arg_list,
                process_func=job.process,
                reader_func=job.reader if scn.get("reader") else None,
                ID_getter=ID_getter,
                **({} if starmap_args is None else dict(starmap_args=starmap_args)),
            )

    t = s.run(main, wall=wall)
    o.sched = s
    o.main_exc = t.exc
    o.disk = DISK
    if own:
        DISK = None
    return o


def expected(scn, offset_ids=None):
    """key -> {site: [row values]} for the sites whose processing succeeds"""
    exp = {}
    for i in range(scn["n"]):
        if scn.get("behave", {}).get(str(i), scn.get("behave", {}).get(i, "ok")) != "ok":
            continue
        for k, v in flat_keys(site_result(i, i, scn.get("shape", "full"))).items():
            exp.setdefault(k, []).extend(rows(v))
    return {k: sorted(v) for k, v in exp.items()}


def rows(df):
    """[(index label, column values...)] of a frame"""
    return [tuple(map(str, (ix, *vals))) for ix, vals in zip(df.index, df.itertuples(index=False, name=None))]


def content(disk, path="/nonexistent/fit_db.h5"):
    out = {}
    for k, v in disk.files.get(path, []):
        out.setdefault(k, []).extend(rows(v if isinstance(v, pd.DataFrame) else v.to_frame()))
    return {k: sorted(v) for k, v in out.items()}
