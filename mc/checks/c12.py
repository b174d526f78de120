"""C12: set-up of a processing folder.

Explicit-state exploration on the real RTprocess: the state is the content of a scratch folder (source config and modules,
output folders with whatever a user put there) together with the RTprocess instance.  Every operation is executed by the
real code and, side by side, by a small reference model that knows the files by construction; after every operation the
files, the prompts, the parsed specifications, the imported modules and the fit are compared.
"""
import builtins
import configparser
import contextlib
import copy
import logging
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
from pathlib import Path

from mc import core
from mc.core import expect

LEVEL = "model_checking"
RULE = (
    "breadth-first: all sequences of operations (set-ups of new and of the same instance with every answer to the prompts, "
    "with/without overrides of every section, with/without copying, worker set-ups, processing and final-output runs, "
    "changed source files, edited copies, files added by users) up to the stated depth; states with equal files and equal "
    "instance are expanded once; one transition = one operation executed by the real code and compared with the model"
)
ASSUMPTIONS = [
    "the number of parallel set-ups of the same folder is 1 (workers are set up after the main process)",
    "modules of one config have different file names",
    "the processing itself is replaced by a stand-in (C01-C03 check it)",
]
NOTE = "Complete for the stated alphabet of operations and depth."
TIMEOUT = 900

# ------------------------------------------------------------------ the files
SECTIONS = {
    "fits_kwargs": {"sig0": "False", "dB": "False", "int_Q": "False", "verbose": "0"},
    "least_squares_kwargs": {"ftol": "1e-3"},
    "defdict": {"omega": "[False, 0.3]", "tau": "[True, 0.5, None, 0.01, 1.5]", "N": "[False, 0.2]"},
    "RT1_V": {"V_name": "Rayleigh", "tau": "tau", "omega": "omega"},
    "RT1_SRF": {"SRF_name": "Isotropic", "NormBRDF": "N"},
    "CONFIGFILES": {
        "module__processing_cfg": "${PROCESS_SPECS:base}/src/rt1mc_mod_a.py",
        "module__alt": "${PROCESS_SPECS:base}/src/rt1mc_mod_b.py",
    },
    "PROCESS_SPECS": {
        "base": None,
        "path__save_path": "${base}/out",
        "dumpfolder": "dump",
        "processing_cfg_class": "proc",
        "finalout_name": "res",
        "val": "A",
        "int__num": "1",
        "none": "None",
    },
}
OVER = {
    "val": {"PROCESS_SPECS": {"val": "O"}},
    "num": {"PROCESS_SPECS": {"int__num": "7", "list__new": "[a, b]"}},
    "fit": {"fits_kwargs": {"dB": "True"}},
    "two": {"defdict": {"omega": "[False, 0.7]"}, "RT1_V": {"tau": "2*tau"}},
    "alt": {"CONFIGFILES": {"processing_cfg_module": "alt"}},
    "dump": {"PROCESS_SPECS": {"dumpfolder": "dump2"}},
}
MOD = """
from rt1.processing_config import rt1_processing_config

class proc(rt1_processing_config):
    TAG = {tag!r}
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        self.seen = dict(kwargs)
    def reader(self, reader_arg):
        return None
    def preprocess(self, **kwargs):
        return None
    def finalout_reader(self, *args):
        return None
"""


def source(base, version):
    s = copy.deepcopy(SECTIONS)
    s["PROCESS_SPECS"]["base"] = str(base)
    if version:
        s["PROCESS_SPECS"]["val"] = f"A{version}"
        s["defdict"]["omega"] = f"[False, 0.{3 + version}]"
        s["fits_kwargs"]["int_Q"] = "True"
    return s


def text(sections):
    return "# a comment\n" + "".join(
        f"[{n}]\n" + "".join(f"{k}={v}\n" for k, v in kv.items()) + "\n" for n, kv in sections.items()
    )


def raw(path):
    c = configparser.RawConfigParser()
    c.optionxform = str
    c.read(path)
    return {s: dict(c.items(s)) for s in c.sections()}


def merged(cfg, over):
    cfg = copy.deepcopy(cfg)
    for s, kv in over.items():
        cfg[s].update(kv)
    return cfg


def specs_of(cfg, base):
    """PROCESS_SPECS as python objects (only the kinds of entries used above)"""
    out = {}
    for k, v in cfg["PROCESS_SPECS"].items():
        v = v.replace("${base}", str(base))
        if k.startswith("path__"):
            out[k[6:]] = Path(v)
        elif k.startswith("int__"):
            out[k[5:]] = int(v)
        elif k.startswith("list__"):
            out[k[6:]] = [i.strip() for i in v[1:-1].split(",")]
        else:
            out[k] = None if v == "None" else v
    return out


# ------------------------------------------------------------------ operations
ANSWERS = {
    "y": ["y"], "YES": ["YES"], "n": ["n"], "No": ["No"], "empty": [""], "other": ["maybe"],
    "rem_y": ["REMOVE", "y"], "rem_YES": ["remove", "YES"], "rem_n": ["REMOVE", "n"], "rem_empty": ["REMOVE", ""],
    "rem_rem": ["REMOVE", "REMOVE"],
}


def operations(tier):
    ops = [("new", a) for a in ("auto", "y", "n", "other", "empty", "rem_y", "rem_n", "rem_rem")]
    ops += [("new_nocopy",), ("new_stored",), ("again",), ("worker",)]
    ops += [("new_over", k) for k in OVER] + [("new_over_ask", "fit", a) for a in ("y", "n", "rem_y")]
    ops += [("over", k, True) for k in OVER] + [("over", k, False) for k in OVER] + [("over", "none", True)]
    ops += [("src",), ("mod",), ("edit",), ("files",)]
    ops += [("process", a) for a in ("y", "n")] + [("finalout", None), ("finalout", "new.h5")]
    if tier == "thorough":
        ops += [("new", a) for a in ("YES", "No", "rem_YES", "rem_empty")] + [("over_ask", "val", a) for a in ("y", "n", "rem_y")]
    return ops


class Model:
    """the expected content of the scratch folder and the expected attributes of the instance"""

    def __init__(self, base):
        self.base = base
        self.src = 0
        self.mods = {"rt1mc_mod_a.py": 0, "rt1mc_mod_b.py": 0}
        self.folders = {}  # name -> dict(cfg, verbatim, mods, files, subs)
        self.inst = None  # dict(auto, copy, init, stored)
        self.used = None  # dict(cfg, load, folder) of the last successful set-up

    def clone(self):
        return copy.deepcopy(self)

    def key(self):
        return (self.src, sorted(self.mods.items()), repr(sorted(self.folders.items())), repr(self.inst), repr(self.used))

    def setup(self, answers, auto=None, worker=False):
        """returns (prompts consumed, aborted)"""
        inst = self.inst
        auto = inst["auto"] if auto is None else auto
        read = self.folders["dump"]["cfg"] if inst["stored"] else source(self.base, self.src)
        cfg = merged(read, inst["init"])
        name = cfg["PROCESS_SPECS"]["dumpfolder"]
        asked = 0
        if not auto and name in self.folders:
            asked = 1
            a = answers[0].upper()
            if a == "REMOVE":
                asked = 2
                if answers[1].upper() not in ("Y", "YES"):
                    return asked, True
                del self.folders[name]
            elif a not in ("Y", "YES"):
                return asked, True
        f = self.folders.setdefault(name, dict(cfg=None, verbatim=None, mods={}, files={}))
        used, load = cfg, dict(self.mods)
        if inst["copy"]:
            if not worker and (f["cfg"] is None or inst["init"]):
                f["cfg"] = cfg
                f["verbatim"] = None if inst["init"] else text(read)
            for p in ("module__processing_cfg", "module__alt"):
                m = Path(cfg["CONFIGFILES"][p]).name
                f["mods"].setdefault(m, self.mods[m])
            used, load = f["cfg"], dict(f["mods"])
        self.used = dict(cfg=copy.deepcopy(used), load=load, folder=name)
        return asked, False


def applicable(op, m):
    if op[0] in ("again", "worker", "over", "over_ask", "process", "finalout") and m.inst is None:
        return False
    if op[0] in ("process", "finalout") and not m.inst["copy"]:
        return False  # needs the cfg folder only; the copy=False variant is covered by "again"
    if op[0] == "worker":
        return m.used is not None
    if op[0] == "new_stored":
        return m.folders.get("dump", {}).get("cfg") is not None
    if op[0] in ("edit",):
        f = m.folders.get("dump")
        return f is not None and f["cfg"] is not None and f["cfg"]["PROCESS_SPECS"]["val"] != "edited"
    if op[0] == "files":
        return "dump" in m.folders and not m.folders["dump"]["files"]
    if op[0] == "src":
        return m.src == 0
    if op[0] == "mod":
        return m.mods["rt1mc_mod_a.py"] == 0
    if m.inst is not None and m.inst["stored"] and op[0] in ("over", "over_ask") and op[1] == "dump":
        return False
    return True


# ------------------------------------------------------------------ the real code
class Prompt:
    def __init__(self, answers):
        self.answers, self.asked = list(answers), 0

    def __call__(self, msg=""):
        self.asked += 1
        if not self.answers:
            raise AssertionError("one more prompt than expected")
        return self.answers.pop(0)


@contextlib.contextmanager
def environment(answers=(), worker=False):
    inp, name = builtins.input, mp.current_process().name
    path, mods, handlers = list(sys.path), set(sys.modules), list(logging.getLogger("rt1").handlers)
    dwb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    prompt = Prompt(answers)
    builtins.input = prompt
    mp.current_process().name = "RTprocess-1" if worker else "MainProcess"
    try:
        yield prompt
    finally:
        builtins.input = inp
        mp.current_process().name = name
        sys.path[:] = path
        sys.dont_write_bytecode = dwb
        for k in [k for k in sys.modules if k not in mods and k.startswith("rt1mc_")]:
            del sys.modules[k]
        logging.getLogger("rt1").handlers[:] = handlers


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        if "__pycache__" in dirs:
            dirs.remove("__pycache__")
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in files:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def restore(root, snap):
    for x in os.listdir(root):
        p = os.path.join(root, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for rel, content in sorted(snap.items(), key=lambda i: (i[1] is not None, i[0])):
        p = os.path.join(root, rel)
        if content is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(content)


def write_sources(m):
    d = m.base / "src"
    d.mkdir(exist_ok=True)
    (d / "conf.ini").write_text(text(source(m.base, m.src)))
    for name, v in m.mods.items():
        (d / name).write_text(MOD.format(tag=f"{name}:{v}"))


def clone_instance(p):
    if p is None:
        return None
    q = object.__new__(type(p))
    q.__dict__.update(p.__dict__)
    for k in ("init_kwargs", "hdf_export_kwargs"):
        if k in q.__dict__:
            q.__dict__[k] = copy.deepcopy(q.__dict__[k])
    return q


def check_files(res, key, m, before, after):
    """the folder contains exactly what the model says"""
    want_dirs = {"src", *(("out",) if m.folders or "out" in before else ())}
    want = {}
    for name, f in m.folders.items():
        want_dirs |= {f"out/{name}", *(f"out/{name}/{s}" for s in ("cfg", "results", "dumps"))}
        for fn, content in f["files"].items():
            want[f"out/{name}/{fn}"] = content
        for fn, v in f["mods"].items():
            want[f"out/{name}/cfg/{fn}"] = MOD.format(tag=f"{fn}:{v}").encode()
        if f["cfg"] is not None:
            want[f"out/{name}/cfg/conf.ini"] = f["verbatim"].encode() if f["verbatim"] is not None else f["cfg"]
    for fn, v in m.mods.items():
        want[f"src/{fn}"] = MOD.format(tag=f"{fn}:{v}").encode()
    want["src/conf.ini"] = text(source(m.base, m.src)).encode()
    got_dirs = {k for k, v in after.items() if v is None}
    expect(res, got_dirs == want_dirs, key + "/folders", lambda: f"folders: missing {want_dirs - got_dirs}, additional {got_dirs - want_dirs}")
    got = {k: v for k, v in after.items() if v is not None and not k.endswith(".log")}
    expect(res, set(got) == set(want), key + "/files", lambda: f"files: missing {set(want) - set(got)}, additional {set(got) - set(want)}")
    for k in set(got) & set(want):
        if isinstance(want[k], dict):
            g = raw(m.base / k)
            expect(res, g == want[k], key + "/stored-config", lambda: "stored config differs: " + str(
                {s: (g.get(s), want[k].get(s)) for s in {*g, *want[k]} if g.get(s) != want[k].get(s)}))
        else:
            expect(res, got[k] == want[k], key + "/content", lambda: f"content of {k} changed: {got[k][-300:]!r} != {want[k][-300:]!r}")


def check_instance(res, key, m, p):
    u = m.used
    base = m.base
    want = specs_of(u["cfg"], base)
    seen = getattr(p.proc_cls, "seen", None)
    want["dumpfolder"] = u["folder"]
    expect(res, seen == want, key + "/specs", lambda: f"specs of the processing class {seen} != {want}")
    for k, v in want.items():
        if k not in ("save_path", "dumpfolder"):
            expect(res, getattr(p.proc_cls, k, "missing") == v, key + "/specs", lambda: f"proc_cls.{k} = {getattr(p.proc_cls, k, None)}")
    mod = {"processing_cfg": "rt1mc_mod_a.py", "alt": "rt1mc_mod_b.py"}[u["cfg"]["CONFIGFILES"].get("processing_cfg_module", "processing_cfg")]
    expect(res, p.proc_cls.TAG == f"{mod}:{u['load'][mod]}", key + "/module", lambda: f"module in use: {p.proc_cls.TAG}, expected {mod}:{u['load'][mod]}")
    expect(res, Path(p.dumppath) == base / "out" / u["folder"], key + "/dumppath", lambda: f"dumppath {p.dumppath}")
    cfg = u["cfg"]
    fit = p.parent_fit
    kw = {k: v == "True" for k, v in cfg["fits_kwargs"].items() if k != "verbose"}
    got = {k: getattr(fit, k) for k in kw}
    expect(res, got == kw, key + "/fit", lambda: f"fit {got} != {kw}")
    om = float(cfg["defdict"]["omega"].split(",")[1].strip(" ]"))
    expect(res, list(fit.defdict["omega"])[:2] == [False, om], key + "/fit", lambda: f"omega {fit.defdict['omega']} expected {om}")
    tau = fit.set_V_SRF["V_props"]["tau"]
    expect(res, str(tau).replace(" ", "") == cfg["RT1_V"]["tau"], key + "/fit", lambda: f"tau {tau!r}")


def execute(res, key, op, m, p):
    """perform op on the real code and on the model; returns the instance (None: not usable any more)"""
    from rt1.rtprocess import RTprocess

    conf = m.base / "src" / "conf.ini"
    kind = op[0]
    # -------- changes made by the user
    if kind in ("src", "mod", "edit", "files"):
        if kind == "src":
            m.src = 1
        elif kind == "mod":
            m.mods["rt1mc_mod_a.py"] = 1
        if kind in ("src", "mod"):
            write_sources(m)
        elif kind == "edit":
            f = m.folders["dump"]
            f["cfg"]["PROCESS_SPECS"]["val"] = "edited"
            f["cfg"]["defdict"]["omega"] = "[False, 0.9]"
            f["verbatim"] = text(f["cfg"])
            (m.base / "out/dump/cfg/conf.ini").write_text(f["verbatim"])
        else:
            f = m.folders["dump"]
            for fn in ("results/fit_db.h5", "dumps/a.dump", "cfg/notes.txt", "own.txt"):
                f["files"][fn] = b"user " + fn.encode()
                (m.base / "out/dump" / fn).write_bytes(f["files"][fn])
        return p

    answers, worker = [], False
    if kind.startswith("new"):
        kw, over = {}, {}
        stored = kind == "new_stored"
        auto = True
        if kind == "new":
            auto = op[1] == "auto"
            answers = ANSWERS.get(op[1], [])
        elif kind == "new_nocopy":
            kw["copy"] = False
        elif kind in ("new_over", "new_over_ask"):
            over = copy.deepcopy(OVER[op[1]])
            kw["init_kwargs"] = copy.deepcopy(over)
            if kind == "new_over_ask":
                auto, answers = False, ANSWERS[op[2]]
        m.inst = dict(auto=auto, copy=kw.get("copy", True), init=over, stored=stored)
        m.used = None
        p = RTprocess(m.base / "out/dump/cfg/conf.ini" if stored else conf, autocontinue=auto, **kw)
    elif kind in ("over", "over_ask"):
        over = copy.deepcopy(OVER.get(op[1], {}))
        if kind == "over_ask":
            m.inst["auto"] = p.autocontinue = False
        if kind == "over_ask" or op[2]:
            m.inst["init"] = over
            arg = {s: {k: (int(v) if v.isdigit() else v) for k, v in kv.items()} for s, kv in over.items()}
            with environment():
                p.override_config(**arg)
        else:
            new = copy.deepcopy(m.inst["init"])
            for s, kv in over.items():
                new.setdefault(s, {}).update(kv)
            m.inst["init"] = new
            with environment():
                p.override_config(override=False, **over)
        answers = ANSWERS[op[2]] if kind == "over_ask" else ["y"]
    elif kind in ("again", "finalout"):
        answers = ["y"] if kind == "again" else []
    elif kind == "process":
        answers = ANSWERS[op[1]]
    elif kind == "worker":
        worker = True

    called = []
    with environment(answers, worker) as prompt:
        aborted = False
        try:
            if kind == "process":
                p._processfunc = lambda *a, **k: called.append((a, k))
                p.run_processing(ncpu=1, reader_args=[], logfile_level=None)
            elif kind == "finalout":
                p._run_finalout = lambda *a, **k: called.append((a, k)) or "out"
                ret = p.run_finaloutput(ncpu=1, finalout_name=op[1], logfile_level=None, fitlist=[])
                expect(res, ret == "out", key + "/finalout", "result of the final output is not returned")
            else:
                p.setup()
        except SystemExit:
            aborted = True
        finally:
            p.__dict__.pop("_processfunc", None)
            p.__dict__.pop("_run_finalout", None)
        asked = prompt.asked
    auto = True if kind in ("finalout", "worker") else None
    if kind == "finalout" and op[1] is not None:
        m.inst["init"].setdefault("PROCESS_SPECS", {})["finalout_name"] = op[1]
    exp_asked, exp_abort = m.setup(answers, auto, worker)
    expect(res, asked == exp_asked, key + "/prompts", f"{asked} prompts, expected {exp_asked}")
    expect(res, aborted == exp_abort, key + "/abort", f"aborted: {aborted}, expected {exp_abort}")
    expect(res, p.autocontinue == m.inst["auto"], key + "/autocontinue", f"autocontinue {p.autocontinue} expected {m.inst['auto']}")
    expect(res, p.init_kwargs == m.inst["init"], key + "/init_kwargs", lambda: f"init_kwargs {p.init_kwargs} != {m.inst['init']}")
    if kind in ("process", "finalout"):
        expect(res, len(called) == (not exp_abort), key + "/run", f"{len(called)} runs although aborted={exp_abort}")
    if exp_abort or aborted:
        # the set-up did not happen: the instance is not usable without a further set-up
        m.inst, m.used = None, None
        return None
    check_instance(res, key, m, p)
    if kind == "process":
        f = m.folders[m.used["folder"]]
        path = m.base / "out" / m.used["folder"] / "cfg/model_definition.txt"
        got = path.read_text() if path.exists() else ""
        fit = p.parent_fit
        need = [" ".join(x.split()) for x in fit._model_definition.split("\n")[1:]]  # (the first line is the current time)
        need += [f"{k} = {v}" for k, v in fit.lsq_kwargs.items()] + [f"{k} = {fit.defdict[k][1]}" for k in ("omega", "N")]
        have = " ".join(got.split())
        missing = [x for x in need if x not in have]
        expect(res, not missing, key + "/definition", lambda: f"not part of the stored model definition: {missing}")
        if path.exists():
            f["files"]["cfg/model_definition.txt"] = path.read_bytes()
    if kind == "finalout" and called:
        k = called[0][1]
        want = m.base / "out" / m.used["folder"] / "results" / m.used["cfg"]["PROCESS_SPECS"]["finalout_name"]
        expect(res, Path(k["save_path"]) == want, key + "/save_path", lambda: f"saved to {k['save_path']}, expected {want}")
    return p


def case_key(c):
    return "/".join("-".join(map(str, o)) for o in c["prefix"])


def cases(tier, seed):
    ops = operations(tier)
    m = Model(Path("/"))
    first = [o for o in ops if applicable(o, m)]
    out = [dict(prefix=[o], depth=0, tier=tier) for o in first]
    depth = 2 if tier == "quick" else 3
    states = set()
    for o in first:
        # (first operations that lead to the same state are continued only once)
        if o[0] in ("src", "mod"):
            k = o
        else:
            auto = o[0] not in ("new", "new_over_ask") or o[1] == "auto"
            k = (auto, o[0] == "new_nocopy", o[1] if o[0].startswith("new_over") else None)
        if k in states:
            continue
        states.add(k)
        second = ops if o[0].startswith("new") else [o2 for o2 in first if o2 != o]
        out += [dict(prefix=[o, o2], depth=depth - 1, tier=tier) for o2 in second]
    return out + [dict(prefix=[("reject",)], depth=0, tier=tier)]


def run_case(case):
    res = core.Result()
    base = Path(tempfile.mkdtemp(dir=core.SCRATCH)).resolve()
    try:
        prefix = [tuple(o) for o in case["prefix"]]
        if prefix == [("reject",)]:
            reject(res, base)
            return res
        m, p = Model(base), None
        write_sources(m)
        for i, op in enumerate(prefix):
            if not applicable(op, m):
                return res
            before = snapshot(base)
            k = case_key(dict(prefix=prefix[: i + 1]))
            p = step(res, k, op, m, p, before)
        frontier = [(prefix, m, p, snapshot(base))]
        seen = set()
        for _ in range(case["depth"]):
            nxt = []
            for hist, m, p, snap in frontier:
                for op in operations(case["tier"]):
                    if not applicable(op, m):
                        continue
                    m2, p2 = m.clone(), clone_instance(p)
                    restore(base, snap)
                    h = hist + [op]
                    p2 = step(res, case_key(dict(prefix=h)), op, m2, p2, snap)
                    k = core.h((m2.key(),)).replace(str(base), "")
                    if k not in seen:
                        seen.add(k)
                        nxt.append((h, m2, p2, snapshot(base)))
                    if len(res.violations) > 5:
                        return res
            frontier = nxt
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def step(res, key, op, m, p, before):
    try:
        p = execute(res, key, op, m, p)
    except Exception as e:  # noqa: BLE001
        res.violation(key + "/exception", core.exc_text(e))
        m.inst, m.used = None, None
        p = None
    check_files(res, key, m, before, snapshot(m.base))
    res.evaluations += 1
    res.transitions += 1
    res.traces += 1
    res.state(repr(m.key()).replace(str(m.base), ""))
    return p


def reject(res, base):
    """invalid requests are rejected before anything is written"""
    from rt1.rtprocess import RTprocess

    m = Model(base)
    write_sources(m)
    conf = base / "src/conf.ini"
    before = snapshot(base)

    def missing():
        RTprocess(base / "src/nothing.ini")

    def section_init():
        RTprocess(conf, autocontinue=True, init_kwargs={"nope": {"a": "1"}}).setup()

    def section_over():
        RTprocess(conf, autocontinue=True).override_config(nope={"a": "1"})

    def not_str():
        RTprocess(conf, autocontinue=True, init_kwargs={"PROCESS_SPECS": {"a": 1}})

    for f in (missing, section_init, section_over, not_str):
        with environment():
            try:
                f()
                ok = False
            except AssertionError:
                ok = True
        res.evaluations += 1
        res.state(f.__name__)
        expect(res, ok, f"reject/{f.__name__}", "an invalid request is accepted")
        expect(res, snapshot(base) == before, f"reject/{f.__name__}/files", "files were changed by a rejected request")
