import builtins
import csv
import datetime
import errno
import gc
import io
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from .. import env
from .. import faults as F

PROP = "C10"
RUNS = {"quick": 700, "thorough": 15000}
RUN_TIMEOUT = 90
LISTS = ["ops"]
RULE = ("a seed gives four to nine loads of the datasets through a simulated disk that serves few bytes at a time, "
        "fails at a chosen open or read, or lets another load run in between, with writes over earlier frames; "
        "nontrivial: a load failed, and a later load of the same dataset was compared")
STEPS = "opens and reads of the simulated disk"
STATES = "dataset, faults that struck, outcome, what happened to the dataset before"
REAL = ["the loaders, pandas' parsers, the data files' content"]
SIMULATED = ["opening and reading of the data files", "other loads that run while one waits for the disk", "interrupts",
             "what callers do to the frames they were given"]
ASSUMPTIONS = ["the files are read through Python's open (in any of its guises)",
               "a file that was cut short or changed on disk cannot be told from a good one and is not claimed"]

DATA = os.path.realpath(env.REPO / "copulae" / "datasets")
NAMES = {"load_danube": "danube.csv", "load_marginal_data": "marginal-data.csv", "load_residuals": "residuals.csv",
         "load_smi": "smi.csv"}
REF = {}
_open = io.open


def setup():
    for fn, f in NAMES.items():
        with _open(os.path.join(DATA, "data", f), newline="") as h:
            rows = [[x.strip() for x in r] for r in csv.reader(h) if r]
        head, body = rows[0], rows[1:]
        if fn == "load_smi":
            days = [datetime.date.fromisoformat(r[0]) for r in body]
            v = np.array([[float(x) for x in r[1:]] for r in body])
            REF[fn, False] = (head[1:], days, v)
            REF[fn, True] = (head[1:], days[1:], v[1:] / v[:-1] - 1)
        else:
            REF[fn, False] = (head, list(range(len(body))), np.array([[float(x) for x in r] for r in body]))


class Disk(io.RawIOBase):
    """one opened file of the simulated disk"""

    def __init__(self, world, path):
        self.world = world
        self.path = path
        self.f = io.FileIO(path)
        world.opened.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self.f.seek(pos, whence)

    def tell(self):
        return self.f.tell()

    def fileno(self):
        return self.f.fileno()

    def readinto(self, b):
        n = self.world.event("read", self.path)
        want = len(b) if n is None else max(1, min(len(b), n))
        data = self.f.read(want)
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = b""
        while True:
            b = bytearray(4096)
            n = self.readinto(b)
            if not n:
                return out
            out += b[:n]

    def close(self):
        self.f.close()
        super().close()


class World:
    """The disk, and who else uses it"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.plan = None
        self.opened = []
        self.n = 0
        self.struck = []

    def arm(self, plan):
        self.plan = plan
        self.n = 0
        self.struck = []

    def event(self, kind, path):
        """a request that reaches the disk; how many bytes it may serve"""
        p = self.plan
        self.ctx.steps += 1
        if p is None:
            return None
        self.n += 1
        for f in p["faults"]:
            if f["kind"] == kind and not f.get("done") and (kind == "open" or self.n >= f["at"]):
                f["done"] = True
                self.strike(f["what"], path)
        return p["chunk"]

    def strike(self, what, path):
        self.struck.append(what)
        self.ctx.fault(what)
        if what == "another load":
            plan, self.plan, n = self.plan, None, self.n
            fn = [k for k, v in NAMES.items() if path.endswith(v)]
            name = fn[0] if fn else "load_smi"
            got = call(name, False)
            check(self.ctx, got, name, False, f"a load of {name} that ran while another waited for the disk")
            self.plan, self.n = plan, n
            return
        if what in F.EXC:
            raise F.EXC[what]("injected")
        raise OSError(getattr(errno, what), os.strerror(getattr(errno, what)), path)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else ""
        except TypeError:
            path = ""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith(DATA + os.sep) or set(mode) & set("wax+") or path.endswith((".py", ".pyc")):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.event("open", path)
        raw = Disk(self, path)
        if "b" in mode and buffering == 0:
            return raw
        size = self.plan["buffer"] if self.plan else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedReader(raw, size)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)


def call_plain(name, returns):
    import copulae.datasets as D
    return getattr(D, name)(returns) if name == "load_smi" else getattr(D, name)()


def call(name, returns):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return call_plain(name, returns)


def wrong(df, name, returns):
    """what is wrong with a frame that was loaded"""
    cols, index, v = REF[name, bool(returns)]
    if not isinstance(df, pd.DataFrame):
        return f"is a {type(df).__name__}"
    if [str(c) for c in df.columns] != cols:
        return f"has the columns {list(df.columns)}"
    if df.shape != v.shape:
        return f"has the shape {df.shape}, not {v.shape}"
    have = [i.date() for i in df.index] if name == "load_smi" else list(df.index)
    if have != index:
        bad = next(k for k, (a, b) in enumerate(zip(have, index)) if a != b)
        return f"has row {bad} labelled {have[bad]}, not {index[bad]}"
    try:
        a = df.to_numpy(float)
    except (TypeError, ValueError):
        return f"has the types {[str(t) for t in df.dtypes]}"
    ok = np.isclose(a, v, rtol=1e-9, atol=1e-12)
    if not ok.all():
        r, c = np.argwhere(~ok)[0]
        return f"has {a[r, c]} in row {r}, column {cols[c]}, not {v[r, c]}"
    return None


def check(ctx, df, name, returns, what):
    w = wrong(df, name, returns)
    return ctx.expect(w is None, "wrong-dataset", lambda: f"{what} {w}")


def gen(rng, i, tier):
    ops = []
    weights = ["load_danube", "load_danube", "load_residuals", "load_residuals", "load_smi", "load_smi", "load_smi",
               "load_marginal_data"]
    some = rng.sample(weights, 3)
    for _ in range(rng.randint(4, 9)):
        k = rng.choice(["load"] * 5 + ["write", "write", "chdir"])
        if k == "load":
            name = rng.choice(some)
            faults = []
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
                if rng.random() < 0.25:
                    faults.append({"kind": "open", "at": 0, "what": rng.choice(
                        ["EACCES", "ENOENT", "EMFILE", "ENFILE", "EIO", "ENOMEM", "interrupt", "another load"])})
                else:
                    faults.append({"kind": "read", "at": rng.choice([1, 2, 3, 5, 9, 20, 40]), "what": rng.choice(
                        ["EIO", "EIO", "ESTALE", "ETIMEDOUT", "memory", "interrupt", "another load", "another load"])})
            op = {"op": "load", "name": name, "returns": name == "load_smi" and rng.random() < 0.5, "faults": faults,
                  "chunk": rng.choice([None, 1, 37, 500, 4096]) if name != "load_marginal_data" else None,
                  "buffer": rng.choice([64, 512, 8192]),
                  "line": [rng.random(), rng.choice(["interrupt", "memory", "error"])] if rng.random() < 0.15 else None}
            if op["chunk"] == 1:
                op["buffer"] = 512
        elif k == "write":
            op = {"op": "write", "which": rng.random(), "how": rng.choice(["values", "drop", "rename", "index", "add"]),
                  "seed": rng.randrange(1 << 30)}
        else:
            op = {"op": "chdir"}
        ops.append(op)
    return {"ops": ops}


def spoil(df, how, seed):
    r = np.random.RandomState(seed)
    if how == "values":
        df.iloc[:, :] = r.normal(size=df.shape)
    elif how == "drop":
        df.drop(columns=df.columns[0], inplace=True)
    elif how == "rename":
        df.columns = [f"z{i}" for i in range(df.shape[1])]
    elif how == "index":
        df.reset_index(drop=True, inplace=True)
    else:
        df["more"] = 1.0


def run(plan, ctx):
    warnings.simplefilter("ignore")
    world = World(ctx)
    builtins.open = io.open = world.open
    os_open = os.open

    def low(path, flags, *a, **k):
        p = os.path.realpath(path) if isinstance(path, str) else ""
        if p.startswith(DATA + os.sep) and not p.endswith((".py", ".pyc")):
            world.event("open", p)
        return os_open(path, flags, *a, **k)

    os.open = low
    home, scratch = os.getcwd(), tempfile.mkdtemp(prefix="c10-")
    try:
        play(plan, ctx, world, scratch)
    finally:
        builtins.open = io.open = _open
        os.open = os_open
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def play(plan, ctx, world, scratch):
    got = []  # [frame, name, returns, spoilt, copy]
    past = {}
    compared = False
    for n, op in enumerate(plan["ops"]):
        kind = op["op"]
        if kind == "chdir":
            os.chdir(scratch)
            ctx.event(n, kind)
            continue
        if kind == "write":
            if not got:
                continue
            item = got[int(op["which"] * len(got))]
            spoil(item[0], op["how"], op["seed"])
            item[3] = item[0].copy()
            past.setdefault(item[1], []).append("written over")
            ctx.fault("wrote over a frame")
            ctx.event(n, kind)
        else:
            name, returns = op["name"], op["returns"]
            what = f"operation {n}, {name}({'as_returns=True' if returns else ''}),"
            for attempt in ("first", "again"):
                lines = None
                world.arm({"faults": [dict(f) for f in op["faults"]] if attempt == "first" else [],
                           "chunk": op["chunk"], "buffer": op["buffer"]})
                at = None
                if op["line"] and attempt == "first":
                    at = 1 + int(op["line"][0] * 12)
                    lines = F.Lines({at: F.thrower(op["line"][1])})
                result, df = "ok", None
                try:
                    if lines:
                        with lines:
                            df = call(name, returns)
                    else:
                        df = call(name, returns)
                except KeyboardInterrupt:
                    result = "interrupted"
                except Exception as e:
                    result = type(e).__name__
                if lines and lines.where:
                    ctx.fault("interrupted call")
                struck = [s for s in world.struck if s != "another load"] + (["line"] if lines and lines.where else [])
                world.arm(None)
                world.plan = None
                gc.collect()
                left = [d for d in world.opened if not d.closed]
                ctx.expect(not left, "file-left-open", lambda: f"{what} ({result}) left {left[0].path} open")
                ctx.event(n, name, attempt, result)
                ctx.state(name, returns, world.struck, result, past.get(name, [])[-3:])
                if result == "ok":
                    check(ctx, df, name, returns, f"{what} after {past.get(name, [])} and with the faults "
                          f"{struck} gave a frame that")
                    compared = compared or "failed" in past.get(name, [])
                    for x in got:
                        ctx.expect(x[0] is not df, "same-frame-twice", lambda: f"{what} gave a frame that was given before")
                    got.append([df, name, returns, df.copy()])
                    past.setdefault(name, []).append("loaded")
                else:
                    ctx.expect(struck, "failed-without-fault", lambda: f"{what} after {past.get(name, [])} raised {result}")
                    past.setdefault(name, []).append("failed")
                if ctx.violations:
                    return
                if result == "ok":
                    break
        for x in got:
            ok = x[0].equals(x[3])
            ctx.expect(ok, "frame-changed", lambda: f"operation {n} ({kind}) changed a frame that {x[1]} gave earlier")
        if ctx.violations:
            return
    ctx.nontrivial = compared
