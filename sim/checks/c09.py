import contextlib
import copy
import decimal
import gc
import io
import locale
import logging
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
import pandas as pd

from .. import env
from .. import faults as F
from .. import functions as FN
from .. import world as W

PROP = "C09"
RUNS = {"quick": 700, "thorough": 12000}
RUN_TIMEOUT = 120
LISTS = ["ops"]
RULE = ("a seed gives the settings of the process (floating point error handling, warning filters, print and pandas "
        "options, working directory and so on) and six to fourteen operations on copulas, functions, datasets and tests, "
        "some interrupted; all settings and process-wide generators are compared around each; nontrivial: an operation "
        "was interrupted and others were carried out under unusual settings")
STEPS = "lines of the library executed by calls that were to be interrupted"
STATES = "operation, kind of copula, outcome, settings that are not the usual ones"
REAL = ["all copulas, estimators, functions, datasets and tests of the library; numpy's and Python's generators"]
SIMULATED = ["the rest of the process: its settings, and interrupts of the calls"]
ASSUMPTIONS = ["settings that are made with Python calls; interrupts strike between lines of the library's code",
               "that gof_copula's worker processes end is C03"]

IMPORT = []
WATCHED = {}


def setup():
    """what importing the library changes"""
    import scipy.stats
    a = look()
    import copulae  # noqa
    import copulae.datasets, copulae.gof, copulae.special, copulae.stats  # noqa
    b = look()
    IMPORT.extend(changed(a, b))


def modules():
    import builtins
    import scipy.optimize
    import scipy.special
    import scipy.stats
    import sklearn.cluster
    return [np, np.random, np.linalg, pd, scipy.stats, scipy.optimize, scipy.special, warnings, random, builtins, math, os,
            signal, threading, sklearn.cluster, copy, logging]


def look():
    """the process, as others see it"""
    import scipy.stats
    s = np.random.get_state()
    out = {
        "numpy's random state": (s[0], s[1].tobytes(), *s[2:]),
        "Python's random state": random.getstate(),
        "floating point error handling": (dict(np.geterr()), np.geterrcall(), np.getbufsize()),
        "warning filters": (list(warnings.filters), warnings.showwarning, warnings.formatwarning, warnings.onceregistry
                            is ONCE),
        "numpy's print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "pandas' options": repr(pd._config.config._global_config),
        "environment variables": dict(os.environ),
        "working directory": os.getcwd(),
        "signal handlers": [signal.getsignal(k) for k in SIGNALS],
        "timers": (signal.getitimer(signal.ITIMER_REAL), signal.getitimer(signal.ITIMER_PROF)),
        "standard streams": tuple(map(id, (sys.stdout, sys.stderr, sys.stdin, sys.__stdout__, sys.__stderr__))),
        "interpreter hooks": tuple(map(id, (sys.excepthook, sys.displayhook, threading.excepthook, sys.getprofile(),
                                            builtin("__import__"), builtin("open"), builtin("print")))),
        "interpreter limits": (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(),
                               sys.get_int_max_str_digits()),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable),
        "umask": umask(),
        "module search path": (list(sys.path), len(sys.meta_path)),
        "open files": fds(),
        "threads": sorted(t.name for t in threading.enumerate()),
        "child processes": children(),
        "scipy's generators": [id(d.random_state) for d in DISTS],
    }
    for m in MODULES:
        for k, v in vars(m).items():
            if not k.startswith("__") and not isinstance(v, (int, float, str, list, dict)):
                out["%s.%s" % (m.__name__, k)] = id(v)
    return out


def children():
    if not KIDS:
        return ""
    with open("/proc/self/task/%d/children" % os.getpid()) as f:
        return f.read()


def builtin(name):
    import builtins
    return getattr(builtins, name)


def umask():
    m = os.umask(0o077)
    os.umask(m)
    return m


def fds():
    out = []
    d = os.open("/proc/self/fd", os.O_RDONLY)
    try:
        names = os.listdir(d)
    finally:
        os.close(d)
    for n in names:
        if int(n) != d:
            try:
                out.append((int(n), os.readlink("/proc/self/fd/" + n)))
            except OSError:
                pass
    return sorted(out)


ONCE = warnings.onceregistry
SIGNALS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]
KIDS = os.path.exists("/proc/self/task/%d/children" % os.getpid())
MODULES = modules()
DISTS = []


def _dists():
    import scipy.stats
    DISTS.extend(getattr(scipy.stats, n) for n in ("norm", "t", "uniform", "expon", "gamma", "levy_stable",
                                                   "multivariate_normal", "chi2", "beta", "logser"))


_dists()


def changed(a, b, but=()):
    return [k for k in a if k not in but and (k not in b or a[k] != b[k])]


# ---------------------------------------------------------------------------------------------------------- settings

def gen_settings(rng):
    s = {}
    if rng.random() < 0.5:
        s["err"] = {k: rng.choice(["ignore", "warn", "raise", "call"] if rng.random() < 0.4 else ["ignore", "warn"])
                    for k in ("divide", "over", "under", "invalid")}
    if rng.random() < 0.5:
        s["filter"] = rng.choice(["error", "always", "default", "once"])
    if rng.random() < 0.4:
        s["print"] = {"precision": rng.choice([2, 3, 15]), "suppress": rng.random() < 0.5, "threshold": 5,
                      "linewidth": rng.choice([40, 200])}
    if rng.random() < 0.4:
        s["pandas"] = rng.choice([{"mode.copy_on_write": True}, {"display.precision": 2, "display.max_rows": 5},
                                  {"mode.chained_assignment": "raise"}, {"display.max_columns": 2,
                                                                         "mode.copy_on_write": True}])
    if rng.random() < 0.3:
        s["cwd"] = True
    if rng.random() < 0.2:
        s["gc"] = False
    if rng.random() < 0.2:
        s["prec"] = 3
    if rng.random() < 0.2:
        s["env"] = {"NUMEXPR_MAX_THREADS": "3", "PYTHONWARNINGS": "error"}
    if rng.random() < 0.2:
        s["signals"] = True
    return s


def install_settings(s):
    if "err" in s:
        np.seterrcall(lambda *a: None)
        np.seterr(**s["err"])
    if "filter" in s:
        warnings.simplefilter(s["filter"])
    if "print" in s:
        np.set_printoptions(**s["print"])
    for k, v in s.get("pandas", {}).items():
        with contextlib.suppress(Exception), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pd.set_option(k, v)
    if "gc" in s:
        gc.disable()
    if "prec" in s:
        decimal.getcontext().prec = s["prec"]
    os.environ.update(s.get("env", {}))
    if "signals" in s:
        signal.signal(signal.SIGUSR1, lambda *a: None)
        signal.signal(signal.SIGALRM, signal.SIG_IGN)


# -------------------------------------------------------------------------------------------------------------- plans

def gen(rng, i, tier):
    specs = [W.gen_spec(rng, limits=0.15) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = [{"op": "new", "slot": k, "spec": s} for k, s in enumerate(specs)]
    for _ in range(rng.randint(6, 13)):
        k = rng.choice(["change", "fit", "query", "query", "query", "query", "draw", "draw", "function", "function",
                        "load", "sym", "bad"])
        slot = rng.randrange(len(specs))
        if k == "function":
            op = FN.gen(rng)
        elif k == "load":
            op = {"op": "load", "name": rng.choice(["load_danube", "load_marginal_data", "load_residuals", "load_smi"]),
                  "returns": rng.random() < 0.5}
            if rng.random() < 0.5 and op["name"] == "load_marginal_data":
                op["name"] = "load_smi"
        elif k == "sym":
            op = {"op": "function", "fn": "gof.rad_sym_test", "args": [FN.mat(rng, rng.choice([6, 9]))],
                  "kw": {"N": 5, "ties": rng.choice(W.TIES)}, "free": True}
        elif k == "draw":
            op = {"op": "draw", "n": rng.choice([1, 2, 5, 40])}
        elif k == "bad":
            op = rng.choice([{"op": "edit", "index": [0, 1], "value": 3.0}, {"op": "get", "name": "nothing"},
                             {"op": "params", "params": [0.1] * 17, "form": "list"},
                             {"op": "fit", "data": {**W.gen_data(rng, specs[slot]["dim"] + 1)}, "args": {}}])
        else:
            op = {"change": W.gen_change, "fit": W.gen_fit, "query": W.gen_query}[k](rng, specs[slot])
        op["slot"] = slot
        op["gseed"] = rng.randrange(1 << 30)
        op["fault"] = [rng.random(), rng.choice(["interrupt", "memory", "error"])] if rng.random() < 0.25 else None
        ops.append(op)
    # and each thing that there is to ask, in turn, interrupted at all the lines it takes
    kind, q, name = FN.TOURS[i % len(FN.TOURS)]
    if kind is None:
        tour = {"spec": None, "op": {**FN.named(rng, name), "slot": None}}
    else:
        spec = W.gen_spec(rng, [kind], limits=0.15)
        op = W.gen_fit(rng, spec) if q == "fit" else W.gen_change(rng, spec) if q == "change" else \
            W.query(rng, spec, q, name)
        tour = {"spec": spec, "op": {**op, "slot": 0}}
    tour["what"] = rng.choice(["interrupt", "memory", "error"])
    tour["seed"] = rng.randrange(1 << 30)
    return {"settings": gen_settings(rng), "ops": ops, "tour": tour}


STOPS = 40


def do(slots, op):
    if op["op"] == "function":
        call = {k: v for k, v in op.items() if k != "gseed"}  # the state is the one that the process is in
        return FN.perform(call)
    if op["op"] == "load":
        import copulae.datasets as D
        f = getattr(D, op["name"])
        return len(f(op["returns"]) if op["name"] == "load_smi" else f())
    if op["op"] == "draw":
        if op["slot"] not in slots:
            raise W.Gone
        return slots[op["slot"]]["c"].random(op["n"])
    return W.apply(slots, {k: v for k, v in op.items() if k != "gseed"})


def draws(slots, op):
    """operations that by their definition draw from the process-wide generator"""
    if op["op"] == "draw" or op["op"] == "function" and op["fn"] in ("gof.gof_copula", "stats.skew_stable.rvs"):
        return True
    if op["op"] == "function" and op["fn"] == "stats.multivariate_t.rvs":
        return op["kw"].get("random_state") is None
    return op["op"] == "fit" and slots[op["slot"]]["spec"]["kind"] == "gmc"


def usual(settings):
    """settings under which nothing is raised that would not be raised otherwise"""
    return settings.get("filter") != "error" and "raise" not in settings.get("err", {}).values()


def reference(spec, op, seed):
    """the operation in a process with the usual settings: its outcome, and the process-wide state after it"""
    slots = {op["slot"]: {"spec": spec, "c": W.make(spec)}} if spec else {}
    np.random.seed(seed)
    o = W.outcome(lambda: do(slots, op))
    return o, np.random.get_state()[1].tobytes()


def run(plan, ctx):
    for k in IMPORT:
        ctx.violation("changed-by-import", f"importing the library changed {k}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
    np.seterrcall(lambda *a: None)
    np.seterr(all="call")  # nothing that the library would choose
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    home = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="c09-")
    try:
        play(plan, ctx, oracle, scratch)
        if plan.get("tour") and not ctx.violations:
            tour(plan["tour"], ctx)
        if not ctx.violations:
            left = sorted(os.listdir(scratch))
            ctx.expect(not left, "file-left", lambda: f"files appeared in the working directory: {left}")
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
        with contextlib.suppress(Exception):
            oracle.close()


def play(plan, ctx, oracle, scratch):
    install_settings(plan["settings"])
    os.chdir(scratch)
    slots = {}
    clean = {}
    cut_any = False
    out = io.StringIO()
    sys.stdout = sys.stderr = out
    odd = sorted(plan["settings"])
    for n, op in enumerate(plan["ops"]):
        kind, slot = op["op"], op.get("slot")
        if kind == "new":
            clean[slot] = True
        elif kind not in ("function", "load") and slot not in slots:
            continue
        free = False if kind == "new" else draws(slots, op)
        np.random.seed(op.get("gseed", 1))
        random.seed(op.get("gseed", 1))
        np.random.normal()  # leaves a second variate behind
        at = None
        if op.get("fault"):
            at = count(ctx, slots, op)
        spec = slots[slot]["spec"] if slot in slots else None
        same = None
        if spec is not None and clean.get(slot) and kind in ("pdf", "cdf", "random", "call", "get", "log_lik"):
            with contextlib.suppress(Exception):
                same = W.respec(slots[slot]["c"], spec)
        before = look()
        result = "ok"
        value = None
        try:
            if at:
                with F.Lines({at: F.thrower(op["fault"][1])}) as t:
                    value = do(slots, op)
            else:
                value = do(slots, op)
        except W.Gone:
            continue
        except KeyboardInterrupt:
            result = "interrupted"
        except Exception as e:
            result = "interrupted" if at and "injected" in str(e) else "raised " + type(e).__name__
        after = look()
        if at and t.where:
            ctx.fault("interrupted call")
            cut_any = True
        if odd:
            ctx.fault("unusual setting", len(odd))
        what = f"operation {n}, {kind} {op.get('fn', op.get('name', ''))} of " \
               f"{spec['kind'] + ' copula' if spec and kind not in ('function', 'load') else 'the library'} ({result})"
        ctx.event(n, kind, op.get("fn"), result)
        ctx.state(kind, op.get("fn"), result, spec and spec["kind"], odd)
        diff = changed(before, after, ("numpy's random state",) if free else ())
        ctx.expect(not diff, "process-changed", lambda: f"{what} changed {', '.join(diff[:6])}: "
                   f"{str(before[diff[0]])[:200]} -> {str(after.get(diff[0]))[:200]}" +
                   (f" (interrupted at {t.where})" if at and t.where else ""))
        if not (kind == "fit" and op["args"].get("verbose")):
            text = out.getvalue()
            if plan["settings"].get("filter") in (None, "error"):
                ctx.expect(not text, "printed", lambda: f"{what} wrote to the standard streams: {text[:300]}")
        out.seek(0)
        out.truncate()
        if ctx.violations:
            return
        if kind not in ("function", "load") and result.startswith(("raised", "interrupted")) and kind in ("fit", "new"):
            clean[slot] = False
        if free and result == "ok" and kind in ("draw", "fit"):
            moved = before["numpy's random state"] != after["numpy's random state"]
            if kind == "draw" and spec["kind"] != "empirical":
                ctx.expect(moved, "state-not-advanced", lambda: f"{what} drew {op['n']} rows without a seed and did not "
                           "advance the process-wide generator")
            try:
                twin = W.respec(slots[slot]["c"], spec) if kind == "draw" else spec
                if kind == "draw" and spec["kind"] != "empirical":
                    _, end = oracle(reference, twin, op, op["gseed"] + 1)
                    ctx.expect(end != after["numpy's random state"][1], "reseeded", lambda: f"{what} left the "
                               "process-wide generator in a state that does not depend on the one before")
            except (RuntimeError, KeyError, TypeError, AttributeError):
                pass
        # the numbers do not depend on the settings either
        if same is not None and result == "ok" and not op.get("frame") and not op.get("data", {}).get("frame"):
            ref, _ = oracle(reference, same, op, 1)
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = ["ok", W.plain(value)]
                if ref[0] == "ok":
                    ctx.expect(W.same(W.bare(got), W.bare(ref), max(W.loose(same, op), 1e-8)), "depends-on-settings",
                               lambda: f"{what} gives {str(got)[:200]} under the settings {plan['settings']}, "
                               f"{str(ref)[:200]} otherwise")
        if same is not None and usual(plan["settings"]) and result.startswith("raised") and not op.get("frame"):
            ref, _ = oracle(reference, same, op, 1)
            ctx.expect(ref[0] == "error", "depends-on-settings", lambda: f"{what} under the settings "
                       f"{plan['settings']}, but otherwise gives {str(ref)[:200]}")
        if ctx.violations:
            return
    ctx.nontrivial = cut_any and bool(odd)


def tour(plan, ctx):
    """one operation again and again, interrupted at another line each time"""
    sys.stdout = sys.stderr = io.StringIO()
    np.seterrcall(lambda *a: None)
    np.seterr(all="call")
    slots = {}
    op = plan["op"]
    if plan["spec"]:
        slots[0] = {"spec": plan["spec"], "c": W.make(plan["spec"])}

    def again():
        return {k: copy.deepcopy(v) for k, v in slots.items()}

    seen = {}
    with F.Lines(note=lambda at, n: seen.setdefault(at, n)) as t:
        W.outcome(lambda: do(again(), op))
    ctx.steps += t.n
    stops = sorted(seen.values())
    if len(stops) > STOPS:
        stops = random.Random(plan["seed"]).sample(stops, STOPS)
    what = f"{op['op']} {op.get('fn', op.get('name', ''))} of {plan['spec']['kind'] if plan['spec'] else 'the library'}"
    free = draws(slots, op)
    for n in stops:
        mine = again()
        before = look()
        result = "ok"
        try:
            with F.Lines({n: F.thrower(plan["what"])}) as t:
                do(mine, op)
        except (Exception, KeyboardInterrupt) as e:
            result = type(e).__name__
        after = look()
        del mine
        ctx.fault("interrupted call")
        ctx.state("tour", what, sorted(t.where.values()))
        diff = changed(before, after, ("numpy's random state",) if free else ())
        ctx.expect(not diff, "process-changed", lambda: f"{what} ({result}), with {plan['what']} at {t.where}, changed "
                   f"{', '.join(diff[:6])}: {str(before[diff[0]])[:200]} -> {str(after.get(diff[0]))[:200]}")
        if ctx.violations:
            return


def count(ctx, slots, op):
    """at which line to interrupt: the operation is tried out on copies, everything it changes is put back"""
    twin = {}
    if op.get("slot") in slots and op["op"] not in ("function", "load", "new"):
        try:
            twin = {op["slot"]: copy.deepcopy(slots[op["slot"]])}
        except Exception:
            return None
    s, p = np.random.get_state(), random.getstate()
    try:
        with F.Lines() as t:
            W.outcome(lambda: do(twin, op))
    finally:
        np.random.set_state(s)
        random.setstate(p)
        sys.stdout.seek(0)
        sys.stdout.truncate()
    ctx.steps += t.n
    return 1 + int(op["fault"][0] * t.n) if t.n else None
