import copy
import sys
import warnings

import numpy as np

from .. import faults as F
from .. import optimizer
from .. import world as W

PROP = "C06"
RUNS = {"quick": 500, "thorough": 14000}
RUN_TIMEOUT = 90
LISTS = ["before", "fits"]
RULE = ("a seed gives a copula, up to three operations before, and two to four fits, each struck by a fault and tried "
        "again without it; nontrivial: at least one fit was struck after it had begun to change the copula or to "
        "evaluate its likelihood")
STEPS = "lines of the library executed by fits"
STATES = "kind of copula, estimation method, fault, how the fit ended, tenth of the fit in which the fault struck"
REAL = ["all estimators and copulas", "scipy's optimizers, sklearn's k-means"]
SIMULATED = ["interrupts and exhausted memory at chosen lines", "failures inside the optimizer, of the caller's callback "
             "and of the standard output", "warnings and floating point errors turned into exceptions"]
ASSUMPTIONS = ["interrupts strike between lines of the library's Python code, in calls of the optimizer and of the "
               "objective function"]

FIT = ["gaussian", "student", "clayton", "frank", "gumbel", "marginal", "gmc"]


def before_import():
    optimizer.install()


def gen(rng, i, tier):
    spec = W.gen_spec(rng, ["gaussian", "gaussian", "student", "clayton", "frank", "gumbel", "marginal", "marginal",
                            "gmc"], (2, 2, 3))
    if spec["kind"] == "marginal" and rng.random() < 0.7:  # the others take long to fit
        spec["margins"] = [rng.choice([{"type": "norm", "parameters": {"scale": 2.0}}, "expon", "norm"]) for _ in range(spec["dim"])]
    before = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        op = W.gen_change(rng, spec) if rng.random() < 0.7 else W.gen_fit(rng, spec)
        before.append({**op, "slot": 0})
    fits = []
    for _ in range(rng.choice([2, 3, 3, 4])):
        op = W.gen_fit(rng, spec)
        op["data"]["frame"] = rng.random() < 0.4 and spec["kind"] != "gmc"
        kind = rng.choice(["line"] * 6 + ["objective", "objective", "optimizer", "report", "callback", "stdout",
                           "warnings", "fp", "bad", "bad"])
        f = {"kind": kind, "at": rng.random(), "exc": rng.choice(["interrupt", "interrupt", "memory", "error", "exit",
                                                                   "timeout"])}
        if kind == "bad":
            f["bad"] = rng.choice(["dims", "vector", "nan", "inf", "text", "few", "method", "x0", "solver", "option",
                                   "ties", "range", "none"])
        fits.append({**op, "slot": 0, "fault": f})
    return {"spec": spec, "before": before, "fits": fits}


class BrokenPipe:
    def write(self, *a):
        raise OSError(32, "Broken pipe, injected")

    def flush(self):
        raise OSError(32, "Broken pipe, injected")


def spoil(op, spec, args, data):
    """make the call invalid in one way"""
    b = op["fault"]["bad"]
    d = spec["dim"]
    x = np.array(data, float)
    if b == "dims":
        return np.column_stack([x, x[:, 0]]), args
    if b == "vector":
        return x[:, 0], args
    if b == "nan":
        x[1, 0] = np.nan
        return x, {**args, "to_pobs": False}
    if b == "inf":
        x[1, 0] = np.inf
        return x, {**args, "to_pobs": False}
    if b == "text":
        y = x.astype(object)
        y[2, d - 1] = "a"
        return y, args
    if b == "few":
        return x[:1], args
    if b == "method":
        return x, {**args, "method": "nonsense"}
    if b == "x0":
        return x, {**args, "x0": np.full(17, 0.1)}
    if b == "solver":
        return x, {**args, "optim_options": {"method": "nonsense"}}
    if b == "option":
        return x, {**args, "optim_options": {"nonsense": 1}}
    if b == "ties":
        return x, {**args, "ties": "nonsense"}
    if b == "range":
        return x, {**args, "to_pobs": False}
    return None, args


def do_fit(c, spec, op, data, args):
    np.random.seed(op["gseed"])
    c.fit(data, **args)


def arguments(spec, op):
    args = W.fit_args(spec, op)
    if spec["kind"] == "gmc":
        args = {k: v for k, v in args.items() if k != "to_pobs"}
    return copy.deepcopy(args), W.make_data(op["data"])


def attempt(fn):
    try:
        fn()
        return "ok", None
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        return type(e).__name__, str(e)[:120]


def run(plan, ctx):
    spec = plan["spec"]
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    slots = {0: {"spec": spec, "c": W.make(spec)}}
    for op in plan["before"]:
        W.outcome(lambda: W.apply(slots, op))
    c = slots[0]["c"]
    sees = W.visible
    struck = False
    for n, op in enumerate(plan["fits"]):
        f = op["fault"]
        kind = f["kind"]
        before = sees(c, spec)
        args, data = arguments(spec, op)
        twin = copy.deepcopy(c)
        calls = {"objective": 0, "minimize": 0}

        def count(real, fun, x0, a, k):
            calls["minimize"] += 1

            def g(*b):
                calls["objective"] += 1
                return fun(*b)
            return real(g, x0, *a, **k)

        with optimizer.use(count), F.Lines() as t:
            plain, _ = attempt(lambda: do_fit(twin, spec, op, *arguments(spec, op)[::-1]))
        full = sees(twin, spec) if plain == "ok" else None
        ctx.steps += t.n
        extra = {}
        at = None
        fired = []
        if kind == "line" and t.n:
            at = 1 + int(f["at"] * t.n)
        exc = F.EXC[f["exc"]]

        def hit(where):
            fired.append(where)
            raise exc("injected")

        def handler(real, fun, x0, a, k):
            seen = [0]
            turn = 1 + int(f["at"] * calls["objective"])

            def g(*b):
                seen[0] += 1
                if kind == "objective" and seen[0] == turn:
                    hit(f"call {turn} of the objective")
                return fun(*b)
            if kind == "optimizer" and f["at"] < 0.5:
                fun(x0)
                hit("optimizer, after one evaluation")
            if kind == "optimizer":
                hit("optimizer, before it starts")
            res = real(g, x0, *a, **k)
            if kind == "report":
                hit("optimizer, when it had its result")
            return res

        if kind == "callback" and calls["minimize"] and args.get("optim_options", {}).get("method") is None:
            def cb(*a, **k):
                extra["k"] = extra.get("k", 0) + 1
                if extra["k"] > f["at"] * 3:
                    hit(f"call {extra['k']} of the callback")
            args["optim_options"] = {**args.get("optim_options", {}), "callback": cb}
        if kind == "bad":
            data, args = spoil(op, spec, args, data)
        out = sys.stdout
        if kind == "stdout":
            args["verbose"] = 2
            sys.stdout = BrokenPipe()
        if kind == "warnings":
            warnings.simplefilter("error")
            args["verbose"] = 1
            if spec["kind"] == "gmc":
                args["max_iter"] = 2
        if kind == "fp":
            np.seterr(all="raise")
        call = (lambda: do_fit(c, spec, op, data, args))
        try:
            if at:
                with F.Lines({at: F.thrower(f["exc"])}) as t2:
                    how, msg = attempt(call)
                if t2.where:
                    fired.append(str(t2.where[at]))
            elif kind in ("objective", "optimizer", "report"):
                with optimizer.use(handler):
                    how, msg = attempt(call)
            else:
                how, msg = attempt(call)
        finally:
            sys.stdout = out
            np.seterr(all="ignore")
            warnings.resetwarnings()
            warnings.simplefilter("ignore")
        after = sees(c, spec)
        tenth = int(f["at"] * 10)
        ctx.event(n, kind, f.get("bad"), how, fired, W.same(before, after))
        ctx.state(spec["kind"], args.get("method"), kind, f.get("bad"), how, tenth if fired else None)
        what = (f"fit {n} ({spec['kind']}, {op['args']}), {f.get('bad') or ''} {kind} {f['exc'] if fired else ''} "
                f"{fired or ''}")
        if how != "ok":
            ctx.fault(kind if kind != "line" else f["exc"])
            diff = W.differs(before, after)
            ctx.expect(not diff or full is not None and kind == "line" and not W.fit_differs(full, after),
                       "failed-fit-changed-copula", lambda: f"{what} raised {how} ({msg}) and changed {diff}, e.g. "
                       f"{str(before[diff[0]])[:250]} -> {str(after[diff[0]])[:250]}")
            if fired and calls["objective"] + (spec["kind"] == "gmc") or at and f["at"] > 0.5:
                struck = True
        elif fired and kind != "report":
            diff = None if full is None else W.fit_differs(full, after)
            ctx.expect(full is not None and not diff, "fault-swallowed", lambda: f"{what} returned as if nothing had "
                       f"happened, but {diff} is not what the fit gives without the fault: "
                       f"{str(after[diff[0]] if diff else '')[:250]}, not {str(full and diff and full[diff[0]])[:250]}")
        elif kind == "bad":
            ctx.count("invalid call accepted")
        # and again, without the fault, from where the copula was
        if how != "ok" and not W.differs(before, after):
            args, data = arguments(spec, op)
            again, msg = attempt(lambda: do_fit(c, spec, op, data, args))
            now = sees(c, spec)
            diff = [] if full is None else W.fit_differs(full, now)
            ctx.expect(again == plain and not diff, "retry-differs", lambda: f"{what} raised {how}; the same fit "
                       f"again ended in {again} ({msg}) instead of {plain}, {diff} differ, e.g. "
                       f"{str(diff and full[diff[0]])[:250]} -> {str(diff and now[diff[0]])[:250]}")
        if ctx.violations:
            return
    ctx.nontrivial = struck
