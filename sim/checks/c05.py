import copy

import numpy as np
import pandas as pd

from .. import faults as F
from .. import functions as FN
from .. import world as W

PROP = "C05"
RUNS = {"quick": 1200, "thorough": 12000}
RUN_TIMEOUT = 90
LISTS = ["ops"]
RULE = ("a seed gives six to fourteen operations on up to four copulas and on the library's functions, some interrupted "
        "at a chosen line, between which the caller writes over what it passed in and over what it was given; "
        "nontrivial: something was written over that had been passed in, and a call was interrupted or raised")
STEPS = "lines of the library executed by calls that were to be interrupted"
STATES = "operation, kind of copula, whether it was interrupted, what was written over before it"
REAL = ["all copulas, estimators, functions and tests of the library"]
SIMULATED = ["the caller's use of its own arrays between calls", "interrupts"]
ASSUMPTIONS = ["interrupts strike between lines of the library's Python code",
               "a copula given to a marginal copula as its dependence structure is shared with it by design"]


# ------------------------------------------------------------------------------------------------------------ objects

def deep(v, depth=0):
    """all of an object that its owner can see, as a value that does not share anything with it"""
    if depth > 8:
        return "..."
    if isinstance(v, pd.DataFrame):
        return ["frame", [repr(c) for c in v.columns], [repr(i) for i in v.index], [str(t) for t in v.dtypes],
                v.to_numpy(copy=True).tobytes()]
    if isinstance(v, np.ndarray):
        return ["array", v.shape, str(v.dtype), v.strides, v.flags.writeable,
                v.tobytes() if v.dtype != object else [deep(x, depth + 1) for x in v.ravel()]]
    if isinstance(v, dict):
        return ["dict", [(repr(k), deep(x, depth + 1)) for k, x in v.items()]]
    if isinstance(v, tuple):
        return ["tuple", [deep(x, depth + 1) for x in v]]
    if isinstance(v, list):
        return ["list", [deep(x, depth + 1) for x in v]]
    if isinstance(v, (int, float, complex, str, bool, type(None), np.generic)):
        return repr(v)
    if hasattr(v, "covs") and hasattr(v, "means"):
        return ["gmc", deep(np.asarray(v.prob)), deep(np.asarray(v.means)), deep(np.asarray(v.covs))]
    if hasattr(v, "best_params"):
        return ["report", deep(v.best_params), v.has_converged, v.method, v.nsample, deep(v.setup)]
    if hasattr(v, "nsample") and hasattr(v, "log_lik"):
        return ["report", deep(v.params), v.method, deep(v.log_lik), v.nsample, deep(v.setup),
                deep(getattr(v, "var_est", None))]
    if hasattr(v, "as_html") or hasattr(v, "_repr_html_"):
        return ["summary", str(v)]
    return repr(type(v))


def scribble(v, r):
    """write over an object as its owner may; whether anything could be written"""
    if isinstance(v, pd.DataFrame):
        a = v.to_numpy()  # the frames are of one type, so this is a view
        if not a.flags.writeable or not a.size:
            return False
        a[...] = r.uniform(0.2, 0.8, a.shape)
        v.columns = [f"z{i}" for i in range(v.shape[1])]
        return True
    if isinstance(v, np.ndarray):
        if not v.flags.writeable:
            return False
        if v.dtype.kind == "f":
            v[...] = np.round(r.uniform(0.05, 0.4, v.shape), 3)
        elif v.dtype.kind in "iu":
            v[...] = 1
        elif v.dtype.kind == "b":
            v[...] = True
        return v.dtype.kind in "fiub" and v.size > 0
    if isinstance(v, dict):
        done = False
        for k in list(v):
            if isinstance(v[k], (dict, list, np.ndarray)):
                done |= scribble(v[k], r)
            elif isinstance(v[k], (int, float)):
                v[k] = 0.77
                done = True
        v["unknown"] = 1
        return True
    if isinstance(v, list):
        for k, x in enumerate(v):
            if isinstance(x, (dict, list, np.ndarray)):
                scribble(x, r)
            elif isinstance(x, float):
                v[k] = 0.31
            elif isinstance(x, str):
                v[k] = "cauchy"
        return bool(v)
    if isinstance(v, tuple):
        return any([scribble(x, r) for x in v])
    if hasattr(v, "covs") and hasattr(v, "means"):
        return any([scribble(x, r) for x in (v.prob, v.means, v.covs)])
    return False


# --------------------------------------------------------------------------------------------------------- operations

def gen(rng, i, tier):
    ops = []
    specs = {}
    for _ in range(rng.randint(8, 18)):
        k = rng.choice(["new", "change", "change", "fit", "query", "query", "query", "function", "function", "scribble",
                        "scribble", "scribble", "scribble", "scribble-out", "scribble-out", "again", "again"]) if specs else rng.choice(["new", "new", "function"])
        if k == "new" and len(specs) >= 4:
            k = "query"
        if k == "new":
            slot = len(specs)
            specs[slot] = W.gen_spec(rng, limits=0.15)
            op = {"op": "new", "slot": slot, "spec": specs[slot], "layout": rng.choice(["array", "list", "f"])}
        elif k == "function":
            op = FN.gen(rng)
        elif k in ("scribble", "scribble-out"):
            op = {"op": k, "seed": rng.randrange(1 << 30), "which": rng.random()}
        elif k == "again":  # what one copula was given is given to another one as well
            op = {"op": "again", "slot": rng.choice(list(specs)), "which": rng.random()}
        else:
            slot = rng.choice(list(specs))
            sp = specs[slot]
            op = {"change": W.gen_change, "fit": W.gen_fit, "query": lambda *a: W.gen_query(*a, edge=0.3)}[k](rng, sp)
            if k == "query" and rng.random() < 0.25:
                op = {"op": "get", "name": rng.choice(["params", "summary", "fit"])}
            if op["op"] == "fit":
                inner = sp["inner"] if sp["kind"] == "marginal" else sp
                if rng.random() < 0.3 and inner["kind"] in W.ELLIPTICAL + W.ARCHIMEDEAN + ["gmc"]:
                    op["x0"] = inner.get("params", 1)
                if inner["kind"] in W.ELLIPTICAL + W.ARCHIMEDEAN and rng.random() < 0.3:
                    op["args"]["optim_options"] = rng.choice([{"options": {"maxiter": 9}}, {"tol": 0.01},
                                                              {"method": "SLSQP", "options": {"ftol": 1e-4}}])
            op["slot"] = slot
        op["fault"] = [rng.random(), rng.choice(["interrupt", "memory", "error"])] if rng.random() < 0.2 else None
        ops.append(op)
    return {"ops": ops}


class Caller:
    """A user of the library who keeps all they passed in and all they were given"""

    def __init__(self):
        self.slots = {}
        self.gave = []  # [what, object, snapshot, may be written over, the function call it belongs to]
        self.got = []
        self.by_slot = {}

    def give(self, what, obj, slot=None, function=None):
        """note an object that is about to be passed in"""
        self.gave.append([what, obj, deep(obj), None, function])
        if slot is not None:
            self.by_slot.setdefault(slot, []).append(obj)
        return obj

    def take(self, what, obj, fresh, function=None):
        self.got.append([what, obj, deep(obj), fresh, function])

    def call(self, n, op):
        """returns a function that carries out the operation and what it hands out"""
        kind = op["op"]
        label = f"{kind} {n}"
        if kind == "function":
            args, kw = FN.arguments(op)
            for k, a in [*enumerate(args), *kw.items()]:
                if isinstance(a, (np.ndarray, list, dict, pd.DataFrame)):
                    self.give(f"argument {k} of {op['fn']} (operation {n})", a, function=n)
            return lambda: FN.invoke(op, args, kw), f"{op['fn']} (operation {n})", True
        if kind == "new":
            return self.new(n, op), None, False
        s = self.slots.get(op["slot"])
        if s is None:
            raise W.Gone
        c, spec = s["c"], s["spec"]
        label = f"{spec['kind']} copula {op['slot']}'s {op.get('name', kind)} (operation {n})"
        if kind == "params":
            v = op["params"]
            v = v if isinstance(v, float) else self.give(label, np.array(v) if op.get("form") == "array" else list(v))
            return lambda: setattr(c, "params", v), None, False
        if kind == "edit":
            return lambda: c.__setitem__(W.index(op["index"]), op["value"]), None, False
        if kind == "attr":
            return lambda: setattr(c, op["name"], op["value"]), None, False
        if kind in ("pdf", "cdf"):
            x = W.points(spec, op["seed"], op["n"], op["layout"], op.get("one", False), op.get("edge", False))
            if op.get("frame") and not op.get("one"):
                x = pd.DataFrame(np.asarray(x), columns=op["frame"])
            x = self.give("points of " + label, x)
            return lambda: getattr(c, kind)(x, log=op.get("log", False)), label, True
        if kind == "log_lik":
            x = self.give("data of " + label, W.make_data(op["data"]))
            return lambda: c.log_lik(x), label, True
        if kind == "random":
            return lambda: c.random(op["n"], seed=op["seed"]), label, True
        if kind == "summary":
            return lambda: c.summary(op["category"]), None, False
        if kind == "call":
            x = op["x"]
            if isinstance(x, list):
                x = self.give("argument of " + label, np.array(x))
            return lambda: getattr(c, op["name"])(x), label, True
        if kind == "get":
            if op["name"] in ("summary", "fit"):
                return lambda: c.summary("copula" if op["name"] == "summary" else "fit"), label, False
            return lambda: getattr(c, op["name"]), label, op["name"] in ("sigma", "tau", "rho", "lambda_")
        if kind == "fit":
            data = self.give("data of " + label, W.make_data(op["data"]))
            args = W.fit_args(spec, op)
            if "optim_options" in args:
                args["optim_options"] = self.give("options of " + label, copy.deepcopy(args["optim_options"]))
            if "x0" in op:
                x0 = op["x0"]
                inner = spec["inner"] if spec["kind"] == "marginal" else spec
                if inner["kind"] == "gmc":
                    x0 = copy.deepcopy(W.make(inner).params)
                elif isinstance(x0, list):
                    x0 = np.array(x0)
                args["x0"] = x0 if np.isscalar(x0) else self.give("start of " + label, x0)
            np.random.seed(op["gseed"])
            return lambda: c.fit(data, **args) and None, None, False
        raise AssertionError(kind)

    def new(self, n, op):
        import copulae as cp
        spec, slot = op["spec"], op["slot"]
        k, d = spec["kind"], spec["dim"]
        what = f"what {k} copula {slot} was made from"

        def vec(v):
            return {"array": lambda: np.array(v), "list": lambda: list(v),
                    "f": lambda: W.laid(v, "stride")}[op["layout"]]()

        if k in W.ELLIPTICAL:
            v = self.give(what, vec(spec["params"]), slot)

            def make():
                c = cp.GaussianCopula(d) if k == "gaussian" else cp.StudentCopula(d)
                c.params = v
                return c
        elif k == "gmc":
            g = {a: vec(b) if a == "prob" else np.array(b) for a, b in spec["gmc"].items()}
            if op["layout"] == "f":
                g["covs"] = np.asfortranarray(g["covs"])
            if op["layout"] == "list":
                g = copy.deepcopy(W.make(spec).params)
            self.give(what, g, slot)

            def make():
                return cp.GaussianMixtureCopula(spec["clusters"], d, g)
        elif k == "empirical":
            v = self.give(what, W.make_data(spec["data"]), slot)

            def make():
                return cp.EmpiricalCopula(v, smoothing=spec["smoothing"], ties=spec["ties"], offset=spec["offset"])
        elif k == "marginal":
            m = self.give(what, copy.deepcopy(spec["margins"]), slot)

            def make():
                return cp.MarginalCopula(W.make(spec["inner"]), m)
        elif k == "indep":
            f = spec.get("fields")
            f = self.give(what, list(f), slot) if f else None

            def make():
                return cp.IndepCopula(d, f)
        else:
            def make():
                return W.make(spec)

        def go():
            self.slots[slot] = {"spec": spec, "c": make()}
        return go


def run(plan, ctx):
    import warnings
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    me = Caller()
    seen = {}
    wrote = failed = False
    last = None
    for n, op in enumerate(plan["ops"]):
        kind = op["op"]
        own = op.get("slot")
        if kind in ("scribble", "scribble-out"):
            own = None
            pool = me.gave if kind == "scribble" else [g for g in me.got if g[3]]
            if not pool:
                continue
            item = pool[int(op["which"] * len(pool))]
            if not scribble(item[1], np.random.RandomState(op["seed"])):
                continue
            # a plain function may return its argument; what a copula gives away is not shared with anything
            for x in me.gave + me.got:
                if x[1] is item[1] or x[4] is not None and x[4] == item[4]:
                    x[2] = deep(x[1])
            what = f"the caller wrote over {item[0]}"
            last = item[0].split(" (")[0]
            wrote = wrote or kind == "scribble"
            ctx.fault("wrote over what was passed in" if kind == "scribble" else "wrote over what was given")
            result = "ok"
        else:
            if kind == "again":
                s = me.slots.get(op["slot"])
                objs = me.by_slot.get(op["slot"])
                if not s or not objs or s["spec"]["kind"] not in W.ELLIPTICAL + ["gmc"] or len(me.slots) > 6:
                    continue
                obj = objs[0]
                own = 100 + n

                def fn():
                    import copulae as cp
                    d = s["spec"]["dim"]
                    c = {"gaussian": cp.GaussianCopula, "student": cp.StudentCopula, "gmc": lambda d:
                         cp.GaussianMixtureCopula(s["spec"]["clusters"], d)}[s["spec"]["kind"]](d)
                    c.params = obj
                    me.slots[own] = {"spec": s["spec"], "c": c}
                label, fresh = None, False
            else:
                try:
                    fn, label, fresh = me.call(n, op)
                except W.Gone:
                    continue
            what = f"operation {n}, {kind} {op.get('fn', op.get('name', ''))}"
            at = None
            if op["fault"]:
                at = 1 + int(op["fault"][0] * lines(me, op, n))
            result = "ok"
            try:
                if at:
                    with F.Lines({at: F.thrower(op["fault"][1])}) as t:
                        out = fn()
                    ctx.steps += t.n
                else:
                    out = fn()
                if label is not None:
                    me.take(label, out, fresh, n if kind == "function" else None)
            except (Exception, KeyboardInterrupt) as e:
                result = "interrupted" if "injected" in str(e) else type(e).__name__
                failed = True
            if result == "interrupted":
                what += f", {op['fault'][1]} at {t.where},"
                ctx.fault("interrupted call")
                ctx.steps += t.n
        ctx.event(n, kind, op.get("fn"), result)
        ctx.state(kind, op.get("fn"), result, own is not None and own in me.slots and me.slots[own]["spec"]["kind"], last)
        for x in me.gave:
            ctx.expect(deep(x[1]) == x[2], "caller-data-changed", lambda: f"{what} changed {x[0]}: {brief(x[2])} -> "
                       f"{brief(deep(x[1]))}")
        for x in me.got:
            ctx.expect(deep(x[1]) == x[2], "given-value-changed", lambda: f"{what} changed the result of {x[0]}: "
                       f"{brief(x[2])} -> {brief(deep(x[1]))}")
        for k, s in me.slots.items():
            now = W.visible(s["c"], s["spec"])
            if k in seen and k != own:
                diff = W.differs(seen[k], now, 1e-9)
                ctx.expect(not diff, "copula-changed", lambda: f"{what} changed {s['spec']['kind']} copula {k}: {diff}, "
                           f"e.g. {str(seen[k][diff[0]])[:200]} -> {str(now[diff[0]])[:200]}")
            seen[k] = now
        if ctx.violations:
            return
    ctx.nontrivial = wrote and failed


def lines(me, op, n):
    """how many lines the operation takes, tried out on copies"""
    twin = Caller()
    twin.slots = {op["slot"]: copy.deepcopy(me.slots[op["slot"]])} if op.get("slot") in me.slots else {}
    try:
        fn, _, _ = twin.call(n, op)
        with F.Lines() as t:
            try:
                fn()
            except Exception:
                pass
        return max(t.n, 1)
    except Exception:
        return 1


def brief(s):
    if isinstance(s, list) and s and s[0] == "array" and isinstance(s[-1], bytes) and "float" in s[2]:
        return str(np.frombuffer(s[-1])[:6])
    return str(s)[:200]
