import copy
import sys
import warnings

import numpy as np

from .. import functions as FN
from .. import threads as T
from .. import world as W
from . import c09, c10

PROP = "C15"
RUNS = {"quick": 900, "thorough": 9000}
RUN_TIMEOUT = 120
LISTS = ["switches", "threads"]
RULE = ("a seed gives two to four threads, each with its own copulas and operations, some copulas that all of them "
        "evaluate, and a schedule that switches between the threads at chosen lines or bytecodes of the library; "
        "nontrivial: at least ten switches happened inside calls")
STEPS = "lines or bytecodes of the library at which the scheduler could switch"
STATES = "operations of the threads, granularity, number of switches (log scale)"
REAL = ["all copulas, estimators, functions and loaders; Python's threads"]
SIMULATED = ["the thread schedule", "locks that the library would create"]
ASSUMPTIONS = ["threads switch between lines or bytecodes of the library's Python code, not inside numpy, scipy or the "
               "compiled modules (for those C11)", "a copula that several threads use is only evaluated, not changed",
               "operations that draw from the process-wide generator are left out"]


def before_import():
    T.install()


def setup():
    c10.setup()
    import copulae, pkgutil, importlib  # noqa
    for m in pkgutil.walk_packages(copulae.__path__, "copulae."):
        importlib.import_module(m.name)


def gen(rng, i, tier):
    shared = [W.gen_spec(rng, dims=(2, 2, 3), limits=0.15) for _ in range(rng.choice([0, 1, 1, 2]))]
    theme = rng.choice(["any", "any", "same", "functions", "load", "fit"])
    one = FN.gen(rng, heavy=False)["fn"]
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        own = []
        for _ in range(rng.choice([1, 2])):
            own.append(W.gen_spec(rng, [rng.choice(["clayton", "student", "gaussian"])] if theme == "same" else W.KINDS,
                                  (2, 2, 3)))
            ops.append({"op": "new", "slot": 100 + len(own), "spec": own[-1]})
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(["own", "own", "own", "shared", "shared", "function", "function", "load"])
            k = {"functions": rng.choice(["function", "function", k]), "load": rng.choice(["load", k]),
                 "fit": rng.choice(["fit", k])}.get(theme, k)
            if k == "shared" and not shared:
                k = "own"
            if k == "function":
                for _ in range(30 if theme == "functions" else 1):
                    op = FN.gen(rng, heavy=False)
                    if op["fn"] == one:
                        break
                if op["fn"] in ("stats.skew_stable.rvs", "gof.gof_copula", "gof.exch_test"):
                    continue
            elif k == "load":
                op = {"op": "load", "name": rng.choice(["load_smi", "load_danube", "load_residuals"]),
                      "returns": rng.random() < 0.5}
            elif k == "shared":
                s = rng.randrange(len(shared))
                op = {**W.gen_query(rng, shared[s]), "slot": s}
            else:
                s = rng.randrange(len(own))
                op = (W.gen_change if rng.random() < 0.5 or k == "fit" else W.gen_query)(rng, own[s])
                if op["op"] == "fit":
                    if own[s]["kind"] == "gmc":
                        continue
                    op["data"]["n"] = 12
                    if rng.random() < 0.6 and "method" in op["args"]:
                        op["args"]["method"] = "itau"
                op["slot"] = 101 + s
            op.pop("gseed", None)
            ops.append(op)
        threads.append(ops)
    dense = rng.choice([1, 2, 4, 12, 60])
    switches = [[1 + int(rng.expovariate(1 / dense)), rng.randrange(6)] for _ in range(rng.choice([60, 250, 700]))]
    return {"shared": shared, "threads": threads, "switches": switches, "opcodes": rng.random() < 0.35,
            "first": rng.randrange(4)}


def quiet(fn):
    """like outcome(), but without settings that all threads would share"""
    try:
        return ["ok", W.plain(fn())]
    except W.Gone:
        return ["gone"]
    except Exception as e:
        return ["error", type(e).__name__]


def do(slots, op):
    if op["op"] == "function":
        return FN.perform(op)
    if op["op"] == "load":
        return c10.call_plain(op["name"], op["returns"])
    return W.apply(slots, op)


def alone(shared, ops):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    slots = {k: {"spec": s, "c": W.make(s)} for k, s in enumerate(shared)}
    out, seen = [], []
    for op in ops:
        out.append(quiet(lambda: do(slots, op)))
        seen.append(W.visible(slots[op["slot"]]["c"], slots[op["slot"]]["spec"])
                    if op["op"] in ("fit", "params", "edit", "attr") and op["slot"] in slots else None)
    return out, seen


def run(plan, ctx):
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    shared = {k: {"spec": s, "c": W.make(s)} for k, s in enumerate(plan["shared"])}
    was = {k: W.visible(s["c"], s["spec"]) for k, s in shared.items()}
    before = c09.look()
    sched = T.Scheduler(plan["switches"], plan["opcodes"])
    got = []

    def body(ops, out):
        def go():
            np.seterr(all="ignore")
            slots = dict(shared)
            for op in ops:
                o = quiet(lambda: do(slots, op))
                seen = None
                if op["op"] in ("fit", "params", "edit", "attr") and op["slot"] in slots:
                    seen = slots[op["slot"]]
                    # what can be seen now: looked at without being put aside
                    t = sys.gettrace()
                    sys.settrace(None)
                    seen = see(seen["c"], seen["spec"])
                    sys.settrace(t)
                out.append((o, seen))
        return go

    for ops in plan["threads"]:
        out = []
        got.append(out)
        sched.add(body(ops, out))
    problems = sched.run()
    after = c09.look()
    ctx.steps += sched.points
    ctx.fault("thread switch", sched.taken)
    ctx.event("switches", sched.taken, sched.points, sched.trace[:50])
    ctx.state([[o["op"] + o.get("fn", "") for o in t] for t in plan["threads"]], plan["opcodes"],
              int(np.log2(sched.taken + 1)))
    for k, e in problems:
        ctx.violation("thread-died", f"thread {k}: {type(e).__name__}: {e}")
        return
    diff = c09.changed(before, after, ())
    ctx.expect(not diff, "process-changed", lambda: f"the threads left {diff[:5]} changed: {str(before[diff[0]])[:200]} "
               f"-> {str(after.get(diff[0]))[:200]}")
    for k, (ops, out) in enumerate(zip(plan["threads"], got)):
        ref, seen = oracle(alone, plan["shared"], ops)
        chaotic = set()
        for n, (op, (o, s), r, v) in enumerate(zip(ops, out, ref, seen)):
            slot = op.get("slot")
            spec = next((x["spec"] for x in ops if x["op"] == "new" and x["slot"] == slot),
                        plan["shared"][slot] if slot is not None and slot < len(plan["shared"]) else None)
            what = f"thread {k}, operation {n}, {op['op']} {op.get('fn', op.get('name', ''))}" + \
                   (f" of {spec['kind']} copula {slot}" if spec and op["op"] not in ("function", "load") else "")
            ctx.event(k, n, op["op"], o[0])
            if slot in chaotic and op["op"] not in ("function", "load"):
                ctx.expect(o[0] == r[0], "differs-from-sequential", lambda: f"{what}: {str(o)[:300]}, alone "
                           f"{str(r)[:300]}")
                if op["op"] != "fit":
                    continue
            tol = 1e-8 if op["op"] in ("function", "load") else max(W.loose(spec, op), 1e-8)
            ctx.expect(W.same(o, r, tol), "differs-from-sequential", lambda: f"{what}: {str(o)[:300]}, alone "
                       f"{str(r)[:300]}")
            if s is not None and v is not None:
                d = W.fit_differs(s, v) if op["op"] == "fit" else W.differs(s, v)
                ctx.expect(not d, "differs-from-sequential", lambda: f"{what} leaves the copula with "
                           f"{[(x, str(s[x])[:150], str(v[x])[:150]) for x in d[:2]]}")
            if op["op"] == "fit" and o[0] == "ok" and W.differs(s, v, 1e-9):
                chaotic.add(slot)
            if ctx.violations:
                return
    for k, s in shared.items():
        d = W.differs(was[k], W.visible(s["c"], s["spec"]))
        ctx.expect(not d, "shared-copula-changed", lambda: f"evaluations of {s['spec']['kind']} copula {k} by several "
                   f"threads changed its {d}")
    oracle.close()
    ctx.nontrivial = sched.taken >= 10


def see(c, spec):
    return W.visible(c, spec)
