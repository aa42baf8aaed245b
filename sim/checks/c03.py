import gc

import numpy as np

from .. import goflib as g
from .. import pool, probes

PROP = "C03"
RUNS = {"quick": 700, "thorough": 6000}
RUN_TIMEOUT = 60
LISTS = ["faults"]
RULE = ("a seed gives one test, run without faults, then with a fault, then again without; the fault is a replicate "
        "that raises, a worker that dies, a fork that fails or an interrupt of the caller, at a sampled point; "
        "nontrivial: the fault fired")
STEPS = "scheduler decisions: tasks handed to a worker, tasks delivered"
STATES = "the order in which a test's tasks were assigned and delivered, with the fault"
from .c01 import REAL, SIMULATED  # noqa
LEVEL = "exploration"
ASSUMPTIONS = ["a fault that strikes when every replicate has been delivered may leave a complete result"]
POOL_FAULTS = ["worker-dies-before-task", "worker-dies-after-task", "idle-worker-dies", "fork-fails",
               "interrupt-while-waiting"]


def before_import():
    pool.install()


def after_import():
    probes.define()


def gen(rng, i, tier):
    cls = rng.choice(["Probe"] * 5 + ["RecClayton", "RecGaussian"])
    data = g.gen_data(rng, cls == "Probe")
    if cls != "Probe":
        data.update(d=2, rho=0.8, tie=0, n=12)
    reps = rng.choice([1, 2, 4, 7, 12, 24] if cls == "Probe" else [2, 3, 6])
    multi = rng.random() < 0.75
    w = g.gen_world(rng)
    if multi and rng.random() < 0.6:
        kind = rng.choice(POOL_FAULTS)
        hi = {"fork-fails": w["cpu"] or 1, "worker-dies-before-task": reps, "worker-dies-after-task": reps}
        at = rng.randint(1, hi.get(kind, 2 * reps))
        faults = [{"where": "pool", "kind": kind, "at": at}]
        if rng.random() < 0.15:
            faults.append({"where": "pool", "kind": rng.choice(POOL_FAULTS), "at": rng.randint(1, 2 * reps)})
    else:
        call = rng.choice(["random", "fit", "cdf"])
        faults = [{"where": "replicate", "call": call, "at": rng.randint(1, reps + (call != "random")),
                   "exc": rng.choice(sorted(probes.EXC))}]
    return {"cls": cls, "data": data, "reps": reps, "multi": multi, "world": w, "faults": faults,
            "global": rng.randrange(1 << 31)}


def run(plan, ctx):
    from copulae.gof import gof_copula
    cls = getattr(probes, plan["cls"])
    opts = {} if plan["cls"] == "Probe" else {"method": "itau"}

    def once(faults):
        rep = [f for f in faults if f["where"] == "replicate"]
        probes.start(rep[0] if rep else None)
        w = g.world(ctx, plan["world"], [f for f in faults if f["where"] == "pool"])
        np.random.seed(plan["global"])
        pool.enter(w)
        res = exc = None
        try:
            res = gof_copula(cls, g.make_data(plan["data"]), plan["reps"], multiprocess=plan["multi"], **opts)
        except pool.Deadlock as e:
            exc = ("hang", str(e))
        except BaseException as e:
            exc = (type(e).__name__, str(e)[:200])
            e.__traceback__ = None
        finally:
            pool.leave()
        gc.collect()
        left = w.live()
        w.close()
        if rep and probes.fault_fired():
            w.fired.append("replicate raises " + rep[0]["exc"])
            ctx.fault("replicate-raises")
        ctx.event("outcome", exc and exc[0], res and (float(res.statistic), float(res.pvalue)), w.fired)
        ctx.state([x for x in w.log if x[0] in ("assign", "finish")], w.fired)
        return res, exc, w, left

    ref, exc, w, left = once([])
    if exc is not None:
        ctx.expect(plan["cls"] != "Probe", "fails-without-fault", f"{exc}")
        return
    ctx.expect(not left, "workers-left", f"{len(left)} worker processes outlive a test that ended well")

    res, exc, w, left = once(plan["faults"])
    fired = list(w.fired)
    if fired:
        ctx.nontrivial = True
        if exc is None:
            same = g.close([res.statistic, res.pvalue], [ref.statistic, ref.pvalue], 1e-9, 1e-12)
            ctx.expect(same, "partial-result", lambda: f"{fired}, yet the test returned p-value {res.pvalue}; all "
                       f"{plan['reps']} replicates give {ref.pvalue}")
            ctx.count("complete result in spite of the fault")
            if same and fired[0].startswith("replicate"):
                ctx.violation("failure-hidden", f"{fired}, yet the test returned a result")
        else:
            ctx.expect(exc[0] != "hang", "hang", f"{fired}: {exc[1]}")
        ctx.expect(not left, "workers-left", f"{fired}: {len(left)} worker processes outlive the test")
    elif exc is not None:
        ctx.violation("fails-without-fault", f"{exc}")

    res, exc, w, left = once([])
    ctx.expect(exc is None and g.close([res.statistic, res.pvalue], [ref.statistic, ref.pvalue], 1e-9, 1e-12),
               "no-recovery", lambda: f"after {fired} the same test gives {exc or (res.statistic, res.pvalue)}, before "
               f"it gave {(ref.statistic, ref.pvalue)}")
    ctx.expect(not left, "workers-left", "worker processes outlive the retry")
