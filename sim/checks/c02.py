import numpy as np

from .. import goflib as g
from .. import pool, probes

PROP = "C02"
RUNS = {"quick": 500, "thorough": 4500}
RUN_TIMEOUT = 90
LISTS = ["tests"]
RULE = ("a seed gives two to four tests run one after the other in a process, some of them repeats of an earlier one "
        "from the same process-wide random state under another schedule; nontrivial: samples were drawn in at least "
        "two worker processes")
STEPS = "scheduler decisions: tasks handed to a worker, tasks delivered"
STATES = "the order in which a test's tasks were assigned and delivered"
from .c01 import REAL, SIMULATED  # noqa
ASSUMPTIONS = ["samples are observed through copula classes that override random, as a user may",
               "two floating point numbers of independent samples coincide with negligible probability; two coincident "
               "numbers are asked for before samples count as shared"]


def before_import():
    pool.install()


def after_import():
    probes.define()


def gen(rng, i, tier):
    tests = []
    big = rng.random() < 0.08
    for k in range(rng.choice([2, 2, 3, 4]) if not big else 1):
        old = [t for t in tests if t["multi"]]
        if old and rng.random() < 0.5:
            t = dict(rng.choice(old))
            t["repeat"] = t["id"]
            t["world"] = g.gen_world(rng)
        else:
            cls = rng.choice(["Probe", "Probe", "Probe", "RecClayton", "RecGaussian", "RecGumbel", "RecFrank"])
            data = g.gen_data(rng, cls == "Probe")
            if cls != "Probe":
                data["d"] = 2  # beyond two dimensions the normal cdf is itself random
                data["rho"], data["tie"], data["n"] = 0.8, 0, 12
            if big:
                cls = "Probe"
                data["n"], data["d"], data["tie"] = 5, 2, 0
            t = {"cls": cls, "data": data, "reps": rng.choice([2, 3, 5, 9, 17, 40] if cls == "Probe" else [2, 3, 6]),
                 "multi": big or rng.random() < 0.8, "world": g.gen_world(rng), "repeat": None,
                 # None: the state goes on from where the previous test left it
                 "global": rng.randrange(1 << 31) if k == 0 or rng.random() < 0.5 else None}
            if big:
                t["reps"] = 3000
        t["id"] = k
        tests.append(t)
    return {"tests": tests}


WINDOW = 18


def patterns(x):
    """the orders in which the numbers of the rows of a sample come, up to reversal: unrelated samples of that many
    rows share none"""
    n, d = x.shape
    if n < 12:
        return
    w = min(n, WINDOW)
    for s in range(n - w + 1):
        key = []
        for j in range(d):
            r = np.argsort(x[s:s + w, j], kind="stable")
            key.append(min(tuple(r), tuple(r[::-1])))
            if w == WINDOW:
                yield key.pop()
        if key:
            yield tuple(sorted(key))


def run(plan, ctx):
    from copulae.gof import gof_copula
    results, states = {}, {}
    orders = {}
    seen = {}  # a drawn number -> (stream, replicate)
    for t in plan["tests"]:
        cls = getattr(probes, t["cls"])
        probes.start()
        w = g.world(ctx, t["world"])
        stream = t["id"] if t["repeat"] is None else t["repeat"]
        while stream in results and results[stream][2] is not None:
            stream = results[stream][2]
        if t["repeat"] is not None and t["repeat"] in states:
            np.random.set_state(states[t["repeat"]])
        elif t["global"] is not None:
            np.random.seed(t["global"])
        states[t["id"]] = np.random.get_state()
        opts = {} if t["cls"] == "Probe" else {"method": "itau"}
        pool.enter(w)
        try:
            res = gof_copula(cls, g.make_data(t["data"]), t["reps"], multiprocess=t["multi"], **opts)
        except Exception as e:
            if t["cls"] == "Probe":
                raise
            ctx.event("failed", type(e).__name__)
            continue
        finally:
            pool.leave()
        recs = [r for r in probes.records() if r["kind"] == "random"]
        w.close()
        ctx.state([x for x in w.log if x[0] in ("assign", "finish")])
        ctx.count("samples", len(recs))
        if len({r["pid"] for r in recs}) > 1:
            ctx.nontrivial = True
        again = t["repeat"] is not None and t["repeat"] in results
        if again:
            ctx.count("repeats under another schedule")
            a = results[t["repeat"]]
            ctx.expect(g.close([res.statistic, res.pvalue], a[:2], 1e-9, 1e-12), "depends-on-schedule",
                       lambda: f"from the same random state: statistic and p-value {a[:2]} under one schedule, "
                               f"{(res.statistic, res.pvalue)} under another")
        results[t["id"]] = (float(res.statistic), float(res.pvalue), t["repeat"])
        ctx.event("result", float(res.statistic), float(res.pvalue))
        if again:
            continue
        for k, r in enumerate(recs):
            hits = {}
            for v in set(np.ravel(r["out"]).tolist()):
                if not 1e-9 < v < 1 - 1e-9:
                    continue
                if v in seen:
                    hits[seen[v]] = hits.get(seen[v], 0) + 1
                else:
                    seen[v] = (stream, k)
            for (s, j), m in hits.items():
                if m >= 2:
                    ctx.violation("shared-sample", f"replicate {k} of test {t['id']} drew {m} of the numbers that "
                                  f"replicate {j} of test {s} drew" + (", in the same test" if s == stream else ""))
                    return
        # and what the replicates made of them: a replicate is to be unrelated to the others, not only to differ
        if t["data"]["tie"] == 0:
            fits = [r["data"] for r in probes.records() if r["kind"] == "fit"][1:]
            ctx.count("replicates compared", len(fits))
            for k, x in enumerate(fits):
                for key in patterns(x):
                    if key in orders and orders[key] != (stream, k):
                        s, j = orders[key]
                        ctx.violation("related-samples", f"replicate {k} of test {t['id']} was evaluated on a sample whose "
                                      f"rows come in the order, or in the reverse order, of those of replicate {j} of test {s}")
                        return
                    orders[key] = (stream, k)
        if ctx.violations:
            return
