import numpy as np

from .. import goflib as g
from .. import pool, probes

PROP = "C01"
RUNS = {"quick": 700, "thorough": 6000}
RUN_TIMEOUT = 60
LISTS = ["tests"]
RULE = ("a seed gives one to three tests in one process: copula class, data with or without ties, replicates, ranking "
        "options, worker count, start method, scheduling policy; nontrivial: worker processes were used and at least "
        "one task finished in another order than it was submitted, or the data had ties")
STEPS = "scheduler decisions: tasks handed to a worker, tasks delivered"
STATES = "the order in which a test's tasks were assigned and delivered"
REAL = ["copulae.gof.goodness_of_fit", "copula fitting, sampling and cdfs of copulae", "pickling of tasks and results",
        "one forked process per worker, with its own interpreter state"]
SIMULATED = ["concurrent.futures.ProcessPoolExecutor, ThreadPoolExecutor, as_completed, wait", "multiprocessing.Pool",
             "os.cpu_count", "which worker takes which task and when results arrive", "the clock of the pool"]
ASSUMPTIONS = ["replicates are observed through copula classes that override random, fit and cdf, as a user may",
               "|T_k| within 1e-9 of |T| counts either way"]


def before_import():
    pool.install()


def after_import():
    probes.define()


def gen(rng, i, tier):
    tests = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        cls = rng.choice(["Probe"] * 6 + ["RecClayton", "RecGaussian", "RecFrank", "RecGumbel"])
        cheap = cls == "Probe"
        data = g.gen_data(rng, cheap)
        opts = {}
        if cheap:
            if rng.random() < 0.3:
                opts["boost"] = rng.choice([0.01, 0.02])
        else:
            data["d"] = 2
            if rng.random() < 0.7:
                opts["method"] = "itau"
            if rng.random() < 0.2:
                opts["scale"] = 2.0
        reps = rng.choice([1, 2, 3, 5, 7, 11, 16, 30] if cheap else [1, 2, 3, 5])
        if opts.get("method") != "itau" and not cheap:
            reps = min(reps, 2)
        tests.append({"cls": cls, "data": data, "reps": reps, "ties": rng.choice(g.TIES[:4] + ["average"] * 3),
                      "fit_ties": rng.choice(g.TIES[:4] + ["average"] * 3), "multi": rng.random() < 0.75,
                      "opts": opts, "world": g.gen_world(rng), "global": rng.randrange(1 << 31)})
    return {"tests": tests}


def run(plan, ctx):
    from copulae.gof import gof_copula
    for t in plan["tests"]:
        cls = getattr(probes, t["cls"])
        data = g.make_data(t["data"])
        opts = dict(t["opts"])
        probes.start()
        w = g.world(ctx, t["world"])
        pool.enter(w)
        np.random.seed(t["global"])
        res = None
        try:
            res = gof_copula(cls, data, t["reps"], t["ties"], t["fit_ties"], t["multi"], **opts)
        except Exception as e:  # an estimator that fails on a small sample is no matter of this property
            if t["cls"] == "Probe":
                raise
            ctx.event("failed", type(e).__name__)
            ctx.count("tests that ended in an estimator's exception")
        finally:
            pool.leave()
        if res is None:
            w.close()
            continue
        recs = probes.records()
        order = [x for x in w.log if x[0] in ("assign", "finish")]
        ctx.state(order)
        ctx.count("replicates", t["reps"])
        done = [x[2] for x in order if x[0] == "finish"]
        if (t["multi"] and done != sorted(done)) or t["data"]["tie"]:
            ctx.nontrivial = True
        judge(ctx, t, cls, np.asarray(data, float), opts, res, recs)
        ctx.event("result", float(res.statistic), float(res.pvalue), len(recs), [r["kind"] for r in recs])
        ctx.expect(not w.live(), "workers-left", "worker processes outlive the test")
        w.close()
        if ctx.violations:
            return


def reference(cls, u_fit, u_stat, opts):
    """what the procedure gives for one data set: fit, evaluate, statistic"""
    log, probes.LOG_ON = probes.LOG_ON, False
    try:
        c = cls(dim=u_fit.shape[1])
        c.fit(u_fit, **{"verbose": 0, **opts})
        return probes._plain(c.params), g.statistic(c.cdf(u_stat), u_stat)
    finally:
        probes.LOG_ON = log


def judge(ctx, t, cls, data, opts, res, recs):
    n, d = data.shape
    u_stat, u_fit = g.pobs(data, t["ties"]), g.pobs(data, t["fit_ties"])
    params, stat = reference(cls, u_fit, u_stat, opts)
    if not np.isfinite(stat):
        ctx.count("statistic not finite")
        return
    ctx.expect(g.close(res.statistic, stat, 1e-7, 1e-10), "statistic",
               lambda: f"statistic {res.statistic}, fitting and evaluating the data gives {stat}")
    ctx.expect(g.close(probes._plain(res.parameter), params, 1e-7, 1e-9), "parameter",
               lambda: f"parameter {res.parameter}, fitting the data gives {params}")

    randoms = [r for r in recs if r["kind"] == "random"]
    fits = [r for r in recs if r["kind"] == "fit"]
    cdfs = [r for r in recs if r["kind"] == "cdf"]
    has_ties = any(len(np.unique(data[:, j])) < n for j in range(d))
    for r in randoms:
        ctx.expect(g.close(r["params"], params, 1e-7, 1e-9), "sampled-from-other-copula",
                   lambda: f"a sample came from a copula with parameters {r['params']}, the fitted one has {params}")
        ctx.expect(np.shape(r["out"]) == (n, d), "sample-size",
                   lambda: f"a sample of shape {np.shape(r['out'])} was drawn, the data has shape {(n, d)}")
    if ctx.violations:
        return
    ctx.expect(len(randoms) == t["reps"], "replicate-count",
               lambda: f"{len(randoms)} samples were drawn for {t['reps']} replicates")

    exact = not (has_ties and "ordinal" in (t["ties"], t["fit_ties"]))
    # every replicate: the sample given the ties of the data, ranked, fitted with the same options, evaluated
    fit_keys = {}
    for k, r in enumerate(fits):
        fit_keys.setdefault(g.row_key(r["data"]), []).append(k)
    cdf_keys = {}
    for k, r in enumerate(cdfs):
        cdf_keys.setdefault(g.row_key(r["x"]), []).append(k)
    want_opts = {k: repr(v) for k, v in opts.items()}
    main_fit = fit_keys.get(g.row_key(u_fit), [])
    ctx.expect(main_fit, "data-not-fitted", "the copula was not fitted to the pseudo observations of the data")
    ts = []
    for r in randoms:
        s = g.with_ties_of(data, r["out"]) if has_ties else r["out"]
        a, b = g.pobs(s, t["fit_ties"]), g.pobs(s, t["ties"])
        if exact:
            fk, ck = fit_keys.get(g.row_key(a)), cdf_keys.get(g.row_key(b))
            if not ctx.expect(fk, "replicate-not-refitted",
                              f"no copula was fitted to a replicate's sample (ties in the data: {has_ties}, ranks "
                              f"{t['fit_ties']})"):
                return
            if not ctx.expect(ck, "replicate-not-evaluated",
                              f"no copula was evaluated at a replicate's sample (ties in the data: {has_ties}, ranks "
                              f"{t['ties']})"):
                return
            for k in fk:
                got = {x: y for x, y in fits[k]["kwargs"].items() if x != "verbose"}
                if not fits[k]["args"]:
                    ctx.expect(got == want_opts, "replicate-options",
                               lambda: f"a replicate was fitted with {got}, the caller asked for {want_opts}")
            p_k, t_k = reference(cls, fits[fk[0]]["data"], cdfs[ck[0]]["x"], opts)
            near = any(g.close(cdfs[k]["params"], p_k, 1e-7, 1e-9) for k in ck)
            ctx.expect(near, "replicate-evaluated-other-copula",
                       lambda: f"a replicate was evaluated with {cdfs[ck[0]]['params']}, refitting it gives {p_k}")
            ts.append(t_k)
    if ctx.violations or not exact:
        return
    ts = np.abs(ts)
    if not np.all(np.isfinite(ts)):
        return
    tol = 1e-9 + 1e-7 * abs(stat)
    low, high = int(np.sum(ts >= abs(stat) + tol)), int(np.sum(ts >= abs(stat) - tol))
    lo, hi = (low + 0.5) / (t["reps"] + 1), (high + 0.5) / (t["reps"] + 1)
    ctx.expect(lo - 1e-12 <= res.pvalue <= hi + 1e-12, "p-value",
               lambda: f"p-value {res.pvalue}, the {t['reps']} replicates give {lo} (T={stat}, T_k={ts.tolist()})")
