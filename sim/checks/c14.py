import copy
import warnings

import numpy as np
import pandas as pd
import scipy.special
import scipy.stats

from .. import optimizer
from .. import world as W

PROP = "C14"
RUNS = {"quick": 400, "thorough": 8000}
RUN_TIMEOUT = 120
LISTS = ["fits"]
RULE = ("a seed gives a mixture copula and two to five fits by expectation maximization, clustering or numerical "
        "optimization, from given or found starts; the clustering and the optimizer are the real ones or ones that give "
        "any clusters and any points; nontrivial: a fit was compared that came after another one and whose clustering "
        "or optimizer was simulated")
STEPS = "fits and refits"
STATES = "method, criterion, start, clustering, outcome, number of clusters and dimensions"
REAL = ["the mixture copula, its estimators and its likelihood", "scikit-learn's clustering and scipy's optimizers in a "
        "part of the fits"]
SIMULATED = ["the clustering: which rows it puts together and in which order it numbers the clusters", "the optimizer: "
             "the points it tries and how it ends", "the process-wide random state"]
ASSUMPTIONS = ["the likelihood of given parameters is recomputed with the library's function in a new process, and "
               "roughly by independent means"]

LABELS = None  # labels that the simulated clustering gives, by number of rows
CLUSTERINGS = 0


def before_import():
    optimizer.install()
    import sklearn.cluster

    Real = sklearn.cluster.KMeans

    class KMeans(Real):
        def fit(self, X, y=None, sample_weight=None):
            global CLUSTERINGS
            CLUSTERINGS += 1
            if LABELS is None:
                return super().fit(X, y, sample_weight)
            X = np.asarray(X)
            lab = np.array(LABELS[:len(X)], dtype=np.int32)
            self.cluster_centers_ = np.array([X[lab == g].mean(0) for g in range(self.n_clusters)])
            self.labels_ = lab
            self.inertia_ = float(((X - self.cluster_centers_[lab]) ** 2).sum())
            self.n_iter_ = 1
            self.n_features_in_ = X.shape[1]
            self._n_threads = 1
            return self

        def fit_predict(self, X, y=None, sample_weight=None):
            return self.fit(X, y, sample_weight).labels_

    KMeans.__name__ = KMeans.__qualname__ = "KMeans"
    sklearn.cluster.KMeans = KMeans
    import sklearn.cluster._kmeans as k
    k.KMeans = KMeans


def gen(rng, i, tier):
    s = W.gen_spec(rng, ["gmc"], (2, 2, 3))
    m, d = s["clusters"], s["dim"]
    fits = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        n = rng.choice([30, 45, 60])
        f = {"n": n, "seed": rng.randrange(1 << 30), "gap": rng.choice([0.0, 1.5, 4.0]), "tie": rng.random() < 0.25,
             "method": rng.choice(["pem", "pem", "pem", "kmeans", "sgd"]),
             "criteria": rng.choice(["GMCM", "GMCM", "GMM", "Li", "gmcm"]), "max_iter": rng.choice([1, 2, 4, 9, 25]),
             "eps": rng.choice([1e-4, 1e-2, 0.3]), "ties": rng.choice(["average", "average", "min", "max"]),
             "layout": rng.choice(["c", "f", "stride"]), "gseed": rng.randrange(1 << 30), "x0": None, "labels": None,
             "script": None, "order": rng.randrange(1 << 30)}
        if rng.random() < 0.5:
            f["x0"] = W.gen_spec(rng, ["gmc"], (d,))
            while f["x0"]["clusters"] != m:
                f["x0"] = W.gen_spec(rng, ["gmc"], (d,))
            f["x0"] = [rng.choice(["param", "param", "vector"]), f["x0"]["gmc"]]
        if rng.random() < 0.6:
            lab = []
            for g in range(m):
                lab += [g] * (d + 2)
            lab += [rng.randrange(m) for _ in range(60 - len(lab))]
            lab = lab[:n]
            rng.shuffle(lab)
            if min(lab.count(g) for g in range(m)) > d:
                f["labels"] = lab
        if f["method"] == "sgd":
            f["max_iter"] = rng.choice([3, 12, 30])
            if rng.random() < 0.6:
                f["script"] = {"points": [[rng.randrange(1 << 30), rng.choice([0.0, 0.01, 0.1, 0.3])]
                                          for _ in range(rng.choice([1, 3, 6]))], "take": rng.random(),
                               "success": rng.random() < 0.7, "reuse": rng.random() < 0.7}
        fits.append(f)
    return {"spec": s, "fits": fits}


def data_of(f, d):
    r = np.random.RandomState(f["seed"])
    x = r.normal(size=(f["n"], d)) + r.normal(size=(f["n"], 1)) * 0.7
    x[: f["n"] // 3] += f["gap"]
    if f["tie"]:
        x[:, 0] = np.round(x[:, 0], 1)
    return W.laid(x, f["layout"])


def start_of(f, m, d):
    """the start in the form in which the caller gives it"""
    if f["x0"] is None:
        return None
    from copulae.mixtures.gmc.parameter import GMCParam
    how, g = f["x0"]
    p = GMCParam(m, d, np.array(g["prob"]), np.array(g["means"]), np.array(g["covs"]))
    return p if how == "param" else p.to_vector()


def fit(c, f, d, m, data=None, **change):
    """fits, with the clustering and the optimizer of the plan"""
    global LABELS
    g = {**f, **change}
    data = data_of(g, d) if data is None else data
    LABELS = g["labels"]
    x0 = g["start"] if "start" in g else start_of(g, m, d)
    np.random.seed(g["gseed"])
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            script = Script(g["script"]) if g["script"] and g["method"] == "sgd" else None
            with optimizer.use(script):
                c.fit(data, x0, g["method"], ties=g["ties"], verbose=0, max_iter=g["max_iter"], criteria=g["criteria"],
                      eps=g["eps"])
        return "ok", script
    except Exception as e:
        return type(e).__name__, None
    finally:
        LABELS = None


class Script:
    def __init__(self, s):
        self.s = s
        self.result = None

    def __call__(self, real, fun, x0, args, kwargs):
        from scipy.optimize import OptimizeResult
        x0 = np.array(x0, float).ravel()
        buf = np.empty_like(x0)
        tried, vals = [], []
        for seed, size in self.s["points"]:
            x = x0 * (1 + size * np.random.RandomState(seed).normal(size=len(x0)))
            try:
                if self.s["reuse"]:
                    buf[...] = x
                    v = float(fun(buf))
                    buf[...] = 0.5
                else:
                    v = float(fun(x.copy()))
            except Exception:
                continue
            tried.append(x)
            vals.append(v)
        good = [k for k, v in enumerate(vals) if np.isfinite(v)]
        if not good:
            raise ValueError("no point could be evaluated")
        k = good[int(self.s["take"] * len(good))]
        self.result = {"x": tried[k], "fun": vals[k], "success": self.s["success"]}
        return OptimizeResult(x=tried[k].copy(), fun=vals[k], success=self.s["success"], status=0, message="",
                              nit=len(vals), nfev=len(vals))


# ------------------------------------------------------------------------------------------------------------- oracles

def level(gmc, data, ties):
    """the pseudo log likelihood of the parameters, by the library in a new process and by other means"""
    from copulae.core import pseudo_obs
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    from copulae.mixtures.gmc.parameter import GMCParam
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, d = np.shape(gmc["means"])
        p = GMCParam(m, d, np.array(gmc["prob"]), np.array(gmc["means"]), np.array(gmc["covs"]))
        u = pseudo_obs(data, ties)
        a = float(gmcm_log_likelihood(u, p))
        try:
            b = by_hand(gmc, data, ties)
        except Exception:
            b = None
        return a, b


def by_hand(gmc, data, ties):
    prob, means, covs = (np.array(gmc[k]) for k in ("prob", "means", "covs"))
    if np.linalg.eigvalsh(covs).min() < 0.05:
        return None
    n, d = data.shape
    u = np.column_stack([scipy.stats.rankdata(data[:, j], ties) for j in range(d)]) / (n + 1)
    q = np.empty_like(u)
    for j in range(d):
        s = np.sqrt(covs[:, j, j])
        lo, hi = np.full(n, (means[:, j] - 9 * s).min()), np.full(n, (means[:, j] + 9 * s).max())
        for _ in range(80):
            mid = (lo + hi) / 2
            up = scipy.special.ndtr((mid[:, None] - means[:, j]) / s) @ prob < u[:, j]
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        q[:, j] = (lo + hi) / 2
    joint = sum(p * scipy.stats.multivariate_normal.pdf(q, m, c) for p, m, c in zip(prob, means, covs))
    out = np.log(joint).sum()
    for j in range(d):
        s = np.sqrt(covs[:, j, j])
        out -= np.log(scipy.stats.norm.pdf(q[:, j][:, None], means[:, j], s) @ prob).sum()
    return float(out)


def close(a, b, tol=1e-7):
    return all(np.allclose(a[k], b[k], rtol=tol, atol=tol) for k in ("prob", "means", "covs"))


def run(plan, ctx):
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    spec = plan["spec"]
    d, m = spec["dim"], spec["clusters"]
    c = W.make(spec)
    done = rich = False
    for n, f in enumerate(plan["fits"]):
        data = data_of(f, d)
        kept = data.copy()
        start = start_of(f, m, d)
        shown = copy.deepcopy(start)
        result, script = fit(c, f, d, m, data, start=start)
        ctx.steps += 1
        what = f"fit {n} ({f['method']}, {f['criteria']}, {m} clusters, {d} dimensions, max_iter {f['max_iter']}, " \
               f"{'given' if f['x0'] else 'found'} start, {'simulated' if f['labels'] else 'real'} clustering)"
        ctx.event(n, f["method"], result)
        ctx.state(f["method"], f["criteria"], bool(f["x0"]), bool(f["labels"]), result, m, d, f["ties"])
        if f["labels"]:
            ctx.fault("simulated clustering")
        if f["script"]:
            ctx.fault("simulated optimizer")
        ctx.expect(np.array_equal(data, kept) and W.plain(start) == W.plain(shown), "input-changed",
                   lambda: f"{what} changed its data or start")
        if result != "ok":
            done = True
            continue
        p = W.plain_gmc(c.params)
        rep = c.summary("fit")
        ctx.event([float("%.6g" % q) for q in p["prob"]], float("%.6g" % p["means"][0][0]))
        ctx.count("fits compared")
        if not valid(ctx, what, p, m, d):
            return
        ctx.expect(rep.nsample == len(data) and rep.method == f["method"], "wrong-report", lambda: f"{what} is reported "
                   f"as {rep.method} of {rep.nsample} rows")
        ctx.expect(close(p, W.plain_gmc(rep.best_params), 1e-12), "report-differs", lambda: f"{what}: the report's "
                   "parameters are not the copula's")
        # the start that a fit without one finds: what clustering gives from the same random state
        if f["x0"] is None:
            s = W.make(spec)
            r, _ = fit(s, f, d, m, data, method="kmeans")
            first = W.plain_gmc(s.params) if r == "ok" else None
        else:
            from copulae.mixtures.gmc.parameter import GMCParam
            v = start_of(f, m, d)
            first = W.plain_gmc(v if isinstance(v, GMCParam) else GMCParam.from_vector(v, m, d))
            if not (f["method"] == "kmeans"):
                ctx.expect(same_after(c, f, d, m, data, spec, p),
                           "depends-on-random-state", lambda: f"{what} depends on the process-wide random state")
        ll, rough = oracle(level, p, np.asarray(data), f["ties"])
        told = rep.setup.get("Log. Likelihood") if f["method"] == "pem" else \
            -rep.setup["Fn. Value"] if f["method"] == "sgd" else None
        if told is not None:
            ctx.expect(W.same(float(told), float(ll), 1e-6), "wrong-level", lambda: f"{what} reports the log likelihood "
                       f"{told}, that of its parameters is {ll}")
            if rough is not None and np.isfinite(ll):
                ctx.expect(abs(rough - ll) < 0.02 * len(data) + 0.02 * abs(ll), "wrong-level", lambda: f"{what}: the log "
                           f"likelihood of {p} is {ll}, by hand {rough}")
        if f["method"] == "pem" and f["criteria"] != "GMM" and first is not None:
            was, _ = oracle(level, first, np.asarray(data), f["ties"])
            ctx.expect(not np.isfinite(was) or ll >= was - 1e-6 * max(1, abs(was)), "worse-than-start", lambda: f"{what} "
                       f"ended at the log likelihood {ll}, it started at {was}")
        if f["method"] == "sgd" and script is not None:
            from copulae.mixtures.gmc.parameter import GMCParam
            want = W.plain_gmc(GMCParam.from_vector(script.result["x"], m, d))
            ctx.expect(close(p, want, 1e-9), "not-the-optimizer's-point", lambda: f"{what}: the optimizer returned {want}, "
                       f"the parameters are {p}")
            ctx.expect(bool(rep.has_converged) == script.result["success"], "wrong-report", lambda: f"{what} is reported "
                       f"as converged: {rep.has_converged}, but the optimizer said {script.result['success']}")
            ctx.expect(W.same(float(rep.setup["Fn. Value"]), script.result["fun"], 1e-9), "wrong-report", lambda:
                       f"{what} reports the value {rep.setup['Fn. Value']}, not {script.result['fun']}")
        if f["method"] == "kmeans":
            clusters(ctx, what, p, f, data, rep)
        # the same fit of a new copula, in a process without history
        ref = oracle(anew, spec, f)
        ctx.expect(ref is not None and agree(ref[0], p, ref[1], ll), "depends-on-history", lambda: f"{what} gives {p} "
                   f"({ll}), that of a new copula {ref}")
        if f["method"] == "pem":
            longer(ctx, what, spec, f, d, m, data, rep, ll, p)
        if f["method"] == "pem" and (f["x0"] or f["labels"]) and f["max_iter"] <= 4:
            rearranged(ctx, what, spec, f, d, m, data, p, ll)
        if ctx.violations:
            return
        rich = rich or done and bool(f["labels"] or f["script"])
        done = True
    oracle.close()
    ctx.nontrivial = rich


def agree(p, q, a, b):
    """the same parameters, or, where rounding errors have grown, at least the same level"""
    return close(p, q, 1e-6) or np.isfinite(a) and abs(a - b) <= 1e-3 * max(1, abs(a))


def valid(ctx, what, p, m, d):
    prob, means, covs = (np.array(p[k], float) for k in ("prob", "means", "covs"))
    ok = prob.shape == (m,) and (prob >= 0).all() and abs(prob.sum() - 1) < 1e-6 and means.shape == (m, d) and \
        np.isfinite(means).all() and covs.shape == (m, d, d) and np.isfinite(covs).all() and \
        np.allclose(covs, covs.transpose(0, 2, 1), atol=1e-8)
    ok = ok and all(np.linalg.eigvalsh(s).min() > -1e-7 * max(1, np.abs(s).max()) for s in covs)
    return ctx.expect(ok, "invalid-parameters", lambda: f"{what} gives {p}")


def same_after(c, f, d, m, data, spec, p):
    """a fit from a given start uses no random numbers"""
    other = W.make(spec)
    r, _ = fit(other, f, d, m, data, gseed=f["gseed"] ^ 1)
    return r == "ok" and close(W.plain_gmc(other.params), p, 1e-9)


def anew(spec, f):
    c = W.make(spec)
    r, _ = fit(c, f, spec["dim"], spec["clusters"])
    if r != "ok":
        return None
    p = W.plain_gmc(c.params)
    return p, level(p, data_of(f, spec["dim"]), f["ties"])[0]


def clusters(ctx, what, p, f, data, rep):
    """the parts make up the whole"""
    n, d = data.shape
    prob, means, covs = (np.array(p[k]) for k in ("prob", "means", "covs"))
    size = prob * n
    ctx.expect(np.allclose(size, np.round(size), atol=1e-6), "wrong-cluster", lambda: f"{what}: weights {prob} of {n} rows")
    ctx.expect(np.allclose(prob @ means, data.mean(0), atol=1e-8), "wrong-cluster", lambda: f"{what}: the weighted mean of "
               f"the clusters is {prob @ means}, that of the data {data.mean(0)}")
    if (np.round(size) > d + 1).all():
        c = means - data.mean(0)
        total = np.einsum("k,kij->ij", size - 1, covs) + np.einsum("k,ki,kj->ij", size, c, c)
        x = data - data.mean(0)
        ctx.expect(np.allclose(total, x.T @ x, rtol=1e-5, atol=1e-6), "wrong-cluster", lambda: f"{what}: the scatter "
                   f"within and between the clusters is {total}, that of the data {x.T @ x}")
    if f["labels"]:
        lab = np.array(f["labels"][:n])
        want = sorted((round(float(np.mean(lab == g)), 9), *np.round(data[lab == g].mean(0), 7)) for g in set(lab))
        have = sorted((round(float(a), 9), *np.round(b, 7)) for a, b in zip(prob, means))
        ctx.expect(np.allclose(want, have, atol=1e-6), "wrong-cluster", lambda: f"{what}: {have}, not {want}")


def longer(ctx, what, spec, f, d, m, data, rep, ll, p):
    """more iterations do not lead to a lower level, and none follow once it has converged"""
    c = W.make(spec)
    r, _ = fit(c, f, d, m, data, max_iter=f["max_iter"] + 1)
    ctx.steps += 1
    if r != "ok":
        ctx.expect(not rep.has_converged, "continued", lambda: f"{what} is reported as converged, but with one more "
                   f"iteration raises {r}")
        return
    q = W.plain_gmc(c.params)
    l2 = c.summary("fit").setup["Log. Likelihood"]
    if rep.has_converged:
        ctx.expect(close(p, q, 1e-9), "continued", lambda: f"{what} is reported as converged, but one more iteration "
                   f"allowed gives {q} instead of {p}")
    elif f["criteria"] != "GMM":
        ctx.expect(not np.isfinite(ll) or l2 >= ll - 1e-6 * max(1, abs(ll)), "worse-with-more-iterations", lambda:
                   f"{what} reaches {ll}, with one more iteration {l2}")


def rearranged(ctx, what, spec, f, d, m, data, p, ll):
    """the order of the rows and the numbers of the clusters mean nothing"""
    r = np.random.RandomState(f["order"])
    rows, cols, ks = r.permutation(len(data)), r.permutation(d), r.permutation(m)
    g = {}
    if f["x0"]:
        how, s = f["x0"]
        s = {k: np.array(v) for k, v in s.items()}
        g["x0"] = [how, {"prob": s["prob"][ks], "means": s["means"][ks][:, cols],
                         "covs": s["covs"][ks][:, cols][:, :, cols]}]
    else:
        back = np.argsort(ks)
        g["labels"] = [int(back[k]) for k in np.array(f["labels"])[rows]]
    c = W.make(spec)
    got, _ = fit(c, f, d, m, np.asarray(data)[rows][:, cols], **g)
    ctx.steps += 1
    if got != "ok":
        ctx.violation("depends-on-order", f"{what} with rows, columns and clusters rearranged raises {got}")
        return
    q = W.plain_gmc(c.params)
    want = {"prob": np.array(p["prob"])[ks], "means": np.array(p["means"])[ks][:, cols],
            "covs": np.array(p["covs"])[ks][:, cols][:, :, cols]}
    l2 = c.summary("fit").setup["Log. Likelihood"]
    ctx.expect(close(q, want, 1e-5) or np.isfinite(ll) and abs(l2 - ll) < 1e-4 * max(1, abs(ll)), "depends-on-order",
               lambda: f"{what} gives {p}, with rows {rows[:8]}.., columns {cols} and clusters {ks} rearranged {q}")
