import warnings

import numpy as np
import pandas as pd
import scipy.integrate
import scipy.special
import scipy.stats

from .. import world as W

PROP = "C13"
RUNS = {"quick": 1000, "thorough": 15000}
RUN_TIMEOUT = 120
LISTS = ["hist", "draws"]
RULE = ("a seed gives a copula, a history of changes to it, and either a plan for drawing a few thousand rows (at once, "
        "in several draws, one draw per seed) that are compared with the copula's theory, or extreme outputs of the "
        "generator for a few draws; nontrivial: a sample of at least a thousand rows drawn in more than one call or "
        "after changes")
STEPS = "rows drawn"
STATES = "kind of copula, dimension, parameters rounded, way of drawing, extreme values met"
REAL = ["all copulas and their samplers", "numpy's and scipy's variate generators"]
SIMULATED = ["the stream of random words under the process-wide generator", "the history of the copula"]
ASSUMPTIONS = ["the generator does not deliver an exact zero (it does once in 2 ** 53 numbers, and numpy's own gamma "
               "variates turn it into -0.0)", "each comparison raises a false alarm with a probability below 1e-10 for a sample of the right copula",
               "numpy's Mersenne Twister with seeds from the plan gives independent streams",
               "parameters of moderate size: Clayton up to 20, Frank up to 60, Gumbel up to 15, correlations up to 0.95"]

ALPHA = 1e-10


# ---------------------------------------------------------------------------------------------------- extreme streams

def untemper(y):
    """the state word from which the Mersenne Twister makes the output y"""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def install(doubles, seed):
    """make the process-wide generator deliver the given uniform numbers first (None: any)"""
    r = np.random.RandomState(seed)
    s = r.get_state()[1].copy()
    r.random_sample(700)
    key = r.get_state()[1].copy()
    for i, v in enumerate(doubles):
        if v is not None:
            k = min(int(v * 2 ** 53), 2 ** 53 - 1)
            key[2 * i] = untemper(((k >> 26) << 5) & 0xffffffff)
            key[2 * i + 1] = untemper(((k & (2 ** 26 - 1)) << 6) & 0xffffffff)
    np.random.set_state(("MT19937", key, 0, 0, 0.0))
    return s


EXTREME = [2.0 ** -53, 1e-12, 1e-9, 1e-6, 1e-4, 0.5, 1 - 1e-4, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12, 1 - 2.0 ** -53]


# ------------------------------------------------------------------------------------------------------------- theory

def clayton(t, u):
    s = np.sum(u ** -t, axis=-1) - u.shape[-1] + 1
    return np.where(s > 0, np.maximum(s, 1e-300) ** (-1 / t), 0.0)


def frank(t, u):
    if t > 0:
        s = np.sum(np.log1p(-np.exp(-t * u)), axis=-1) - (u.shape[-1] - 1) * np.log1p(-np.exp(-t))
        return -np.log(-np.expm1(np.minimum(s, -1e-300))) / t
    return -np.log1p(np.prod(np.expm1(-t * u), axis=-1) / np.expm1(-t) ** (u.shape[-1] - 1)) / t


def gumbel(t, u):
    return np.exp(-np.sum((-np.log(u)) ** t, axis=-1) ** (1 / t))


def bvn(a, b, r):
    """P(X <= a, Y <= b) for standard normal variables with correlation r, by one-dimensional integration"""
    f = lambda th: np.exp(-(a * a + b * b - 2 * a * b * np.sin(th)) / (2 * np.cos(th) ** 2))  # noqa
    v = scipy.integrate.quad(f, 0, np.arcsin(np.clip(r, -1, 1)), epsabs=1e-10)[0] if abs(r) < 1 else None
    if v is None:
        return float(scipy.special.ndtr(min(a, b)) if r > 0 else max(0, scipy.special.ndtr(a) + scipy.special.ndtr(b) - 1))
    return float(scipy.special.ndtr(a) * scipy.special.ndtr(b) + v / (2 * np.pi))


def bvt(a, b, r, df):
    """The same for t: a mixture of normal ones, integrated over the quantiles of the chi-square scale"""
    x, w = np.polynomial.legendre.leggauss(60)
    q = (x + 1) / 2
    s = np.sqrt(scipy.stats.chi2.ppf(q, df) / df)
    return float(sum(wi / 2 * bvn(a * si, b * si, r) for si, wi in zip(s, w)))


def truth(kind, p, pairs):
    """[columns, u, P(U <= u)] for sets of columns"""
    out = []
    for cols, u in pairs:
        u = np.asarray(u)
        if kind == "clayton":
            v, slack = clayton(p, u), 0
        elif kind == "frank":
            v, slack = frank(p, u), 0
        elif kind == "gumbel":
            v, slack = gumbel(p, u), 0
        elif kind == "indep":
            v, slack = np.prod(u), 0
        elif len(cols) > 2:
            s = p["sigma"][np.ix_(cols, cols)]
            if len(cols) > 3:
                continue
            v = 1 / 8 + sum(np.arcsin(np.clip(s[i, j], -1, 1)) for i, j in ((0, 1), (0, 2), (1, 2))) / (4 * np.pi)
            u, slack = np.full(3, 0.5), 1e-9
        elif kind == "gaussian":
            v, slack = bvn(*scipy.special.ndtri(u), p["sigma"][cols[0], cols[1]]), 1e-7
        else:
            v, slack = bvt(*scipy.stats.t.ppf(u, p["df"]), p["sigma"][cols[0], cols[1]], p["df"]), 2e-3
        out.append([list(cols), [float(x) for x in u], float(v), slack])
    return out


# --------------------------------------------------------------------------------------------------------------- plan

def wide_spec(rng):
    kind = rng.choice(["gaussian", "student", "clayton", "clayton", "frank", "frank", "gumbel", "gumbel", "indep",
                       "empirical", "marginal", "gmc"])
    s = W.gen_spec(rng, [kind], (2, 2, 3, 4, 5))
    tweak(rng, s)
    if kind == "marginal":
        tweak(rng, s["inner"])
    return s


def tweak(rng, s):
    k, d = s["kind"], s["dim"]
    if rng.random() < 0.5:
        return
    if k == "clayton":
        s["params"] = rng.choice([1e-8, 1e-3, 0.05, 0.7, 12.0, 20.0] + ([-0.1, -0.9, -0.99] if d == 2 else []))
    elif k == "frank":
        s["params"] = rng.choice([1e-8, 1e-3, 0.05, 12.0, 25.0, 36.0, 60.0] + ([-0.01, -15.0, -25.0] if d == 2 else []))
    elif k == "gumbel":
        s["params"] = rng.choice([1.0, 1 + 1e-8, 1.001, 1.3, 8.0, 15.0])
    elif k in ("gaussian", "student") and d == 2:
        r = [rng.choice([-0.95, -0.5, 0.0, 0.95])]
        s["params"] = r if k == "gaussian" else [rng.choice([0.5, 1.0, 3.0, 60.0, 20000.0]), *r]


def gen(rng, i, tier):
    s = wide_spec(rng)
    hist = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        op = W.gen_change(rng, s)
        if op["op"] == "fit" and (s["kind"] == "gmc" or (s["inner"] if s["kind"] == "marginal" else s)["kind"] in
                                  W.ELLIPTICAL and op["args"].get("method") != "itau"):
            continue
        if op["op"] == "fit":
            op["data"]["frame"] = rng.random() < 0.3
        hist.append({**op, "slot": 0})
    mode = rng.choice(["once", "several", "several", "seeds", "seeds", "extreme", "extreme"])
    n = rng.choice([2000, 4000]) if s["kind"] not in ("gmc",) else 1500
    plan = {"spec": s, "hist": hist, "mode": mode, "seed": rng.randrange(1 << 31)}
    if mode == "once":
        # now and then more rows than anything would prepare at a time
        n = rng.choice([n, 9000, 17000, 34000]) if s["kind"] != "gmc" else n
        plan["draws"] = [[n, rng.choice([None, rng.randrange(1 << 31)])]]
    elif mode == "several":
        left, draws = n, []
        while left > 0:
            k = min(left, rng.choice([1, 2, 7, 60, 300, 900]))
            draws.append([k, None])
            left -= k
            if len(draws) > 120:
                draws.append([left, None])
                break
        plan["draws"] = [x for x in draws if x[0] > 0]
    elif mode == "seeds":
        first = rng.randrange(1 << 30)
        k = rng.choice([1, 2, 4])
        plan["draws"] = [[k, first + j] for j in range(min(n, 1600) // k)]
    else:
        plan["draws"] = []
        for _ in range(rng.randint(4, 10)):
            m = rng.choice([1, 2, 5])
            plan["draws"].append([m, [rng.choice(EXTREME) if rng.random() < 0.7 else None
                                      for _ in range(rng.choice([1, 4, 12, 40]))]])
    return plan


# ---------------------------------------------------------------------------------------------------------------- run

def run(plan, ctx):
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    spec = plan["spec"]
    slots = {0: {"spec": spec, "c": W.make(spec)}}
    labels = None
    if spec["kind"] == "empirical" and spec["data"]["frame"]:
        labels = spec["data"]["names"][:spec["dim"]]
    for op in plan["hist"]:
        o = W.outcome(lambda: W.apply(slots, op))
        ctx.event(op["op"], o[0])
        ctx.count("changes")
    c = slots[0]["c"]
    d = spec["dim"]
    k = spec["kind"]
    try:
        now = W.respec(c, spec)
    except Exception:
        now = spec
    lo, hi = np.zeros(d), np.ones(d)
    if k == "marginal":
        dist = [scipy_dist(m) for m in now["margins"]]
        lo, hi = [np.array(x, float) for x in zip(*[m.support() for m in dist])]
    if k == "empirical":
        v = np.asarray(c.data, float)
        lo, hi = v.min(0), v.max(0)
    np.random.seed(plan["seed"] % (1 << 32))
    rows = []
    for m, seed in plan["draws"]:
        words = seed if isinstance(seed, list) else None
        if words is not None:
            install(words, plan["seed"])
            ctx.fault("extreme random number", sum(w is not None for w in words))
        try:
            x = c.random(m) if words is not None or seed is None else c.random(m, seed=seed)
        except Exception as e:
            ctx.violation("draw-failed", f"{k} copula {short(now)}: a draw of {m} rows raised {type(e).__name__}: {e}")
            return
        ctx.steps += m
        a = np.asarray(x, float)
        what = f"{k} copula {short(now)}: a draw of {m} rows" + (f" from the numbers {words}" if words else f", seed {seed}")
        if not ctx.expect(a.shape == (m, d), "wrong-shape", lambda: f"{what} has the shape {a.shape}"):
            return
        bad = ~((a >= lo - 1e-12) & (a <= hi + 1e-12))
        if not ctx.expect(not bad.any(), "out-of-range", lambda: f"{what} contains {a[bad][:4]} in row "
                          f"{np.argwhere(bad)[0][0]}: {a[np.argwhere(bad)[0][0]]}"):
            return
        if isinstance(x, pd.DataFrame) and labels:
            ctx.expect([str(q) for q in x.columns] == labels, "wrong-labels", lambda: f"{what} has columns "
                       f"{list(x.columns)}")
        ctx.event("draw", m, [float("%.9g" % q) for q in a.ravel()[:6]])
        rows.append(a)
    ctx.state(k, d, short(now), plan["mode"])
    if plan["mode"] == "extreme" or not rows:
        return
    x = np.concatenate(rows)
    judge(ctx, plan, c, now, x)
    ctx.nontrivial = len(x) >= 1000 and (len(plan["draws"]) > 1 or bool(plan["hist"]))


def scipy_dist(m):
    if isinstance(m, str):
        m = {"type": m}
    t = m["type"]
    t = getattr(scipy.stats, t) if isinstance(t, str) else t
    return t(**m.get("parameters", {}))


def short(s):
    p = s.get("params", s.get("gmc", ""))
    if s["kind"] == "marginal":
        return f"of {s['inner']['kind']} {short(s['inner'])}"
    return f"(dim {s['dim']}) {np.round(p, 4) if not isinstance(p, (dict, str)) else str(p)[:200]}"


def judge(ctx, plan, c, now, x):
    k, n, d = now["kind"], *x.shape
    what = f"{k} copula {short(now)}, {n} rows drawn in {len(plan['draws'])} draws ({plan['mode']}): "
    r = np.random.RandomState(plan["seed"] + 1 & 0x7fffffff)
    if k == "empirical":
        data = np.asarray(c.data, float)
        keys, back, many = np.unique(data, axis=0, return_inverse=True, return_counts=True)
        back = {tuple(q): j for j, q in enumerate(keys)}
        hits = np.zeros(len(keys))
        for row in x:
            j = back.get(tuple(row))
            if not ctx.expect(j is not None, "no-such-row", lambda: f"{what}{row} is no row of the data"):
                return
            hits[j] += 1
        for j, h in enumerate(hits):
            binom(ctx, h, n, many[j] / len(data), 0, f"{what}row {keys[j]} of the data")
        at = np.array([back[tuple(row)] for row in x])
        serial(ctx, at < len(keys) / 2, what)
        lags(ctx, r.permutation(len(keys))[at], what + "its rows")
        return
    u = x
    if k == "marginal":
        u = np.column_stack([scipy_dist(m).cdf(x[:, j]) for j, m in enumerate(now["margins"])])
        now = now["inner"]
        k = now["kind"]
    for j in range(d):
        # the distance between empirical and uniform distribution function, bounded by Dvoretzky-Kiefer-Wolfowitz
        s = np.sort(u[:, j])
        gap = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
        ctx.expect(gap <= np.sqrt(np.log(2 / ALPHA) / (2 * n)), "margin-not-uniform", lambda: f"{what}column {j} is "
                   f"{gap:.4f} away from uniform")
        serial(ctx, u[:, j] < np.median(u[:, j]), what + f"column {j}")
        lags(ctx, u[:, j], what + f"column {j}")
        lags(ctx, abs(u[:, j] - 0.5), what + f"column {j}'s distance from the middle")
    if not (k == "frank" and now["params"] == 0):
        # what all columns of a row share: the radius of an elliptical copula, the frailty of an archimedean one
        z = scipy.special.ndtri(np.clip(u, 1e-12, 1 - 1e-12))
        lags(ctx, np.sum(z ** 2, axis=1), what + "the distance from the centre")
        lags(ctx, np.sum(np.log(-np.log(np.clip(u, 1e-300, 1 - 1e-16))), axis=1), what + "the logarithms")
    if d > 1 and n > 50:
        serial(ctx, u[:, 0] < 0.5, what + "columns 1 and 0", u[:, d - 1] < 0.5, joint=True)
    atoms = np.unique(np.round(u, 12), axis=0, return_counts=True)[1].max()
    if not (k == "frank" and now["params"] == 0):
        ctx.expect(atoms <= 3 + n // 100, "repeated-row", lambda: f"{what}one row occurs {atoms} times")
    sets = []
    for _ in range(4 if k != "student" else 2):
        cols = sorted(r.choice(d, 2, replace=False).tolist())
        sets.append([cols, np.round(r.uniform(0.05, 0.95, 2), 3)])
    sets += [[[0, d - 1], [0.1, 0.1]], [[0, 1], [0.9, 0.9]], [[0, 1], [0.5, 0.5]]]
    if d > 2:
        three = sorted(r.choice(d, 3, replace=False).tolist())
        sets += [[three, np.array([0.3, 0.4, 0.6])]]
    if d > 3 and k not in ("gaussian", "student"):
        sets += [[list(range(d)), np.full(d, 0.4)], [list(range(d)), np.full(d, 0.8)]]
    if k == "gmc":
        g = now["gmc"]
        want = []
        for cols, q in sets[:7]:
            q = np.asarray(q, float)
            z = []
            for j, qq in zip(cols, q):
                z.append(r.normal() + np.mean([m[j] for m in g["means"]]))
            at, v = [], 0.0
            for j, zz in zip(cols, z):
                at.append(sum(p * scipy.special.ndtr((zz - m[j]) / np.sqrt(s[j][j])) for p, m, s in
                              zip(g["prob"], g["means"], g["covs"])))
            for p, m, s in zip(g["prob"], g["means"], g["covs"]):
                if len(cols) == 2:
                    i, j = cols
                    v += p * bvn((z[0] - m[i]) / np.sqrt(s[i][i]), (z[1] - m[j]) / np.sqrt(s[j][j]),
                                 s[i][j] / np.sqrt(s[i][i] * s[j][j]))
            if len(cols) == 2:
                want.append([cols, at, v, 1e-7])
    else:
        p = now.get("params")
        if k in ("gaussian", "student"):
            rho = p if k == "gaussian" else p[1:]
            s = np.eye(d)
            m = 0
            for j in range(d):
                for i in range(j + 1, d):
                    s[i, j] = s[j, i] = rho[m]
                    m += 1
            p = {"sigma": s, "df": None if k == "gaussian" else p[0]}
        want = truth("indep" if k in ("clayton", "frank") and abs(p) < 1e-5 or k == "gumbel" and p - 1 < 1e-5 else k,
                     p, sets)
    for cols, at, v, slack in want:
        h = np.sum(np.all(u[:, cols] <= at, axis=1))
        binom(ctx, h, n, v, slack, f"{what}P(columns {cols} <= {np.round(at, 4).tolist()})")


def binom(ctx, h, n, p, slack, what):
    """h of n trials with probability p (known up to slack): bounded by Chernoff's inequality"""
    q = h / n
    lo, hi = max(p - slack, 0.0), min(p + slack, 1.0)
    near = min(max(q, lo), hi)
    if near == q:
        return
    if near in (0.0, 1.0):
        kl = np.inf if q != near else 0
    else:
        kl = (q * np.log(q / near) if q > 0 else 0) + ((1 - q) * np.log((1 - q) / (1 - near)) if q < 1 else 0)
    ctx.expect(n * kl <= np.log(1 / ALPHA), "wrong-frequency", lambda: f"{what} is {p:.5f}, but {q:.5f} of the rows are "
               "there")


def serial(ctx, a, what, b=None, joint=False):
    """whether a row tells something about the next one"""
    b = a if b is None else b
    n = len(a) - 1
    pa, pb = a.mean(), b.mean()
    if n < 200 or not (0.02 < pa < 0.98):
        return
    both = np.mean(b[1:] & a[:-1])
    z = (both - pa * pb) / np.sqrt(pa * (1 - pa) * pb * (1 - pb) / n)
    ctx.expect(abs(z) < 7, "rows-not-independent", lambda: f"{what}: successive rows are correlated, {z:.1f} standard "
               "deviations")


def lags(ctx, v, what):
    """whether a row tells something about the one that follows it by any number of rows"""
    n = len(v)
    if n < 1000:
        return
    a = scipy.stats.rankdata(v)
    a -= a.mean()
    sd = a.std()
    if sd == 0:
        return
    f = np.fft.rfft(a / sd, 2 * n)
    z = np.fft.irfft(f * np.conj(f), 2 * n)[1:n - 400]
    z = z / np.sqrt(np.arange(n - 1, 400, -1))
    j = int(np.argmax(abs(z)))
    ctx.expect(abs(z[j]) < 8, "rows-not-independent", lambda: f"{what}: rows {j + 1} apart are correlated, {z[j]:.1f} "
               "standard deviations")
