import ctypes
import warnings

import numpy as np
import pandas as pd
from scipy.stats import binom, rankdata

from .. import faults as F
from .. import functions as FN

PROP = "C16"
VARIANT = "rand"
RUNS = {"quick": 1100, "thorough": 20000}
RUN_TIMEOUT = 90
LISTS = ["between"]
RULE = ("a seed gives data and options of one symmetry test, the stream of the C library's random numbers, what else "
        "is done before it is run again and an interrupt; nontrivial: the p-value was compared with that of the null "
        "distribution")
STEPS = "replicates of the tests"
STATES = "test, shape, ties, options, stream, p-value"
REAL = ["copulae.gof, with everything that it calls"]
SIMULATED = ["the C library's random numbers, as the compiled tests see them"]
ASSUMPTIONS = ["p-values of tied data are compared for average ranks only",
               "a p-value fails only if its null distribution gives it with probability below 1e-9"]
LIBS = []
ALPHA = 1e-9


def after_import():
    import copulae.gof._exchangeability as a
    import copulae.gof._radial_symmetry as b
    for m in (a, b):
        lib = ctypes.CDLL(m.__file__)
        lib.randsim_config.argtypes = [ctypes.c_uint64, ctypes.c_int]
        lib.randsim_draws.restype = ctypes.c_uint64
        LIBS.append(lib)


def stream(seed, mode=0):
    for k, lib in enumerate(LIBS):
        lib.randsim_config(seed + k, mode)


def gen(rng, i, tier):
    test = rng.choice(["radial", "radial", "exch-ties", "exch"])
    p = {"test": test, "seed": rng.randrange(1 << 30), "stream": rng.randrange(1 << 60),
         "mode": rng.choice([0] * 8 + [1, 2]), "ties": "average", "m": 0,
         "frame": rng.random() < 0.3, "global": rng.randrange(1 << 31),
         "dep": rng.choice([0.0, 0.5, 0.9, -0.6]), "shape": rng.choice(["plain", "plain", "skew", "symmetric", "same", "echo"])}
    if test == "radial":
        p.update(n=rng.choice([3, 7, 7, 7, 15, 31, 40, 66]), d=rng.choice([2, 2, 3, 4, 1]), tie=rng.choice([0, 0, 2, 3, 5]))
    elif test == "exch-ties":
        p.update(n=rng.choice([4, 5, 6, 7, 7, 8, 16, 40, 66]), d=2, tie=rng.choice([2, 3, 4, 5]))
    else:
        p.update(n=rng.choice([5, 6, 7, 8, 10, 12, 20, 33, 66]), d=2, tie=0)
    if test != "radial":
        p["m"] = rng.choice([0, 0, 0, 1, 2, 3, 5, 7])
    if rng.random() < 0.15:
        p["ties"] = rng.choice(["min", "max", "dense", "ordinal"])
    p["N"] = rng.choice([1, 2, 5, 60]) if rng.random() < 0.2 else rng.choice([400, 1000, 2500])
    if p["test"] != "exch" and p["n"] > 16:
        p["N"] = min(p["N"], 1000)
    if p["shape"] == "echo":  # observations that are nearly equal to others some places away: their coins must not be
        p["lag"] = rng.choice([1, 2, 4, 8, 16, 31, 31, 32, 32])
        p["n"] = max(p["n"], rng.choice([2, 2, 3]) * p["lag"])
    p["between"] = []
    for _ in range(rng.randint(0, 3)):
        op = FN.gen(rng, heavy=False)
        if op["fn"] != "gof.gof_copula":
            p["between"].append(op)
    p["interrupt"] = [rng.randint(1, 60), rng.choice(sorted(F.EXC))] if rng.random() < 0.4 else None
    return p


def make(p):
    r = np.random.RandomState(p["seed"])
    n, d = p["n"], p["d"]
    z = r.normal(size=(n, d))
    for j in range(1, d):
        z[:, j] = p["dep"] * z[:, 0] + np.sqrt(1 - p["dep"] ** 2) * z[:, j]
    if p["shape"] == "skew":
        z = np.exp(2 * z)
        z[:, -1] = z[:, -1] + z[:, 0] ** 2
    elif p["shape"] == "same":
        z = np.repeat(z[:, :1], d, axis=1)
    elif p["shape"] == "echo":
        z = np.exp(z)
        z[:, -1] += z[:, 0] ** 2
        z = z[np.arange(n) % p["lag"]] + r.normal(size=(n, d)) * 1e-5
    elif p["shape"] == "symmetric" and p["test"] == "radial":
        z[n - n // 2:] = -z[:n // 2][::-1]
        if n % 2:
            z[n // 2] = 0
    elif p["shape"] == "symmetric":
        h = n // 2
        z[h:2 * h] = z[:h, ::-1]
        if n % 2:
            z[-1] = z[-1, 0]
    if p["tie"]:
        at = r.permutation(d)[:r.randint(1, d + 1)]  # ties in any of the columns
        z[:, at] = np.round(z[:, at] * p["tie"] / 3)
        z[n - 1, at[0]] = z[0, at[0]]
    return z


def pobs(x, ties="average"):
    return np.column_stack([rankdata(x[:, j], ties) for j in range(x.shape[1])]) / (len(x) + 1)


def radial_stat(u):
    low = np.all(u[:, None, :] <= u[None, :, :], axis=2).sum(0)
    up = np.all(1.0 - u[:, None, :] <= u[None, :, :], axis=2).sum(0)
    return float(np.sum(((low - up) / len(u)) ** 2))


def exch_stat(u, g):
    a = np.all(u[:, None, :] <= g[None, :, :], axis=2).sum(0)
    b = np.all(u[:, None, :] <= g[None, :, ::-1], axis=2).sum(0)
    return float(np.sum(((a - b) / len(u)) ** 2) * len(u) / len(g))


def tie_blocks(u):
    return np.column_stack([np.floor(rankdata(np.sort(u[:, j]))) for j in range(u.shape[1])]).astype(int) - 1


def retie(ub, blocks, kind):
    """give every column the ties of the data; which of two equal entries comes first is for the sort to say"""
    for j in range(ub.shape[1]):
        ub = ub[np.argsort(np.ascontiguousarray(ub[:, j]), kind=kind)].copy()
        ub[:, j] = ub[blocks[:, j], j]
    return ub


def replicate(p, u, blocks, coin, tied, kind, g):
    coin = coin[:, None].astype(bool)
    if p["test"] == "radial":
        ub = np.where(coin, 1 - u, u)
        if tied:
            ub = retie(ub, blocks, kind)
        return radial_stat(pobs(ub))
    ub = pobs(retie(np.where(coin, u[:, ::-1], u), blocks, kind))
    return exch_stat(ub, g if p["m"] else ub)


def grid(m):
    x = np.linspace(1 / m, 1 - 1 / m, m)
    return np.stack([np.tile(x, m), np.repeat(x, m)]).T


def multiplier_null(u, g, size, r):
    """a sample of the statistic's multiplier process"""
    n = len(u)
    h = 1 / np.sqrt(n)

    def cn(x, y):
        return np.mean((u[:, 0] <= x) & (u[:, 1] <= y))

    def d1(x, y):
        x = min(max(x, h), 1 - h)
        return (cn(x + h, y) - cn(x - h, y)) / (2 * h)

    def d2(x, y):
        y = min(max(y, h), 1 - h)
        return (cn(x, y + h) - cn(x, y - h)) / (2 * h)

    rows = []
    for x, y in g:
        U, V = u.T
        rows.append(((U <= x) * (V <= y) - d1(x, y) * (U <= x) - d2(x, y) * (V <= y)
                     - (U <= y) * (V <= x) + d1(y, x) * (U <= y) + d2(y, x) * (V <= x)) / np.sqrt(n))
    z = r.normal(size=(size, n))
    z -= z.mean(1, keepdims=True)
    return np.mean((z @ np.array(rows).T) ** 2, axis=1)


def call(p, x, N=None):
    from copulae.gof import exch_test, rad_sym_test
    N = p["N"] if N is None else N
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if p["test"] == "radial":
            return rad_sym_test(pd.DataFrame(x) if p["frame"] else x, N=N, ties=p["ties"])
        return exch_test(x[:, 0], x[:, 1], N=N, m=p["m"], ties=p["ties"])


def run(plan, ctx):
    p = plan
    np.seterr(all="ignore")
    x = make(p)
    keep = x.copy()
    n, N = p["n"], p["N"]
    stream(p["stream"], p["mode"])
    np.random.seed(p["global"])
    was = np.random.get_state()[1].copy(), np.random.get_state()[2]
    res = call(p, x)
    now = np.random.get_state()
    ctx.steps += N
    what = f"{p['test']} test of {n} x {p['d']}, ties {p['ties']}, m={p['m']}, N={N}"
    ctx.event(what, float(res.statistic), float(res.p_value))
    ctx.state(what, p["tie"], p["mode"], round(float(res.p_value), 3))
    if p["mode"]:
        ctx.fault("random numbers stuck at " + ("zero" if p["mode"] == 1 else "the maximum"))
    ctx.expect(np.array_equal(x, keep), "data-changed", f"{what} wrote to its data")
    ctx.expect(np.array_equal(was[0], now[1]) and was[1] == now[2], "random-state-changed",
               f"{what} changed the process-wide random state")
    ctx.expect(len(res) == 3 and isinstance(res.method, str) and np.isfinite(res.statistic), "malformed", f"{what}: {res}")

    count = res.p_value * (N + 1) - 0.5
    ctx.expect(abs(count - round(count)) < 1e-6 and -1e-6 < count < N + 1e-6, "not-a-count", lambda: f"{what}: p-value "
               f"{res.p_value} is not (k + 0.5) / (N + 1) for a number k of {N} replicates")
    if ctx.violations:
        return
    count = int(round(count))

    # the statistic
    u = pobs(x, p["ties"])
    g = grid(p["m"]) if p["m"] else u
    near = np.abs(u[:, None, :, None] - g[None, :, None, :])
    if p["test"] != "radial" and np.any((near > 0) & (near < 1e-12)):
        ctx.count("grid too near to the data")
        return
    s = radial_stat(u) if p["test"] == "radial" else exch_stat(u, g)
    ctx.expect(abs(s - res.statistic) <= 1e-9 * (1 + abs(s)), "statistic", lambda: f"{what}: {res.statistic}, the data "
               f"give {s}")
    if ctx.violations:
        return

    # the p-value
    tied = any(len(np.unique(x[:, j])) != n for j in range(p["d"]))
    eps = 1e-9 * (1 + s)
    model = False
    if p["test"] == "exch" and not tied:
        s0 = multiplier_null(u, g, 20000, np.random.RandomState(p["seed"] ^ 5))
        lo, hi, size = np.mean(s0 > s + eps), np.mean(s0 >= s - eps), len(s0)
        model = True
    elif p["ties"] == "average" and (tied or p["test"] == "radial"):
        blocks = tie_blocks(u)
        exact = n <= 8
        if p["mode"]:
            coins = np.array([np.zeros(n), np.ones(n)])
        elif exact:
            coins = (np.arange(2 ** n)[:, None] >> np.arange(n)) & 1
        else:
            coins = np.random.RandomState(p["seed"] ^ 6).randint(0, 2, size=(1500, n))
        los, his = [], []
        for kind in ["quicksort", "stable"] if tied else ["stable"]:
            s0 = np.array([replicate(p, u, blocks, c, tied, kind, g) for c in coins])
            ident = np.all(coins == 0, axis=1) & (not tied)
            los.append((s0 > s + eps) | (ident & (s0 >= s - eps)))
            his.append(s0 >= s - eps)
        if p["mode"]:
            ok = (count == 0 and not all(a.all() for a in los)) or (count == N and any(a.any() for a in his))
            ctx.expect(ok, "p-value", lambda: f"{what}: with random numbers stuck {count} of {N} replicates reach the "
                       f"statistic, the replicates can be {his}")
            ctx.nontrivial = True
        else:
            lo, hi = min(np.mean(a) for a in los), max(np.mean(a) for a in his)
            size = None if exact else len(coins)
            model = True
    if model and not p["mode"] or p["test"] == "exch" and model:
        ctx.nontrivial = True
        if size:  # the reference is a sample itself: how far the truth may lie from it
            slack = 6.5 * np.sqrt(0.25 / size)
            lo, hi = max(0.0, lo - slack), min(1.0, hi + slack)
        below = binom.cdf(count, N, max(0.0, lo - 1e-12))
        above = binom.sf(count - 1, N, min(1.0, hi + 1e-12))
        ctx.expect(min(below, above) > ALPHA, "p-value", lambda: f"{what}: {count} of {N} replicates reach the statistic "
                   f"{s}, the null distribution says {lo * N:.1f} to {hi * N:.1f}")
        ctx.event("null", round(float(lo), 6), round(float(hi), 6))
    if ctx.violations:
        return

    # the same test again, after other things and a test that did not complete
    for op in p["between"]:
        FN.perform(op)
    if p["interrupt"]:
        at, exc = p["interrupt"]
        lines = F.Lines({at: F.thrower(exc)})
        try:
            with lines:
                call(p, x, min(N, 60))
        except BaseException as e:
            if not lines.where:
                ctx.violation("fails", f"{what}: {type(e).__name__}: {e}")
                return
            ctx.fault("interrupted")
    stream(p["stream"], p["mode"])
    again = call(p, keep.copy())
    ctx.expect(again.statistic == res.statistic and again.p_value == res.p_value, "differs-when-repeated", lambda:
               f"{what}: {tuple(res)[:2]}, later {tuple(again)[:2]} with the same random numbers")
    if p["test"] == "exch" and not tied:
        stream(p["stream"] ^ 77, p["mode"])
        np.random.seed(p["global"] ^ 99)
        again = call(p, keep.copy())
        ctx.expect(again.p_value == res.p_value, "not-standardized", lambda: f"{what}: p-value {res.p_value}, with "
                   f"another random state {again.p_value}")
    ctx.expect(np.array_equal(x, keep), "data-changed", f"{what} wrote to its data")
