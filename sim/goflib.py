"""Goodness-of-fit test under the simulated pools: plans, the reference bootstrap model"""
import numpy as np
import pandas as pd
from scipy.stats import rankdata

from . import pool, probes

CHEAP = "Probe"
TIES = ["average", "min", "max", "dense", "ordinal"]


def gen_data(rng, cheap=True):
    n = rng.choice([5, 6, 8, 12, 20, 33] if cheap else [8, 12, 20])
    d = rng.choice([2, 2, 3, 4] if cheap else [2, 2, 3])
    return {"n": max(n, d + 1), "d": d, "seed": rng.randrange(1 << 30), "tie": rng.choice([0, 0, 0, 3, 5, 1]),
            "frame": rng.random() < 0.3, "rho": rng.choice([0.0, 0.4, 0.8])}


def make_data(p):
    r = np.random.RandomState(p["seed"])
    n, d = p["n"], p["d"]
    z = r.normal(size=(n, d)) * np.sqrt(1 - p["rho"]) + r.normal(size=(n, 1)) * np.sqrt(p["rho"])
    if p["tie"]:
        if p["tie"] == 1:  # a single pair
            j = r.randint(d)
            z[1, j] = z[0, j]
        else:
            at = r.permutation(d)[:r.randint(1, d + 1)]
            z[:, at] = np.round(z[:, at] * p["tie"] / 3.0)
            for j in at:  # a constant column has no correlation to invert
                if len(np.unique(z[:, j])) < 2:
                    z[0, j] += 1
    z = z * 3 + 1
    return pd.DataFrame(z, columns=[f"c{i}" for i in range(d)]) if p["frame"] else z


def gen_world(rng):
    return {"seed": rng.randrange(1 << 30), "cpu": rng.choice([1, 2, 3, 4, 8, 16, None]),
            "start": rng.choice(["fork", "fork", "spawn"]), "policy": rng.choice(["mixed", "eager", "lazy", "one"])}


def world(ctx, w, faults=()):
    return pool.World(ctx, w["seed"], w["cpu"], w["start"], faults, w["policy"])


def pobs(x, ties):
    x = np.asarray(x, float)
    return np.column_stack([rankdata(x[:, j], ties) for j in range(x.shape[1])]) / (len(x) + 1)


def statistic(cdf, u):
    emp = np.mean(np.all(u[None, :, :] <= u[:, None, :], axis=2), axis=1)
    return float(np.sum((emp - np.ravel(cdf)) ** 2))


def with_ties_of(data, sample):
    """the sample with every column's tie blocks made those of the data, by rank"""
    data = np.asarray(data, float)
    out = np.empty_like(sample)
    for j in range(data.shape[1]):
        rep = np.floor(np.sort(rankdata(data[:, j]))).astype(int) - 1
        col = np.sort(sample[:, j])
        rank = rankdata(sample[:, j], "ordinal").astype(int) - 1
        out[:, j] = col[rep[rank]]
    return out


def row_key(u):
    """a matrix up to the order of its rows, and up to rounding"""
    return tuple(sorted(map(tuple, np.round(np.asarray(u), 9).tolist())))


def close(a, b, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))))
