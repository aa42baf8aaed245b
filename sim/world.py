"""Copulas, data and operations as plain JSON: plans that can be generated, replayed, cut down and run anywhere."""
import json
import os
import pickle
import re
import struct

import numpy as np
import pandas as pd

ELLIPTICAL = ["gaussian", "student"]
ARCHIMEDEAN = ["clayton", "frank", "gumbel"]
KINDS = [*ELLIPTICAL, *ARCHIMEDEAN, "indep", "empirical", "marginal", "gmc"]
NAMES = ["alpha", "beta", "gamma", "delta", "eps"]
TIES = ["average", "min", "max", "dense", "ordinal"]


# ------------------------------------------------------------------------------------------------------- generation

def gen_rhos(rng, d, strong=False):
    """the lower triangle of a valid correlation matrix"""
    r = np.random.RandomState(rng.randrange(1 << 30))
    k = r.normal(size=(d, d)) + (3 if strong else rng.choice([0, 0, 1]))
    k = k / np.linalg.norm(k, axis=1)[:, None]
    m = k @ k.T
    w = rng.choice([0.3, 0.6, 0.9])
    m = w * m + (1 - w) * np.eye(d)
    return [round(float(m[i, j]), 6) for j in range(d) for i in range(j + 1, d)]


LIMITS = {"student": [0.05, 150.0, 9999.0, 15000.0, 1e6], "clayton": [1e-9, 1e-4, 40.0, 150.0],
          "frank": [1e-9, 1e-4, 0.009, 50.0, 300.0], "gumbel": [1 + 1e-12, 1 + 1e-9, 1.0005, 15.0, 60.0],
          "gaussian": [0.999999, -0.999999, 0.0, 1e-12]}


def gen_params(rng, kind, d, limits=0):
    """limits: how often parameters are to be near the ends of their ranges"""
    if limits and rng.random() < limits and kind in LIMITS:
        v = rng.choice(LIMITS[kind])
        if kind == "student":
            return [v, *gen_rhos(rng, d)]
        if kind == "gaussian":
            return [v, *[0.0] * (d * (d - 1) // 2 - 1)]
        return -v if d == 2 and v < 1 and kind != "gumbel" and rng.random() < 0.3 else v
    if kind == "gaussian":
        return gen_rhos(rng, d)
    if kind == "student":
        return [rng.choice([0.8, 1.0, 2.5, 4.0, 7.5, 30.0]), *gen_rhos(rng, d)]
    if kind == "clayton":
        return rng.choice([0.2, 0.5, 1.0, 2.5, 6.0] + ([-0.3, -0.7] if d == 2 else []))
    if kind == "frank":
        return rng.choice([0.5, 1.0, 3.0, 8.0, 20.0] + ([-2.0, -6.0] if d == 2 else []))
    if kind == "gumbel":
        return rng.choice([1.0, 1.1, 1.5, 2.2, 4.0])
    return None


def gen_data(rng, d, n=None, frame=None, ties=None):
    return {"d": d, "n": n or rng.choice([8, 12, 20, 35]), "seed": rng.randrange(1 << 30),
            "rho": rng.choice([0.2, 0.5, 0.8]), "frame": rng.random() < 0.4 if frame is None else frame,
            "tie": (rng.random() < 0.2) if ties is None else ties, "unit": False,
            "layout": rng.choice(["c", "c", "f", "stride", "reverse"]),
            "names": [NAMES[:d], [f"x{i}" for i in range(d)], NAMES[:d][::-1]][rng.randrange(3)]}


def gen_spec(rng, kinds=KINDS, dims=(2, 2, 3, 4), limits=0):
    kind = rng.choice(list(kinds))
    d = rng.choice(list(dims))
    s = {"kind": kind, "dim": d}
    if kind in ELLIPTICAL + ARCHIMEDEAN:
        s["params"] = gen_params(rng, kind, d, limits)
    elif kind == "empirical":
        s["data"] = gen_data(rng, d)
        s["smoothing"] = rng.choice([None, "none", "beta", "checkerboard", "beta"])
        s["ties"] = rng.choice(TIES)
        s["offset"] = rng.choice([0, 0, 1])
    elif kind == "marginal":
        s["inner"] = gen_spec(rng, [k for k in ("gaussian", "student", "clayton", "frank", "gumbel")], (d,), limits)
        s["margins"] = [rng.choice([{"type": "norm", "parameters": {"loc": 1.0, "scale": 2.0}},
                                    {"type": "expon", "parameters": {"scale": 0.5}},
                                    {"type": "t", "parameters": {"df": 5.0}},
                                    {"type": "gamma", "parameters": {"a": 2.0}}, "norm"]) for _ in range(d)]
    elif kind == "gmc":
        m = rng.choice([1, 2, 2, 3])
        r = np.random.RandomState(rng.randrange(1 << 30))
        covs = []
        for _ in range(m):
            a = r.normal(size=(d, d)) * 0.5
            covs.append(np.round(a @ a.T + np.eye(d) * 0.5, 5).tolist())
        prob = r.uniform(0.5, 1.5, m)
        s["clusters"] = m
        s["gmc"] = {"prob": (prob / prob.sum()).tolist(), "means": np.round(r.normal(size=(m, d)) * 2, 5).tolist(),
                    "covs": covs}
    elif kind == "indep":
        s["fields"] = NAMES[:d] if rng.random() < 0.3 else None
    return s


# -------------------------------------------------------------------------------------------------------- evaluation

def laid(a, layout):
    a = np.asarray(a, float)
    if layout == "f":
        return np.asfortranarray(a)
    if layout == "stride":
        big = np.full((a.shape[0] * 2, *a.shape[1:]), 0.123)
        big[::2] = a
        return big[::2]
    if layout == "reverse":
        return a[::-1].copy()[::-1]
    if layout == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


def make_data(p):
    r = np.random.RandomState(p["seed"])
    n, d = p["n"], p["d"]
    z = r.normal(size=(n, d)) * np.sqrt(1 - p["rho"]) + r.normal(size=(n, 1)) * np.sqrt(p["rho"])
    if p["unit"]:
        z = 1 / (1 + np.exp(-1.7 * z))
    elif p["tie"]:
        z[:, 0] = np.round(z[:, 0] * 2) / 2
        z[0, 0] += 1
    else:
        z = z * 2 + 1
    z = laid(z, p["layout"])
    return pd.DataFrame(z, columns=p["names"][:d]) if p["frame"] else z


def make(spec):
    import copulae as cp
    k, d = spec["kind"], spec["dim"]
    if k == "gaussian":
        c = cp.GaussianCopula(d)
        c.params = spec["params"]
    elif k == "student":
        c = cp.StudentCopula(d)
        c.params = spec["params"]
    elif k == "clayton":
        c = cp.ClaytonCopula(spec["params"], d)
    elif k == "frank":
        c = cp.FrankCopula(spec["params"], d)
    elif k == "gumbel":
        c = cp.GumbelCopula(spec["params"], d)
    elif k == "indep":
        c = cp.IndepCopula(d, spec.get("fields"))
    elif k == "empirical":
        c = cp.EmpiricalCopula(make_data(spec["data"]), smoothing=spec["smoothing"], ties=spec["ties"],
                               offset=spec["offset"])
    elif k == "marginal":
        c = cp.MarginalCopula(make(spec["inner"]), spec["margins"])
    elif k == "gmc":
        c = cp.GaussianMixtureCopula(spec["clusters"], d, {a: np.array(b) for a, b in spec["gmc"].items()})
    return c


def points(spec, seed, n, layout="c", one=False, edge=False):
    """points at which the copula of the spec can be evaluated"""
    r = np.random.RandomState(seed)
    d = spec["dim"]
    x = r.uniform(0.03, 0.97, size=(n, d))
    if spec["kind"] == "marginal":
        x = x * 3 + 0.1
    elif spec["kind"] == "gmc":
        x = x * 4 - 2
    if edge:  # on the border of where it can be evaluated, or beyond it
        at = r.uniform(size=x.shape) < 0.3
        x[at] = r.choice([0.0, 1.0, 0.0, 1.0, 1e-300, 1 - 1e-16, -0.2, 1.3, np.nan, np.inf], size=at.sum())
        if r.uniform() < 0.15:
            x = np.round(np.nan_to_num(x, posinf=1.0)).astype(int)
            return x[0] if one else x.tolist() if layout == "list" else x
    if one:
        return x[0].tolist() if layout == "list" else x[0].copy()
    if layout == "list":
        return x.tolist()
    return laid(x, layout)


class Gone(Exception):
    """an operation on a copula that was never made (in a plan that was cut down)"""


def apply(slots, op):
    """Carry out one operation on the copulas in slots; returns what the caller of the library gets"""
    kind = op["op"]
    if kind == "new":
        slots[op["slot"]] = {"spec": op["spec"], "c": make(op["spec"])}
        return None
    s = slots.get(op["slot"])
    if s is None:
        raise Gone
    c, spec = s["c"], s["spec"]
    if "gseed" in op:
        np.random.seed(op["gseed"])
    if kind == "params":
        c.params = op["params"] if op.get("form") != "array" else np.array(op["params"], float)
        return None
    if kind == "edit":
        c[index(op["index"])] = np.array(op["value"]) if isinstance(op["value"], list) else op["value"]
        return None
    if kind in ("cdf", "pdf"):
        x = points(spec, op["seed"], op["n"], op["layout"], op.get("one", False), op.get("edge", False))
        if op.get("frame") and not op.get("one"):
            x = pd.DataFrame(np.asarray(x), columns=op["frame"])
        return getattr(c, kind)(x, log=op.get("log", False))
    if kind == "log_lik":
        return c.log_lik(make_data(op["data"]))
    if kind == "random":
        return c.random(op["n"], seed=op["seed"])
    if kind == "fit":
        data = make_data(op["data"])
        c.fit(data, **fit_args(spec, op))
        return None
    if kind == "summary":
        sm = c.summary(op["category"])
        return [str(sm), sm.as_html() if hasattr(sm, "as_html") else sm._repr_html_()]
    if kind == "get":
        v = getattr(c, op["name"])
        return v() if callable(v) else v
    if kind == "call":
        return getattr(c, op["name"])(np.array(op["x"]) if isinstance(op["x"], list) else op["x"])
    if kind == "attr":
        setattr(c, op["name"], op["value"])
        return None
    raise AssertionError(kind)


def fit_args(spec, op):
    a = dict(op.get("args", {}))
    a.setdefault("verbose", 0)
    if spec["kind"] == "gmc":
        a.pop("to_pobs", None)
    return a


def index(i):
    if isinstance(i, int):
        return i
    if i == ":":
        return slice(None)
    return tuple(slice(None) if j == ":" else j for j in i)


QUIET = {"gmc": 0}


def gen_fit(rng, spec):
    d = spec["dim"]
    k = spec["kind"]
    if k == "marginal":
        k = spec["inner"]["kind"]
    data = gen_data(rng, d, n=rng.choice([12, 20, 35]))
    args = {}
    if k == "gmc":
        args = {"method": rng.choice(["kmeans", "pem", "pem", "sgd"]), "max_iter": rng.choice([3, 10, 25])}
        data["n"] = rng.choice([30, 50])
        data["tie"] = False
        data["frame"] = False
    elif k in ELLIPTICAL + ARCHIMEDEAN:
        methods = {"gaussian": ["ml", "itau", "irho"], "student": ["ml", "itau"], "clayton": ["ml", "itau", "itau"],
                   "frank": ["ml", "itau"], "gumbel": ["ml", "itau"]}[k]
        args["method"] = rng.choice(methods)
        if rng.random() < 0.3:
            args["ties"] = rng.choice(TIES[:3])
        if rng.random() < 0.15:
            args["scale"] = 2.0
        if k == "student" and spec["kind"] == "student" and rng.random() < 0.3:
            args["fix_df"] = True
        if rng.random() < 0.25 and args["method"] == "ml" and k in ARCHIMEDEAN and spec["kind"] != "marginal":
            args["optim_options"] = rng.choice([{"method": "Nelder-Mead"}, {"options": {"maxiter": 7}},
                                                {"method": "SLSQP"}])
    if k in ("gaussian", "student") and args.get("method") == "ml":
        data["d"] = d
        data["tie"] = False
    return {"op": "fit", "data": data, "args": args, "gseed": rng.randrange(1 << 30)}


def gen_query(rng, spec, draws=True, edge=0.15):
    """an operation that leaves the copula as it is"""
    k, d = spec["kind"], spec["dim"]
    kinds = ["pdf", "pdf", "cdf", "summary", "get"] + (["random", "random"] if draws else [])
    if k in ARCHIMEDEAN:
        kinds += ["call", "call"]
    if k in ELLIPTICAL:
        kinds += ["call", "log_lik"]
    q = rng.choice(kinds)
    if q == "cdf" and k == "student" or q == "cdf" and k == "marginal" and spec["inner"]["kind"] == "student":
        q = "pdf"
    if q in ("pdf", "cdf"):
        op = {"op": q, "seed": rng.randrange(1 << 30), "n": rng.choice([1, 2, 5, 9]),
              "layout": rng.choice(["c", "f", "stride", "reverse", "list", "readonly"]), "log": rng.random() < 0.3}
        if edge and rng.random() < edge:
            op["edge"] = True
        if rng.random() < 0.2:
            op["one"] = True
        elif rng.random() < 0.15:
            op["frame"] = NAMES[:d] if rng.random() < 0.6 else [f"x{i}" for i in range(d)]
        return op
    if q == "random":
        return {"op": "random", "n": rng.choice([1, 2, 3, 7, 20]), "seed": rng.randrange(1 << 31)}
    if q == "summary":
        return {"op": "summary", "category": rng.choice(["copula", "fit"])}
    if q == "log_lik":
        return {"op": "log_lik", "data": gen_data(rng, d)}
    if q == "get":
        names = ["params", "dim", "name", "bounds"]
        if k in ELLIPTICAL:
            names += ["sigma", "tau", "rho", "lambda_", "sigma"]
        if k in ARCHIMEDEAN:
            names += ["tau", "tau", "lambda_", "rho"]
        if k == "empirical":
            names += ["data", "smoothing", "ties"]
        if k == "gmc":
            names += ["clusters"]
        return {"op": "get", "name": rng.choice(names)}
    xs = [round(rng.uniform(0.05, 0.95), 6) for _ in range(rng.choice([1, 2, 5]))]
    x = xs[0] if len(xs) == 1 and rng.random() < 0.5 else xs
    name = rng.choice(CALLS[k])
    if k == "frank" and name == "itau":
        x = round(rng.uniform(0.1, 0.8), 4)
    return {"op": "call", "name": name, "x": x}


def queries(kinds=KINDS):
    """what there is to ask of copulas of each kind: [kind, operation, name]"""
    out = []
    for k in kinds:
        out += [[k, q, None] for q in ("pdf", "cdf", "random")]
        out += [[k, "summary", c] for c in ("copula", "fit")]
        names = ["params", "bounds"] + (["sigma", "tau", "rho", "lambda_"] if k in ELLIPTICAL else []) + \
            (["tau", "lambda_", "rho"] if k in ARCHIMEDEAN else []) + (["data"] if k == "empirical" else [])
        out += [[k, "get", n] for n in names]
        out += [[k, "call", n] for n in CALLS.get(k, [])]
        if k in ELLIPTICAL:
            out.append([k, "log_lik", None])
    return out


def query(rng, spec, q, name):
    """an operation of the given sort"""
    if q == "log_lik" or q == "get":
        return {"op": q, "name": name, "data": gen_data(rng, spec["dim"])}
    while True:
        op = gen_query(rng, spec)
        if q == "cdf" and op["op"] == "pdf":
            op["op"] = "cdf"
        if op["op"] == q and (name is None or op.get("name", op.get("category")) == name):
            return op


def near(rng, spec):
    """a copula that is almost the same: what mistakes one for the other is found out"""
    s = json.loads(json.dumps(spec))
    e = rng.choice([1e-9, 1e-6, 1e-5, 1e-4, 1e-3])

    def move(v):
        if isinstance(v, list):
            return [move(x) for x in v]
        return v * (1 + e) if v >= 1 else v * (1 - e)
    if s["kind"] == "marginal":
        s["inner"] = near(rng, s["inner"])
    elif s["kind"] == "gmc":
        s["gmc"]["means"] = move(s["gmc"]["means"])
    elif s["kind"] == "empirical":
        s["data"]["rho"] *= 1 - e
    elif s.get("params") is not None:
        s["params"] = move(s["params"])
    return s


CALLS = {"clayton": ["itau", "psi", "ipsi", "dipsi", "dtau"], "frank": ["itau", "psi", "ipsi", "dtau"],
         "gumbel": ["itau", "psi", "ipsi", "dipsi", "dtau"], "gaussian": ["itau", "irho", "drho", "dtau"],
         "student": ["itau", "drho", "dtau"]}


def gen_change(rng, spec):
    """an operation that changes the copula"""
    k, d = spec["kind"], spec["dim"]
    if k in ELLIPTICAL and rng.random() < 0.4:
        v = round(rng.uniform(-0.95, 0.95), 4)
        i, j = rng.sample(range(d), 2)
        return {"op": "edit", "index": rng.choice([rng.randrange(d * (d - 1) // 2), [i, j], [i, j]]), "value": v}
    if k in ELLIPTICAL + ARCHIMEDEAN and rng.random() < 0.5:
        return {"op": "params", "params": gen_params(rng, k, d, 0.1), "form": rng.choice(["list", "array"])
                if k in ELLIPTICAL else "list"}
    if k == "empirical":
        if rng.random() < 0.5:
            return {"op": "attr", "name": "smoothing", "value": rng.choice(["none", "beta", "checkerboard"])}
        return {"op": "attr", "name": "ties", "value": rng.choice(TIES)}
    return gen_fit(rng, spec)


def loose(spec, op):
    """how far two evaluations of the same thing may be apart"""
    kind = spec["kind"]
    if op["op"] == "cdf" and spec["dim"] > 2 and (kind in ("gaussian", "gmc") or
                                                  kind == "marginal" and spec["inner"]["kind"] == "gaussian"):
        return 1e-2  # scipy integrates by quasi Monte Carlo with a generator of its own
    if op["op"] == "fit":
        return 1e-6
    return 1e-9


# --------------------------------------------------------------------------------------------------------- outcomes

def plain(v, depth=0):
    """a value as nested lists, with array and frame types noted"""
    if isinstance(v, str):
        return re.sub(r"0x[0-9a-f]+", "0x", v)
    if isinstance(v, (bool, type(None))):
        return v
    if isinstance(v, (int, float, np.number, np.bool_)):
        return float(v)
    if v is NotImplemented:
        return "NotImplemented"
    if isinstance(v, complex):
        return ["complex", v.real, v.imag]
    if isinstance(v, pd.DataFrame):
        return ["frame", [str(c) for c in v.columns], list(v.shape), np.asarray(v, float).ravel().tolist()]
    if isinstance(v, pd.Series):
        return ["array", [len(v)], np.asarray(v, float).ravel().tolist()]
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["objects", [plain(x, depth + 1) for x in v.ravel()]]
        return ["array", list(v.shape), np.asarray(v, float).ravel().tolist()]
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if hasattr(v, "covs") and hasattr(v, "means"):
        return {"prob": plain(v.prob), "means": plain(v.means), "covs": plain(v.covs)}
    if hasattr(v, "best_params"):
        return {"best": plain(v.best_params), "converged": bool(v.has_converged), "method": v.method, "n": v.nsample,
                "setup": plain(v.setup)}
    if hasattr(v, "log_lik") and hasattr(v, "nsample"):
        return {"params": plain(v.params), "method": v.method, "log_lik": plain(v.log_lik), "n": v.nsample}
    return f"<{type(v).__name__}>"


def same(a, b, tol=1e-9):
    if isinstance(a, str) and isinstance(b, str):
        return a == b or (tol and same_text(a, b, tol))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b or a == b
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1e-3, abs(a), abs(b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return same(float(a), float(b), tol)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return False


def same_text(a, b, tol):
    """texts that are equal up to the last digits of the numbers in them"""
    num = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")
    if num.sub("#", a).split() != num.sub("#", b).split():
        return False
    xs, ys = num.findall(a), num.findall(b)
    return all(same(float(x), float(y), max(tol, 1e-5)) for x, y in zip(xs, ys))


def outcome(fn):
    """what a caller sees: ["ok", value] or ["error", type]"""
    old = np.seterr(all="ignore")
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ["ok", plain(fn())]
    except Gone:
        return ["gone"]
    except Exception as e:
        return ["error", type(e).__name__]
    finally:
        np.seterr(**old)


PROBE_SEED = 20240607


def respec(c, spec):
    """what it takes to make a copula with the same parameters"""
    k = spec["kind"]
    s = dict(spec)
    if k == "gaussian":
        s["params"] = np.ravel(c.params).tolist()
    elif k == "student":
        s["params"] = [float(c.params.df), *np.ravel(c.params.rho).tolist()]
    elif k in ARCHIMEDEAN:
        s["params"] = float(c.params)
    elif k == "gmc":
        s["gmc"] = plain_gmc(c.params)
    elif k == "empirical":
        s["smoothing"], s["ties"] = c.smoothing, c.ties
    elif k == "marginal":
        p = c.params
        inner = type("Inner", (), {"params": p["copula"]})
        s["inner"] = respec(inner, spec["inner"])
        s["margins"] = [{"type": m["type"], "parameters": {a: float(b) for a, b in m["parameters"].items()}}
                        for m in p["marginals"]]
    return s


def bare(o):
    """an outcome without the labels of frames"""
    if isinstance(o, list) and len(o) == 4 and o[0] == "frame":
        return ["array", *o[2:]]
    if isinstance(o, list) and len(o) == 3 and o[0] == "array":
        return o
    if isinstance(o, list):
        return [bare(x) for x in o]
    return o


def plain_gmc(p):
    return {"prob": np.asarray(p.prob).tolist(), "means": np.asarray(p.means).tolist(),
            "covs": np.asarray(p.covs).tolist()}


def visible(c, spec):
    """all that can be seen of a copula from outside, by reading only"""
    out = {"params": outcome(lambda: c.params), "dim": c.dim, "name": c.name, "bounds": outcome(lambda: c.bounds),
           "summary": outcome(lambda: str(c.summary("copula"))), "fit": outcome(lambda: c.summary("fit")),
           "fit-text": outcome(lambda: str(c.summary("fit"))),
           "draw": outcome(lambda: c.random(3, seed=PROBE_SEED)),
           "pdf": outcome(lambda: c.pdf(points(spec, 5, 2)))}
    k = spec["kind"]
    if k in ELLIPTICAL:
        out["sigma"] = outcome(lambda: c.sigma)
    if k == "empirical":
        out.update({n: outcome(lambda n=n: getattr(c, n)) for n in ("data", "smoothing", "ties")})
    return out


def differs(a, b, tol=1e-9):
    """the keys in which two visible states differ"""
    return [k for k in sorted(set(a) | set(b)) if not same(a.get(k), b.get(k), tol)]


def fit_differs(a, b, tol=1e-6):
    """The same for states after a fit. The last bits of sums depend on where arrays lie in memory, and where the
    likelihood is flat an optimizer turns them into different parameters; their likelihood is the same then"""
    diff = differs(a, b, tol)
    if diff:
        x, y = a.get("fit"), b.get("fit")
        if x and y and x[0] == y[0] == "ok" and isinstance(x[1], dict) and isinstance(y[1], dict):
            u, v = x[1], y[1]
            if u.get("method") == v.get("method") and u.get("n") == v.get("n") and level(u) is not None and \
                    level(v) is not None and abs(level(u) - level(v)) <= 1e-3 * max(1.0, abs(level(u))):
                return []
    return diff


def level(report):
    v = report.get("log_lik")
    if v is None and isinstance(report.get("setup"), dict):
        v = report["setup"].get("Log. Likelihood")
    return v if isinstance(v, float) and np.isfinite(v) else None


# --------------------------------------------------------------------------------------- an oracle in a fresh process

class Pristine:
    """Evaluates functions of this module in processes in which the library has never been used"""

    def __init__(self):
        rq, wq = os.pipe()
        ra, wa = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(wq)
            os.close(ra)
            try:
                self._serve(rq, wa)
            finally:
                os._exit(0)
        os.close(rq)
        os.close(wa)
        self.w, self.r = wq, ra

    @staticmethod
    def _read(fd):
        def take(n):
            b = b""
            while len(b) < n:
                x = os.read(fd, n - len(b))
                if not x:
                    raise EOFError
                b += x
            return b
        n, = struct.unpack("<I", take(4))
        return pickle.loads(take(n))

    @staticmethod
    def _send(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack("<I", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def _serve(self, rq, wa):
        while True:
            try:
                req = self._read(rq)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self._send(wa, req[0](*req[1:]))
                except BaseException as e:
                    try:
                        self._send(wa, ["oracle-failed", repr(e)])
                    except BaseException:
                        pass
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, fn, *args):
        self._send(self.w, (fn, *args))
        out = self._read(self.r)
        if isinstance(out, list) and out and out[0] == "oracle-failed":
            raise RuntimeError(out[1])
        return out

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def replay_ops(ops, want):
    """run the operations in order; the outcomes of those whose position is in want"""
    slots = {}
    out = {}
    for i, op in enumerate(ops):
        o = outcome(lambda: apply(slots, op))
        if i in want:
            out[i] = o
    return out


def replay_visible(ops, slot):
    slots = {}
    for op in ops:
        outcome(lambda: apply(slots, op))
    s = slots.get(slot)
    return None if s is None else visible(s["c"], s["spec"])
