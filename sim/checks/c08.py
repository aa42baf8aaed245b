import copy

import numpy as np

from .. import faults as F
from .. import world as W

PROP = "C08"
RUNS = {"quick": 2400, "thorough": 40000}
RUN_TIMEOUT = 60
LISTS = ["ops"]
RULE = ("a seed gives an elliptical copula and four to fourteen edits of its correlations, valid and not, some of them "
        "interrupted at a chosen line of the library; nontrivial: at least one edit was interrupted half way or "
        "rejected, and another one was accepted")
STEPS = "lines of the library executed by edits that were to be interrupted"
STATES = "form of the edit, how it ended, whether the matrix asked for was valid"
REAL = ["the elliptical copulas and their linear algebra"]
SIMULATED = ["when an interrupt, an exhausted memory or another asynchronous exception strikes"]
ASSUMPTIONS = ["interrupts strike between lines of the library's Python code"]


def gen(rng, i, tier):
    spec = W.gen_spec(rng, W.ELLIPTICAL, (2, 3, 3, 4, 5))
    d = spec["dim"]
    ops = []
    for _ in range(rng.randint(4, 14)):
        f = rng.choice(["pair", "pair", "pair", "flat", "flat", "row", "col", "all", "all", "params", "bad"])
        v = rng.choice([round(rng.uniform(-1, 1), 4), round(rng.uniform(-1, 1), 4), 0.95, -0.95, 1, -1, 0, 0.0, 1.0])
        dt = rng.choice(["float", "float", "float", "int", "list", "float32"])
        if f == "pair":
            a, b = rng.sample(range(d), 2)
            op = {"index": [a, b], "value": v}
        elif f == "flat":
            op = {"index": rng.randrange(-1 if rng.random() < 0.1 else 0, d * (d - 1) // 2), "value": v}
        elif f in ("row", "col"):
            a = rng.randrange(d)
            vec = v if rng.random() < 0.3 else [rng.choice([1.0, v, round(rng.uniform(-1, 1), 3)]) for _ in range(d)]
            op = {"index": [a, ":"] if f == "row" else [":", a], "value": vec}
        elif f == "all":
            op = {"index": rng.choice([":", [":", ":"]]), "value": matrix(rng, d), "dtype": dt}
        elif f == "params":
            op = {"params": W.gen_params(rng, spec["kind"], d), "form": rng.choice(["list", "array"])}
        else:
            op = rng.choice([
                {"index": [0, 1], "value": "nan"}, {"index": [0, 1], "value": 1.2}, {"index": 0, "value": -1.01},
                {"index": [0, 0], "value": 0.3}, {"index": [0, d], "value": 0.3}, {"index": [-1, 0], "value": 0.3},
                {"index": d * (d - 1) // 2, "value": 0.1}, {"index": [0, 1, 0], "value": 0.1},
                {"index": [0, ":"], "value": [0.1] * (d + 1)}, {"index": [":", 0], "value": [0.2] * (d - 1) + [1.5]},
                {"index": [":", 1], "value": ["nan"] + [0.1] * (d - 1)}, {"index": [1, ":"], "value": [0.9] * (d - 1)},
                {"index": ":", "value": np.eye(d + 1).tolist()},
                {"index": ":", "value": asymmetric(rng, d)}, {"index": ":", "value": hollow(rng, d)},
                {"index": ":", "value": [[1.0 if a == b else 1.3 for a in range(d)] for b in range(d)]}])
            op = dict(op, bad=True)
        op["fault"] = None
        if rng.random() < 0.35:
            op["fault"] = {"exc": rng.choice(["interrupt", "memory", "error", "recursion"]), "at": rng.random()}
        ops.append(op)
    return {"spec": spec, "ops": ops}


def matrix(rng, d):
    kind = rng.choice(["valid", "valid", "eye", "broken"])
    if kind == "eye":
        return np.eye(d, dtype=int).tolist()
    m = np.eye(d)
    if kind == "valid":
        r = W.gen_rhos(rng, d)
        k = 0
        for j in range(d):
            for i in range(j + 1, d):
                m[i, j] = m[j, i] = r[k]
                k += 1
    else:
        for j in range(d):
            for i in range(j + 1, d):
                m[i, j] = m[j, i] = rng.choice([-0.99, 0.99, 0.5])
    return m.tolist()


def asymmetric(rng, d):
    m = np.eye(d)
    m[0, 1] = 0.4
    m[1, 0] = -0.3
    return m.tolist()


def hollow(rng, d):
    m = np.full((d, d), round(rng.uniform(0.1, 0.9), 2))
    np.fill_diagonal(m, 0.0)
    return m.tolist()


def value_of(op):
    v = op["value"]
    if isinstance(v, list):
        v = np.array([[float(x) for x in r] if isinstance(r, list) else float(r) for r in v])
        dt = op.get("dtype", "float")
        if dt == "list":
            return v.tolist()
        if dt == "int" and np.array_equal(v, v.astype(int)):
            return v.astype(int)
        if dt == "float32":
            return v.astype(np.float32)
        return v
    return float(v) if isinstance(v, str) else v


def perform(c, op):
    if "params" in op:
        p = op["params"]
        c.params = p if op["form"] == "list" else np.array(p)
    else:
        c[W.index(op["index"])] = value_of(op)


def state(c):
    p = c.params
    rho = np.array(getattr(p, "rho", p), float)
    return {"rho": rho.tolist(), "df": float(getattr(p, "df", 0)), "sigma": np.array(c.sigma, float).tolist()}


def layout(spec):
    """which entry of the parameters is which pair, as the library itself shows it"""
    c = W.make(spec)
    d = spec["dim"]
    k = d * (d - 1) // 2
    vals = [(i + 1) / 1000 for i in range(k)]
    c.params = vals if spec["kind"] == "gaussian" else [3.0, *vals]
    s = np.array(c.sigma)
    return {(i, j): vals.index(round(float(s[i, j]), 6)) for i in range(d) for j in range(d) if i != j}


def requested(before, op, where, d):
    """the matrix asked for, or None if the request has no plain meaning"""
    m = np.array(before["sigma"])
    if "params" in op:
        p = op["params"]
        rho = p if len(p) == d * (d - 1) // 2 and not isinstance(p, tuple) else p[1:]
        for (i, j), k in where.items():
            m[i, j] = rho[k]
        return m
    idx, v = op["index"], np.asarray(value_of(op), float)
    if isinstance(idx, int):
        if idx < 0:
            return None
        for (i, j), k in where.items():
            if k == idx:
                m[i, j] = v
    elif idx == ":" or idx == [":", ":"]:
        m = np.array(v, float)
    elif ":" in idx:
        a = idx[0] if idx[1] == ":" else idx[1]
        for b in range(d):
            if b != a:
                m[a, b] = m[b, a] = v if v.ndim == 0 else v[b]
    else:
        m[idx[0], idx[1]] = m[idx[1], idx[0]] = v
    return m


def clipped(m):
    w, q = np.linalg.eigh(m)
    x = q @ np.diag(np.maximum(w, 1e-15)) @ q.T
    s = np.sqrt(np.diag(x))
    return x / np.outer(s, s)


def run(plan, ctx):
    spec = plan["spec"]
    d = spec["dim"]
    where = layout(spec)
    c = W.make(spec)
    cut = done = False
    np.seterr(all="ignore")
    for n, op in enumerate(plan["ops"]):
        before = state(c)
        full = None
        fault = op["fault"]
        result = "ok"
        what = f"edit {n} ({op.get('index', 'params')} = {op.get('value', op.get('params'))}) of {before['rho']}"
        if fault:
            twin = copy.deepcopy(c)
            with F.Lines() as t:
                try:
                    perform(twin, op)
                except Exception as e:
                    full = None
                else:
                    full = state(twin)
            if t.n == 0:
                fault = None
            else:
                at = 1 + int(fault["at"] * t.n)
                ctx.steps += t.n
        try:
            if fault:
                with F.Lines({at: F.thrower(fault["exc"])}) as t:
                    perform(c, op)
            else:
                perform(c, op)
        except (Exception, KeyboardInterrupt) as e:
            result = "interrupted" if fault and "injected" in str(e) else type(e).__name__
        if result == "interrupted":
            ctx.fault(fault["exc"])
        after = state(c)
        ctx.event(n, op.get("index", "params"), result, after["rho"])
        same = W.same(before, after, 1e-12)
        if result == "interrupted":
            cut = True
            ctx.expect(same or (full is not None and all(
                any(W.same({k: after[k] for k in ks}, {k: side[k] for k in ks}, 1e-9) for side in (before, full))
                for ks in (["rho", "sigma"], ["df"]))), "half-done",
                       lambda: f"{what}, {fault['exc']} at {t.where}: the correlations are neither the old ones nor "
                               f"the new ones: {after['rho']}, new ones {full and full['rho']}")
        elif result != "ok":
            cut = True
            ctx.expect(same, "rejected-but-changed", lambda: f"{what} raised {result} and left {after['rho']}")
            ctx.expect(op.get("bad"), "valid-edit-rejected", lambda: f"{what} raised {result}")
        else:
            done = True
            ctx.expect(not op.get("bad"), "invalid-edit-accepted", lambda: f"{what} was accepted: {after['rho']}")
            want = None if op.get("bad") else requested(before, op, where, d)
            if want is not None:
                low = np.linalg.eigvalsh(want).min()
                got = np.array(after["sigma"])
                if low >= 0:
                    ctx.expect(np.allclose(got, want, rtol=0, atol=1e-7 if op.get("dtype") == "float32" else 1e-9),
                               "not-as-asked", lambda: f"{what} gave {got.tolist()}, asked for {want.tolist()}")
                elif low < -1e-9 and "params" not in op:
                    far = np.linalg.norm(clipped(want) - want)
                    ctx.expect(np.linalg.norm(got - want) <= 3 * far + 1e-6, "far-from-asked",
                               lambda: f"{what} gave {got.tolist()}, asked for {want.tolist()}, which is {far:.4f} from "
                                       "a valid matrix")
                ctx.state(op.get("index", "params"), result, bool(low >= 0))
            if "params" not in op and spec["kind"] == "student":
                ctx.expect(after["df"] == before["df"], "df-changed", f"{what} changed the degrees of freedom")
        ctx.state(str(op.get("index", "params")), result)
        valid(c, after, where, d, ctx, what)
        if ctx.violations:
            return
    ctx.nontrivial = cut and done


def valid(c, st, where, d, ctx, what):
    s = np.array(st["sigma"])
    if not ctx.expect(s.shape == (d, d) and np.all(np.isfinite(s)), "not-a-matrix", lambda: f"{what}: sigma {s.tolist()}"):
        return
    ctx.expect(np.allclose(s, s.T, rtol=0, atol=1e-12) and np.allclose(np.diag(s), 1, rtol=0, atol=1e-12) and
               np.abs(s).max() <= 1 + 1e-9, "invalid-matrix", lambda: f"{what}: sigma {s.tolist()}")
    ctx.expect(np.linalg.eigvalsh(s).min() >= -1e-8, "not-positive-semidefinite", lambda: f"{what}: sigma {s.tolist()}, "
               f"least eigenvalue {np.linalg.eigvalsh(s).min()}")
    bad = [(i, j) for (i, j), k in where.items() if abs(s[i, j] - st["rho"][k]) > 1e-12 or
           abs(float(c[i, j]) - s[i, j]) > 1e-12 or abs(float(c[k]) - s[i, j]) > 1e-12]
    ctx.expect(not bad and np.allclose(c[:], s), "views-disagree", lambda: f"{what}: entries {bad} of sigma, the "
               "parameters and the indexed values differ")
