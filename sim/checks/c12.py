import copy
import re
import warnings

import numpy as np

from .. import optimizer
from .. import world as W

PROP = "C12"
RUNS = {"quick": 600, "thorough": 14000}
RUN_TIMEOUT = 90
LISTS = ["fits"]
RULE = ("a seed gives a copula and two to five fits, most of them with an optimizer that tries points of its own choice, "
        "valid and not, in an array that it uses again and again, fails or succeeds as it likes, and may run another fit in the "
        "middle of one; nontrivial: an accepted point was not the last one tried")
STEPS = "evaluations of the objective"
STATES = "kind of copula, method, how the optimizer ended, position of the accepted point, options"
REAL = ["all copulas and estimators", "scipy's optimizers in a part of the fits"]
SIMULATED = ["the optimizer: the points it tries, the buffer it passes, its outcome, other fits in between"]
ASSUMPTIONS = ["optimizers call the objective with an array and return a scipy OptimizeResult"]


def before_import():
    optimizer.install()


def gen(rng, i, tier):
    spec = W.gen_spec(rng, ["gaussian", "gaussian", "student", "student", "clayton", "frank", "gumbel", "marginal"],
                      (2, 2, 3))
    if spec["kind"] == "marginal":
        spec["margins"] = [rng.choice([{"type": "norm", "parameters": {"scale": 2.0}}, "expon", "norm"])
                           for _ in range(spec["dim"])]
    inner = spec.get("inner", spec)
    fits = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        op = W.gen_fit(rng, spec)
        op["args"]["verbose"] = rng.choice([0, 0, 1])
        if rng.random() < 0.8:
            op["args"]["method"] = "ml"
        if op["args"].get("method") == "ml":
            op["args"].pop("ties", None)
            op["data"]["tie"] = False
        if rng.random() < 0.2:
            op["args"]["scale"] = rng.choice([0.5, 10.0])
        if inner["kind"] == "student" and spec["kind"] != "marginal" and rng.random() < 0.4:
            op["args"]["fix_df"] = True
            if rng.random() < 0.4:
                op["user_constraint"] = True
        if rng.random() < 0.25:
            op["data"]["unit"] = True
            op["args"]["to_pobs"] = False
        op["start"] = W.gen_params(rng, inner["kind"], spec["dim"]) if rng.random() < 0.3 else None
        op["script"] = None
        if rng.random() < 0.75:
            pts = []
            for _ in range(rng.choice([1, 2, 4, 9])):
                pts.append(rng.choice([
                    ["valid", W.gen_params(rng, inner["kind"], spec["dim"])],
                    ["valid", W.gen_params(rng, inner["kind"], spec["dim"])], ["start", rng.choice([0, 1e-8, 0.01])],
                    ["bad", rng.choice(["nan", "negative", "huge", "broken"])]]))
            op["script"] = {"points": pts, "take": rng.random(), "success": rng.random() < 0.8,
                            "reuse": rng.random() < 0.8, "array_fun": rng.random() < 0.2,
                            "nested": rng.random() if rng.random() < 0.25 else None}
        fits.append({**op, "slot": 0})
    return {"spec": spec, "fits": fits, "other": W.gen_spec(rng, ["gaussian", "clayton", "student"], (2,))}


def vector(v):
    return np.ravel(np.asarray(v, float))


def known(p):
    """parameters as a vector"""
    return np.concatenate([[float(p.df)], vector(p.rho)]) if hasattr(p, "df") else vector(p)


def reference(spec, params, data, to_pobs, ties):
    with np.errstate(all="ignore"):
        import copulae as cp
        s = {**spec, "params": params if len(params) > 1 or spec["kind"] in W.ELLIPTICAL else params[0]}
        c = W.make(s)
        d = np.asarray(data, float)
        u = cp.pseudo_obs(d, ties) if to_pobs else d
        return float(c.log_lik(u, to_pobs=False)), known(c.params).tolist()


class Script:
    """An optimizer that does as the plan says"""

    def __init__(self, plan, op, spec, ctx, df):
        self.plan, self.op, self.s, self.spec, self.ctx, self.df = plan, op, op["script"], spec, ctx, df
        self.buffers = []
        self.result = None
        self.last = None
        self.tried = []

    def __call__(self, real, fun, x0, args, kwargs):
        from scipy.optimize import OptimizeResult
        x0 = np.array(vector(x0))
        self.check_constraints(x0, kwargs)
        buf = np.empty_like(x0)
        self.buffers.append(buf)
        vals = []
        for j, (what, v) in enumerate(self.s["points"]):
            if what == "start":
                x = x0 + v
            elif what == "valid":
                x = vector(v)
            else:
                x = x0 * 1.0
                x[j % len(x)] = {"nan": np.nan, "negative": -0.2, "huge": 1e9, "broken": 0.9999}[v]
            if len(x) != len(x0):
                x = x0
            if self.op["args"].get("fix_df") and what != "bad":
                x = x.copy()
                x[0] = self.df
            if self.s["reuse"]:
                buf[...] = x
                f = fun(buf)
                buf[...] = -0.123
            else:
                f = fun(np.array(x))
            f = float(np.ravel(f)[0])
            self.tried.append(x)
            vals.append(f)
            self.ctx.steps += 1
            if self.s["nested"] is not None and j == int(self.s["nested"] * len(self.s["points"])):
                with optimizer.use(None):
                    o = W.make(self.plan["other"])
                    data = W.make_data({**self.op["data"], "d": 2, "frame": False, "unit": False, "n": 14})
                    W.outcome(lambda: o.fit(data, verbose=0))
                    self.ctx.fault("another fit in the middle")
        good = [j for j, f in enumerate(vals) if np.isfinite(f)]
        success = self.s["success"] and bool(good)
        good = good or [0]
        k = good[int(self.s["take"] * len(good))]
        x = self.tried[k]
        out = np.array(x)
        self.result = {"x": np.array(x), "fun": vals[k], "success": success, "k": k, "of": len(vals)}
        f = np.array([vals[k]])[0] if not self.s["array_fun"] else np.float64(vals[k])
        return OptimizeResult(x=out, fun=f, success=success, status=0 if success else 1,
                              message="simulated", nit=len(vals), nfev=len(vals), njev=0)

    def check_constraints(self, x0, kwargs):
        if not self.op["args"].get("fix_df"):
            return
        cons = kwargs.get("constraints", ())
        cons = [cons] if isinstance(cons, dict) else list(cons)

        def broken(x):
            bad = 0
            for c in cons:
                if isinstance(c, dict):
                    v = vector(c["fun"](x, *c.get("args", ())))
                    bad += bool(np.any(np.abs(v) > 1e-9)) if c["type"] == "eq" else bool(np.any(v < -1e-9))
                else:
                    v = vector(c.fun(x))
                    bad += bool(np.any((v < np.asarray(c.lb) - 1e-9) | (v > np.asarray(c.ub) + 1e-9)))
            b = kwargs.get("bounds")
            if b is not None and hasattr(b, "__len__"):
                bad += bool(x[0] < b[0][0] - 1e-9 or x[0] > b[0][1] + 1e-9)
            return bad
        x = np.array(x0)
        x[0] = self.df
        ok = broken(x) == 0
        x[0] = self.df + 0.5
        self.ctx.expect(ok and broken(x) > 0, "df-not-fixed", f"the constraints given to the optimizer do not pin the "
                        f"degrees of freedom to {self.df}")
        if self.op.get("user_constraint"):
            x[0] = self.df
            x[1] = 5.0
            self.ctx.expect(broken(x) > 0, "user-constraint-lost", "the caller's constraint did not reach the optimizer")


def run(plan, ctx):
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    spec = plan["spec"]
    inner = spec.get("inner", spec)
    c = W.make(spec)
    scripts, reports = [], []
    rich = False
    for n, op in enumerate(plan["fits"]):
        args = copy.deepcopy(W.fit_args(spec, op))
        data = W.make_data(op["data"])
        if op["data"]["unit"] and spec["kind"] == "marginal":
            args.pop("to_pobs")  # the margins are fitted to the data
        if op["start"] is not None:
            args["x0"] = np.array(op["start"]) if isinstance(op["start"], list) else op["start"]
        if op.get("user_constraint"):
            args["optim_options"] = {"constraints": [{"type": "ineq", "fun": lambda x: 1.5 - x[1]}]}
        df = float(known(W.respec(c, spec)["params"] if spec["kind"] == "student" else [0])[0])
        script = Script(plan, op, spec, ctx, df) if op["script"] else None
        np.random.seed(op["gseed"])
        before = W.visible(c, spec)

        def fit():
            if script:
                with optimizer.use(script):
                    c.fit(data, **args)
            else:
                c.fit(data, **args)
        got = W.outcome(fit)
        method = args.get("method", "ml")
        res = script.result if script and method == "ml" else None
        end = "none" if res is None else "success" if res["success"] else "failure"
        ctx.state(spec["kind"], method, end, got[0], res and (res["k"], res["of"]), sorted(op["args"]),
                  op["start"] is not None)
        ctx.event(n, spec["kind"], method, end, got)
        what = f"fit {n} of {spec['kind']} copula with {op['args']}, optimizer: {end}"
        if got[0] != "ok":
            ctx.count("fit raised")
            ctx.expect(not W.differs(before, W.visible(c, spec)), "failed-fit-changed-copula", f"{what} raised {got[1]}")
            ctx.expect(res is None or any(p[0] == "bad" for p in op["script"]["points"]), "fit-raised",
                       f"{what} raised {got[1]} although all points tried were valid")
            continue
        report = c.summary("fit")
        params = W.outcome(lambda: None) and known(c.params["copula"] if spec["kind"] == "marginal" else c.params)
        if script:
            for b in script.buffers:
                b[...] = 0.4567  # the optimizer's memory goes to somebody else
            scripts.append(script)
        again = known(c.params["copula"] if spec["kind"] == "marginal" else c.params)
        ctx.expect(np.array_equal(params, again, equal_nan=True), "shares-optimizer-memory", f"{what}: the parameters "
                   f"changed from {params} to {again} when the optimizer's array was used again")
        ctx.event(n, again.tolist())
        check_report(ctx, oracle, c, spec, inner, op, args, data, report, again, res, what)
        reports.append((n, report, W.plain(report), W.outcome(lambda: str(report))))
        for m, r, old, text in reports:
            ctx.expect(W.same(W.plain(r), old) and W.same(W.outcome(lambda: str(r)), text), "report-changed",
                       f"the report of fit {m} changed by {what}")
        if res is not None and res["success"] and res["k"] < res["of"] - 1:
            rich = True
        if res is not None:
            ctx.fault("optimizer: " + end)
        if ctx.violations:
            return
    oracle.close()
    ctx.nontrivial = rich


def check_report(ctx, oracle, c, spec, inner, op, args, data, report, params, res, what):
    rp = known(report.params)
    method = args.get("method", "ml")
    ctx.expect(report.nsample == op["data"]["n"], "sample-size", f"{what}: the report says {report.nsample} rows")
    ctx.expect({"ml": "ikelihood", "itau": "au", "irho": "ho"}[method] in report.method, "method",
               f"{what}: the report says {report.method}")
    text = W.outcome(lambda: str(report))
    html = W.outcome(lambda: report.as_html() if hasattr(report, "as_html") else report._repr_html_())
    ctx.expect(text[0] == html[0] == "ok", "report-not-rendered", f"{what}: {text[1] if text[0] != 'ok' else html[1]}")
    x = None
    if res is not None and not res["success"] or method == "ml" and np.all(np.isnan(rp)):
        ctx.expect(np.all(np.isnan(rp)) and len(rp) == len(params), "failure-not-reported",
                   f"{what}: the optimizer did not converge, the report gives {rp}")
        return
    ctx.expect(np.all(np.isfinite(rp)), "success-not-reported", f"{what}: the report gives {rp}")
    ctx.expect(len(rp) == len(params) or inner["kind"] == "student" and method != "ml", "shape",
               f"{what}: report {rp}, parameters {params}")
    mine = params[len(params) - len(rp):]
    ctx.expect(np.allclose(rp, mine, rtol=1e-9, atol=1e-12), "report-and-copula-differ",
               f"{what}: the report gives {rp}, the copula has {params}")
    if res is not None:
        x = res["x"]
        ctx.expect(np.allclose(params, x, rtol=1e-9, atol=1e-12), "not-what-the-optimizer-chose",
                   f"{what}: the optimizer accepted {x}, evaluation {res['k'] + 1} of {res['of']}; the copula has {params}")
    u = data
    ref, back = oracle(reference, inner, params.tolist(), u, args.get("to_pobs", True), args.get("ties", "average"))
    scale = args.get("scale", 1.0)
    ctx.expect(W.same(float(report.log_lik), ref, 1e-7), "log-likelihood",
               f"{what}: the report's log likelihood is {report.log_lik}, that of its parameters {params} is {ref}"
               f"{f', scale {scale}' if scale != 1 else ''}")
    if np.isfinite(ref):
        for name, t in (("text", text[1]), ("html", html[1])):
            nums = [float(v) for v in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", str(t))]
            ctx.expect(any(abs(v - ref) <= 1e-3 * max(1, abs(ref)) for v in nums), "rendered-log-likelihood",
                       f"{what}: the log likelihood {ref} is not in the {name} of the report")
