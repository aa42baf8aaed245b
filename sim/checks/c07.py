import copy
import json
import warnings

import numpy as np

from .. import faults as F
from .. import functions as FN
from .. import world as W

PROP = "C07"
RUNS = {"quick": 520, "thorough": 6000}
RUN_TIMEOUT = 120
LISTS = ["ops"]
RULE = ("a seed gives a history of ten to twenty-two operations on one to four copulas and on the library's functions, "
        "some of them interrupted; each answer is compared with those of processes that have no such history; "
        "nontrivial: an answer was compared that came after changes of its copula and calls on others")
STEPS = "lines of the library executed by calls that were to be interrupted"
STATES = "kind of copula, the operation, the operations before it, what it was compared with"
REAL = ["all copulas, estimators and functions of the library"]
SIMULATED = ["interrupts at chosen lines of queries and functions", "the process-wide random state before each operation"]
ASSUMPTIONS = ["operations that draw from the process-wide generator start from the same state in both histories"]

AGAIN = ["gaussian", "student", "clayton", "frank", "gumbel", "gmc"]


def gen(rng, i, tier):
    specs = [W.gen_spec(rng, limits=0.15) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < 0.35:
        specs.append(W.near(rng, rng.choice(specs)))
    ops = [{"op": "new", "slot": k, "spec": s} for k, s in enumerate(specs)]
    for _ in range(rng.randint(8, 18)):
        k = rng.choice(["change"] * 3 + ["fit"] + ["query"] * 7 + ["function"] * 2 + ["bad"])
        slot = rng.randrange(len(specs))
        if k == "function":
            earlier = [o for o in ops if o["op"] == "function"]
            if earlier and rng.random() < 0.3:
                op = {k: v for k, v in rng.choice(earlier).items() if k not in ("slot", "fault")}
                op = vary(rng, op)
            else:
                op = FN.gen(rng)
        elif k == "bad":
            d = specs[slot]["dim"]
            op = rng.choice([{"op": "edit", "index": [0, 1], "value": 3.0}, {"op": "edit", "index": [0, d], "value": 0.1},
                             {"op": "params", "params": [0.1] * 17, "form": "list"}, {"op": "get", "name": "nothing"},
                             {"op": "attr", "name": "smoothing", "value": "nonsense"}])
            if op["op"] == "attr" and specs[slot]["kind"] != "empirical" or op["op"] == "params" and \
                    specs[slot]["kind"] in ("gmc", "gaussian"):
                continue
        else:
            op = {"change": W.gen_change, "fit": W.gen_fit, "query": W.gen_query}[k](rng, specs[slot])
        op = {"gseed": rng.randrange(1 << 30), **op, "slot": slot}
        op["fault"] = [rng.random(), rng.choice(["interrupt", "memory", "error"])] \
            if k in ("query", "function") and rng.random() < 0.15 else None
        ops.append(op)
    # all that there is to ask, in turn: of a copula, of one that is almost the same, and again
    kind, q, name = FN.TOURS[i % len(FN.TOURS)]
    if q == "function":
        one = FN.named(rng, name)
        last = [one, vary(rng, one), vary(rng, one), one]
    elif q in ("fit", "change"):
        last = []
    else:
        spec = W.gen_spec(rng, [kind], limits=0.15)
        one = W.query(rng, spec, q, name)
        ops += [{"op": "new", "slot": 90, "spec": spec}, {"op": "new", "slot": 91, "spec": W.near(rng, spec)}]
        last = [{**one, "slot": k} for k in (90, 91, 90)]
    ops += [{"slot": 0, "fault": None, "gseed": 1, **op} for op in last]
    return {"ops": ops}


def vary(rng, op):
    """the same call again, with one of its arguments slightly changed"""
    op = json.loads(json.dumps(op))
    spots = [(op["args"], i) for i, a in enumerate(op["args"])] + [(op["kw"], k) for k in op["kw"]]
    where, k = rng.choice(spots) if spots else ({"x": None}, "x")
    a = where[k]
    if isinstance(a, float):
        where[k] = a * (1 - rng.choice([1e-9, 1e-6, 1e-5, 1e-4]))
    elif isinstance(a, dict) and "array" in a and a["kind"] != "int":
        lo, hi = a["array"]
        where[k]["array"] = [lo, hi - (hi - lo) * rng.choice([1e-9, 1e-6, 1e-4])]
    return op


def do(slots, op):
    if op["op"] == "function":
        np.random.seed(op["gseed"])
        return FN.perform(op)
    return W.apply(slots, op)


def alone(ops):
    """the outcomes of a history, in a process of its own"""
    slots = {}
    out = []
    for op in ops:
        out.append(W.outcome(lambda: do(slots, op)))
    return out


def fresh(spec, op):
    slots = {op["slot"]: {"spec": spec, "c": W.make(spec)}}
    return W.outcome(lambda: do(slots, op))


def fitted_after(spec, op):
    slots = {op["slot"]: {"spec": spec, "c": W.make(spec)}}
    o = W.outcome(lambda: do(slots, op))
    return o, W.visible(slots[op["slot"]]["c"], spec)


def run(plan, ctx):
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    slots, past, made = {}, {}, {}
    others = rich = False
    for n, op in enumerate(plan["ops"]):
        kind, slot = op["op"], op.get("slot")
        if kind == "new":
            W.apply(slots, op)
            past[slot] = [(n, op, None)]
            made[slot] = op["spec"]
            continue
        if slot not in slots and kind != "function":
            continue
        cut = False
        if op["fault"]:
            twin = {slot: copy.deepcopy(slots[slot])} if slot in slots else {}
            with F.Lines() as t:
                W.outcome(lambda: do(twin, op))
            ctx.steps += t.n
            if t.n:
                try:
                    with F.Lines({1 + int(op["fault"][0] * t.n): F.thrower(op["fault"][1])}), np.errstate(all="ignore"):
                        do(slots, op)
                except (Exception, KeyboardInterrupt) as e:
                    cut = "injected" in str(e)
                if cut:
                    ctx.fault("interrupted call")
                    ctx.event(n, kind, "interrupted")
                    if kind == "function":
                        continue
        got = W.outcome(lambda: do(slots, op))
        ctx.event(n, kind, slot, got[0])
        what = f"operation {n}, {kind} {op.get('fn', op.get('name', ''))}"
        if kind == "function":
            ref = oracle(fresh_function, op)
            ctx.expect(W.same(got, ref), "function-depends-on-history", lambda: f"{what} {op['args']} {op['kw']}: "
                       f"{str(got)[:300]}, in a new process: {str(ref)[:300]}")
            others = True
        else:
            c, spec = slots[slot]["c"], slots[slot]["spec"]
            past[slot].append((n, op, got))
            if kind in ("pdf", "cdf", "random", "get", "call", "log_lik") and op.get("name") != "nothing":
                try:
                    same = W.respec(c, spec)
                except Exception:
                    same = None
                usable = same is not None and not (spec["kind"] == "gmc" and c.params is None)
                if usable and finite(same) and not framed(op):
                    ref = oracle(fresh, same, op)
                    tol = W.loose(spec, op)
                    ctx.expect(W.same(W.bare(got), W.bare(ref), max(tol, 1e-8)), "differs-from-equal-copula",
                               lambda: f"{what} of {spec['kind']} copula {slot} after {kinds(past[slot])}: "
                               f"{str(got)[:300]}, of a new copula with the same parameters: {str(ref)[:300]}")
                    ctx.state(spec["kind"], kind, op.get("name"), kinds(past[slot])[-3:], "equal")
                    rich = rich or len(past[slot]) > 3 and others
            if kind == "fit" and got[0] == "ok" and independent(spec, op):
                ref, seen = oracle(fitted_after, made[slot], op)
                diff = W.fit_differs({k: v for k, v in W.visible(c, spec).items()}, seen)
                ctx.expect(ref[0] == "ok" and not diff, "fit-depends-on-history", lambda: f"{what} {op['args']} of "
                           f"{spec['kind']} copula {slot} after {kinds(past[slot][:-1])} differs from the same fit of a "
                           f"new copula in {diff}")
                ctx.state(spec["kind"], "fit", op["args"].get("method"), kinds(past[slot])[-3:-1], "new")
            if slot is not None and len(slots) > 1:
                others = True
        if ctx.violations:
            return
    for slot, hist in past.items():
        refs = oracle(alone, [op for _, op, _ in hist])
        chaotic = False
        for (n, op, got), ref in zip(hist, refs):
            if got is None:
                continue
            spec = made[slot]
            if op["op"] == "fit":
                chaotic = True  # an optimizer's last digits
            tol = max(W.loose(spec, op), 1e-4 if chaotic else 0)
            ok = W.same(got, ref, tol) or chaotic and got[0] == ref[0] and (op["op"] == "summary" or close(got, ref))
            ctx.expect(ok, "differs-from-own-history", lambda: f"operation {n}, {op['op']} {op.get('name', '')} of "
                       f"{spec['kind']} copula {slot}: {str(got)[:300]}, in a process in which only this copula was "
                       f"used: {str(ref)[:300]}")
            ctx.state(spec["kind"], op["op"], op.get("name"), got[0], "alone")
            if ctx.violations:
                return
    oracle.close()
    ctx.nontrivial = rich


def framed(op):
    """frames are matched to the labels of the data of the last fit, which are no parameters"""
    return bool(op.get("frame") or op.get("data", {}).get("frame"))


def fresh_function(op):
    return W.outcome(lambda: do({}, op))


def finite(spec):
    def ok(v):
        return all(ok(x) for x in v) if isinstance(v, (list, tuple)) else not isinstance(v, float) or np.isfinite(v)
    if spec["kind"] == "gmc":
        return all(ok(v) for v in spec["gmc"].values())
    if spec["kind"] == "marginal":
        return finite(spec["inner"]) and all(ok(list(m["parameters"].values())) for m in spec["margins"])
    return ok(spec.get("params"))


def close(a, b):
    """outcomes of queries after a fit whose last digits may differ"""
    x, y = W.bare(a[1]), W.bare(b[1])
    return W.same(x, y, 0.05) or isinstance(x, dict) and W.same(x.get("log_lik"), y.get("log_lik"), 1e-3) or \
        isinstance(x, list) and str(x)[:40] == str(y)[:40]


def independent(spec, op):
    """fits that by their definition use nothing of what the copula was before"""
    a = op["args"]
    if spec["kind"] not in AGAIN or a.get("x0") is not None:
        return False
    if spec["kind"] == "student":
        return a.get("method", "ml") == "ml" and not a.get("fix_df")
    return True


def kinds(hist):
    return [op["op"] + (":" + str(op["args"].get("method")) if op["op"] == "fit" else "") for _, op, _ in hist]
