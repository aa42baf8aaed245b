import copy
import pickle
import warnings

import numpy as np

from .. import world as W

PROP = "C17"
RUNS = {"quick": 450, "thorough": 8000}
RUN_TIMEOUT = 90
LISTS = ["before", "after", "aside"]
RULE = ("a seed gives a copula, operations before and after, and a point in between at which it is pickled or copied and "
        "its process dies: the copy is restored in a new process and carries on there, while the original is used, or "
        "the other way round; nontrivial: the copula had been fitted or edited before, and was changed afterwards")
STEPS = "operations"
STATES = "kind of copula, way of copying, operations before, operation after"
REAL = ["all copulas and estimators", "pickle and copy"]
SIMULATED = ["the death of the process between two operations and the process that takes over"]
ASSUMPTIONS = ["processes die between operations; what was pickled is all that survives"]


def gen(rng, i, tier):
    spec = W.gen_spec(rng, [*W.KINDS, "student", "marginal", "gmc"], limits=0.15)
    if spec["kind"] == "marginal":
        spec["margins"] = [rng.choice([{"type": "norm", "parameters": {"scale": 2.0}}, "expon", "norm"])
                           for _ in range(spec["dim"])]

    def ops(n):
        out = []
        for _ in range(n):
            f = rng.choice([W.gen_change, W.gen_change, W.gen_fit, W.gen_query, W.gen_query])
            out.append({"gseed": rng.randrange(1 << 30), **f(rng, spec), "slot": 0})
        return out
    return {"spec": spec, "before": ops(rng.choice([0, 1, 2, 3])), "after": ops(rng.randint(2, 5)),
            "aside": ops(rng.randint(1, 3)), "how": rng.choice(["pickle", "pickle", "pickle", "deepcopy"]),
            "protocol": rng.randrange(0, pickle.HIGHEST_PROTOCOL + 1), "hops": rng.choice([1, 1, 2])}


def carry_on(blob, spec, ops):
    """in the process that takes over"""
    slots = {0: {"spec": spec, "c": pickle.loads(blob)}}
    first = W.visible(slots[0]["c"], spec)
    out = [W.outcome(lambda: W.apply(slots, op)) for op in ops]
    return first, out, W.visible(slots[0]["c"], spec), pickle.dumps(slots[0]["c"])


def run(plan, ctx):
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    spec = plan["spec"]
    slots = {0: {"spec": spec, "c": W.make(spec)}}
    for op in plan["before"]:
        W.outcome(lambda: W.apply(slots, op))
    c = slots[0]["c"]
    seen = W.visible(c, spec)
    done = [op["op"] for op in plan["before"]]
    who = f"{spec['kind']} copula after {[(o['op'], o.get('args')) for o in plan['before']]}"
    try:
        blob = pickle.dumps(c, plan["protocol"])
        other = copy.deepcopy(c) if plan["how"] == "deepcopy" else pickle.loads(blob)
    except Exception as e:
        ctx.violation("cannot-be-copied", f"{who}: {type(e).__name__}: {e}")
        return
    ctx.expect(not W.differs(seen, W.visible(c, spec)), "copying-changes-the-original", who)
    diff = W.differs(seen, W.visible(other, spec))
    ctx.expect(not diff, "copy-differs", lambda: f"{who}, {plan['how']}: {diff}, e.g. {str(seen[diff[0]])[:300]} -> "
               f"{str(W.visible(other, spec)[diff[0]])[:300]}")
    # the copy is used, the original must not notice
    mine = {0: {"spec": spec, "c": other}}
    for op in plan["aside"]:
        W.outcome(lambda: W.apply(mine, op))
        ctx.steps += 1
        diff = W.differs(seen, W.visible(c, spec))
        ctx.expect(not diff, "original-shares-with-copy", lambda: f"{who}: {op['op']} on a {plan['how']} of it changed "
                   f"{diff}, e.g. {str(seen[diff[0]])[:300]} -> {str(W.visible(c, spec)[diff[0]])[:300]}")
        if ctx.violations:
            return
    # the process dies; another one carries on from what was saved, once more if need be
    for _ in range(plan["hops"]):
        first, outs, last, again = oracle(carry_on, blob, spec, plan["after"] if _ == plan["hops"] - 1 else [])
        ctx.fault("process died, another took over")
        diff = W.differs(seen, first)
        ctx.expect(not diff, "restored-copy-differs", lambda: f"{who}, pickled with protocol {plan['protocol']}, restored "
                   f"in a new process: {diff}, e.g. {str(seen[diff[0]])[:300]} -> {str(first[diff[0]])[:300]}")
        blob = again
    # the original carries on as well and does the same
    chaotic = changed = False
    for op, ref in zip(plan["after"], outs):
        got = W.outcome(lambda: W.apply(slots, op))
        ctx.steps += 1
        ctx.event(op["op"], got[0])
        ctx.state(spec["kind"], plan["how"], done[-2:], op["op"], op.get("name"), got[0])
        if op["op"] == "fit":
            chaotic = True
        changed = changed or op["op"] in ("fit", "edit", "params", "attr")
        tol = max(W.loose(spec, op), 1e-4 if chaotic else 0)
        ok = W.same(got, ref, tol) or chaotic and got[0] == ref[0]
        ctx.expect(ok, "restored-copy-behaves-differently", lambda: f"{who}: {op['op']} {op.get('name', '')} gives "
                   f"{str(got)[:300]}, restored in a new process: {str(ref)[:300]}")
        done.append(op["op"])
        if ctx.violations:
            return
    now = W.visible(c, spec)
    diff = W.fit_differs(now, last)
    ctx.expect(not diff, "restored-copy-ends-differently", lambda: f"{who}, then {done}: {diff}, e.g. "
               f"{str(now[diff[0]])[:300]} -> {str(last[diff[0]])[:300]}")
    oracle.close()
    ctx.nontrivial = changed and any(op["op"] in ("fit", "edit", "params", "attr") for op in plan["before"])
