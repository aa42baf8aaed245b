import random

import numpy as np

from .. import faults as F
from .. import world as W

PROP = "C04"
RUNS = {"quick": 900, "thorough": 20000}
RUN_TIMEOUT = 60
LISTS = ["ops"]
RULE = ("a seed gives one to three copulas and six to sixteen operations on them: seeded and unseeded draws, changes, "
        "queries, reseeding of the process; other users of the process-wide generator strike, and interrupts, at "
        "chosen lines of the draws; nontrivial: a seeded draw was compared that came after other draws and was "
        "interfered with")
STEPS = "lines of the library executed by the draws"
STATES = "kind of copula, its dimension, number of rows, what struck during the draw"
REAL = ["all copulas and their samplers", "numpy's generators"]
SIMULATED = ["the process-wide random state before and during a draw", "other users of it", "interrupts"]
ASSUMPTIONS = ["other users of the process-wide generator strike between lines of the library's Python code",
               "the reference draws in a process in which the library has not been used"]


def gen(rng, i, tier):
    specs = [W.gen_spec(rng, dims=(2, 2, 3, 4), limits=0.25) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    pool = [rng.randrange(1 << 32) for _ in range(2)] + [0, 1, 2 ** 32 - 1]
    for _ in range(rng.randint(6, 16)):
        slot = rng.randrange(len(specs))
        sp = specs[slot]
        k = rng.choice(["seeded"] * 6 + ["unseeded"] * 3 + ["change", "query", "global", "global"])
        if k in ("seeded", "unseeded"):
            op = {"op": k, "slot": slot, "n": rng.choice([1, 2, 3, 8, 8, 25]), "seed": rng.choice(pool),
                  "type": rng.choice(["int", "int", "numpy"]), "strikes": [], "fault": None}
            if k == "seeded":
                if rng.random() < 0.45:
                    op["strikes"] = sorted([rng.random(), rng.choice(["seed", "draw", "draw", "normal", "py"]),
                                            rng.randrange(1, 9)] for _ in range(rng.choice([1, 1, 2, 3])))
                elif rng.random() < 0.25:
                    op["fault"] = [rng.random(), rng.choice(["interrupt", "memory", "error"])]
            ops.append(op)
        elif k == "change":
            op = W.gen_change(rng, sp)
            if op["op"] == "fit":
                op.pop("gseed")
            ops.append({**op, "slot": slot})
        elif k == "query":
            ops.append({**W.gen_query(rng, sp, draws=False), "slot": slot})
        else:
            ops.append({"op": "global", "what": rng.choice(["seed", "seed", "draw", "normal", "py"]),
                        "k": rng.randrange(1, 9)})
    return {"specs": specs, "ops": ops, "start": rng.randrange(1 << 32)}


def strike(what, k):
    if what == "seed":
        np.random.seed(1000 + k)
    elif what == "draw":
        np.random.random_sample(k)
    elif what == "normal":
        np.random.standard_normal(k)  # an odd number leaves one in the generator's pocket
    else:
        random.seed(k)
        random.random()


def state():
    a = np.random.get_state()
    return (a[0], a[1].tolist(), *a[2:], repr(random.getstate()))


def values(out):
    return np.asarray(out, float)


def plenty(x):
    x = x[np.isfinite(x) & (np.abs(x) > 1e-9) & (np.abs(x - 1) > 1e-9)]
    return len(np.unique(x)) > 1


def reference(spec, n, seed, glob=None):
    with np.errstate(all="ignore"):
        c = W.make(spec)
        if glob is not None:
            np.random.set_state(glob)
        try:
            x = values(c.random(n, seed=seed) if seed is not None else c.random(n))
        except Exception as e:
            return ["error", type(e).__name__], None
        return ["ok", x], np.random.get_state()


def run(plan, ctx):
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    oracle = W.Pristine()
    slots = {}
    for k, spec in enumerate(plan["specs"]):
        slots[k] = {"spec": spec, "c": W.make(spec)}
    np.random.seed(plan["start"])
    random.seed(plan["start"])
    drawn = struck = False
    for n, op in enumerate(plan["ops"]):
        if op["op"] == "global":
            strike(op["what"], op["k"])
            continue
        if op["op"] not in ("seeded", "unseeded"):
            o = W.outcome(lambda: W.apply(slots, op))
            ctx.event(n, op["op"], o[0])
            continue
        s = slots[op["slot"]]
        c, spec = s["c"], s["spec"]
        spec = W.respec(c, spec)
        rows = op["n"]
        what = f"draw {n} of {rows} rows from {spec['kind']} {spec.get('params')}"
        if op["op"] == "unseeded":
            glob = np.random.get_state()
            ref, after = oracle(reference, spec, rows, None, glob)
            got = W.outcome(lambda: None)
            try:
                got = ["ok", values(c.random(rows))]
            except Exception as e:
                got = ["error", type(e).__name__]
            if not check_equal(ctx, got, ref, what + " without a seed", "unseeded-draw-differs"):
                return
            ctx.state(spec["kind"], spec["dim"], rows, "unseeded")
            if after is not None:
                now = np.random.get_state()
                ctx.expect(now[2] == after[2] and np.array_equal(now[1], after[1]) and now[3:] == after[3:],
                           "unseeded-draw-advances-differently",
                           f"{what} without a seed left another process-wide random state than in a new process")
            # at the ends of their ranges some parameters leave nothing but zeros and ones
            if got[0] == "ok" and plenty(got[1]) and spec["kind"] != "empirical":
                more = values(c.random(rows))
                ctx.expect(not np.array_equal(more, got[1]), "unseeded-draws-repeat", f"{what} without a seed: the next "
                           "draw is the same")
            drawn = True
            continue
        seed = np.int64(op["seed"]) if op["type"] == "numpy" else op["seed"]
        ref, _ = oracle(reference, spec, rows, seed)
        before = state()
        at = {}
        if op["strikes"] or op["fault"]:
            twin = state()
            with F.Lines() as t:
                W.outcome(lambda: c.random(rows, seed=seed))
            ctx.expect(state() == twin, "seeded-draw-disturbs", f"{what} with seed {seed} changed the process-wide "
                       "random state")
            total = t.n
            ctx.steps += total
            for p, w, k in op["strikes"]:
                at.setdefault(1 + int(p * total), []).append((w, k))
            if op["fault"] and total:
                at[1 + int(op["fault"][0] * total)] = op["fault"][1]
        did = []

        def act(v):
            def f():
                if isinstance(v, str):
                    F.thrower(v)()
                for w, k in v:
                    strike(w, k)
                    did.append((w, k))
            return f

        try:
            if at:
                with F.Lines({k: act(v) for k, v in at.items()}) as t:
                    got = ["ok", values(c.random(rows, seed=seed))]
            else:
                got = ["ok", values(c.random(rows, seed=seed))]
        except (Exception, KeyboardInterrupt) as e:
            got = ["interrupted" if "injected" in str(e) else "error", type(e).__name__]
        now = state()
        np_state, py_state = np.random.get_state(), random.getstate()
        ctx.event(n, spec["kind"], rows, int(seed), got[0], did,
                  float(np.sum(got[1])) if got[0] == "ok" and got[1].size else 0)
        if got[0] == "interrupted":
            ctx.fault("interrupted draw")
            ctx.expect(now == before, "interrupted-draw-disturbs", f"{what} with seed {seed}, {op['fault'][1]} at "
                       f"{t.where}, changed the process-wide random state")
        else:
            how = f" while others used the process-wide generator {did} at {t.where}" if did else ""
            if not check_equal(ctx, got, ref, f"{what} with seed {seed}{how}", "seeded-draw-differs"):
                return
            set_state(before)
            for w, k in did:
                strike(w, k)
                ctx.fault("interference: " + w)
            ctx.expect(state() == now, "seeded-draw-disturbs",
                       f"{what} with seed {seed}{how} changed the process-wide random state")
            np.random.set_state(np_state)
            random.setstate(py_state)
            if drawn and did:
                struck = True
            drawn = True
        ctx.state(spec["kind"], spec["dim"], rows, [d[0] for d in did], got[0])
        if ctx.violations:
            return
    oracle.close()
    ctx.nontrivial = struck


def set_state(s):
    np.random.set_state((s[0], np.array(s[1], np.uint32), *s[2:5]))
    random.setstate(eval(s[5]))


def check_equal(ctx, got, ref, what, oracle):
    ok = got[0] == ref[0] and (np.shape(got[1]) == np.shape(ref[1]) and np.allclose(got[1], ref[1], rtol=1e-9,
                               atol=1e-12, equal_nan=True) if ref[0] == "ok" else got[1] == ref[1])
    return ctx.expect(ok, oracle, lambda: f"{what}: {brief(got)}, in a new process: {brief(ref)}")


def brief(o):
    return f"{o[0]} {np.ravel(o[1])[:4] if o[0] == 'ok' else o[1]}"
