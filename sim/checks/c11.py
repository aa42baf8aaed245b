import ctypes

import numpy as np

from .. import goflib as g

PROP = "C11"
VARIANT = "omp"
RUNS = {"quick": 4000, "thorough": 60000}
RUN_TIMEOUT = 60
LISTS = ["ops"]
RULE = ("a seed gives four to twelve evaluations of the special functions and of copula functions built on them, each "
        "with its own team size and preemption policy; nontrivial: a team of several threads was preempted at least "
        "once inside a parallel region")
STEPS = "memory accesses of parallel regions at which the scheduler decided"
STATES = "function, size of the input, team size, and the trace of switches"
REAL = ["copulae.special (compiled from the working tree)", "the copulas that call it", "threads of the operating system"]
SIMULATED = ["the OpenMP runtime: teams, work shares, critical sections, barriers",
             "which thread runs between any two memory accesses of a parallel region"]
ASSUMPTIONS = ["compiled with gcc's thread instrumentation, which makes memory accesses visible to the scheduler",
               "memory is sequentially consistent in the simulation"]
LIB = None
FUNCS = ["clausen", "debye_1", "debye_2", "dilog", "dilog_complex"]


def after_import():
    global LIB
    import copulae.special._specfunc as m
    LIB = ctypes.CDLL(m.__file__)
    LIB.omps_config.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_int,
                                ctypes.c_uint64]
    LIB.omps_stats.argtypes = [ctypes.POINTER(ctypes.c_uint64)]


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.randint(4, 12)):
        shape = rng.choice([[2], [3], [5], [8], [13], [17], [40], [64], [2, 3], [3, 4], [4, 1], [2, 2, 3], [1], [150], [0], [1, 1], [33]])
        if rng.random() < 0.08:  # around the sizes at which work may be cut into blocks
            shape = [max(1, rng.choice([16, 32, 64, 100, 128, 256, 256, 500, 512, 1000, 1024, 1024, 2048, 4096]) *
                         rng.choice([1, 1, 1, 2, 3]) + rng.choice([-1, 0, 1, 1, 2]))]
            if rng.random() < 0.2:
                shape = [*rng.choice([[2], [3], [1]]), *shape]
        ops.append({"fn": rng.choice(FUNCS * 3 + ["frank-tau", "frank-pdf", "poly_log"]), "shape": shape,
                    "seed": rng.randrange(1 << 30), "layout": rng.choice(["c", "c", "f", "stride", "list", "reverse"]),
                    "regime": rng.choice(["mixed", "mixed", "small", "big", "special", "repeat", "few"]),
                    "threads": rng.choice([1, 2, 2, 3, 4, 5, 7, 8, 16, 32]), "mode": rng.choice([0, 0, 1, 2]),
                    "rate": rng.choice([0.0, 0.003, 0.02, 0.1, 0.5, 1.0]), "small": rng.random() < 0.3,
                    "sched": rng.randrange(1, 1 << 30)})
    return {"ops": ops}


def values(op):
    r = np.random.RandomState(op["seed"])
    n = int(np.prod(op["shape"]))
    kind = op["regime"]
    pools = {"small": lambda: r.uniform(0, 1, n), "big": lambda: r.uniform(0, 800, n),
             "special": lambda: r.choice([0.0, 1.0, 2.0, 4.0, np.pi, 2 * np.pi, 1e-300, 1e-9, 0.25, 0.5, 1.01, 35.0,
                                          36.1, 708.0, 1e6, np.inf, np.nan, -1.0, -0.5], n),
             "repeat": lambda: np.repeat(r.uniform(0, 3, 1), n),
             "few": lambda: r.choice(r.choice([0.3, 3.0, 30.0]) * r.uniform(size=3), n)}
    if kind == "mixed":
        x = r.choice([0.1, 1.0, 3.0, 8.0, 40.0, 900.0], n) * r.uniform(size=n)
    else:
        x = pools[kind]()
    if op["fn"] in ("clausen", "dilog"):
        x = x * r.choice([1, 1, -1], n)
    return x.reshape(op["shape"]), r


def laid_out(x, layout):
    if layout == "f":
        return np.asfortranarray(x)
    if layout == "stride":
        big = np.full((*x.shape[:-1], x.shape[-1] * 2), 7.0)
        big[..., ::2] = x
        return big[..., ::2]
    if layout == "reverse":
        return x[::-1].copy()[::-1]
    if layout == "list":
        return x.tolist()
    return x.copy()


def run(plan, ctx):
    from copulae.special import clausen, debye, dilog
    fns = {"clausen": clausen.clausen, "debye_1": debye.debye_1, "debye_2": debye.debye_2, "dilog": dilog.dilog}
    old = np.seterr(all="ignore")
    for k, op in enumerate(plan["ops"]):
        x, r = values(op)
        a = laid_out(x, op["layout"])
        before = np.array(a)
        fn = op["fn"]
        if fn in fns:
            threaded = lambda: fns[fn](a, True)
            serial = lambda: fns[fn](x.copy(), False)
            single = lambda: np.reshape([fns[fn](np.array([v]), True) for v in x.ravel().tolist()], x.shape)
        elif fn == "dilog_complex":
            t = np.array(r.uniform(-7, 7, x.shape))
            t.ravel()[::5] = 0.0
            x = np.abs(np.where(np.isfinite(x), x, 2.0))
            x = np.where(x < 1e-12, 1e-12, np.minimum(x, 50.0))
            a, tt = laid_out(x, op["layout"]), laid_out(t, op["layout"])
            before = np.array(a)
            bt = np.array(tt)
            threaded = lambda: dilog.dilog_complex(a, tt, True)
            serial = lambda: dilog.dilog_complex(x.copy(), t.copy(), False)
            single = lambda: np.reshape([dilog.dilog_complex(np.array([v]), np.array([w]), True) for v, w in
                                         zip(x.ravel().tolist(), t.ravel().tolist())], x.shape)
        else:
            threaded, serial, single, a, before = composite(fn, op, x, r)
        limit = 40000 if ctx.replay or op["rate"] < 0.5 else 15000
        LIB.omps_config(op["sched"], op["threads"], op["mode"], op["rate"], int(op["small"]), limit)
        try:
            got, err = threaded(), None
        except Exception as e:
            got, err = None, e
        st = (ctypes.c_uint64 * 8)()
        LIB.omps_stats(st)
        LIB.omps_off()
        regions, points, switches, trace, small = list(st)[:5]
        ctx.steps += int(points)
        ctx.count("parallel regions", int(regions))
        ctx.count("switches", int(switches))
        if small:
            ctx.fault("smaller team than asked for", int(small))
        if regions and op["threads"] > 1 and op["mode"] == 1:
            ctx.fault("thread stalled behind the others")
        ctx.nontrivial |= switches > op["threads"] and op["threads"] > 1
        ctx.state(fn, op["shape"], op["threads"], int(trace))
        try:
            want, werr = serial(), None
        except Exception as e:
            want, werr = None, e
        ctx.event(k, fn, op["shape"], int(regions), int(points), int(switches), int(trace),
                  None if got is None else np.array2string(np.asarray(got), threshold=10 ** 6))
        what = f"{fn} of {op['shape']} values, {op['threads']} threads"
        if err is not None or werr is not None:
            ctx.expect(type(err) is type(werr), "error-depends-on-threads", lambda: f"{what}: {err!r} threaded, "
                       f"{werr!r} unthreaded")
            continue
        ctx.expect(np.shape(got) == np.shape(want), "shape", lambda: f"{what}: shape {np.shape(got)} threaded, "
                   f"{np.shape(want)} unthreaded")
        ctx.expect(same(got, want), "threaded-differs", lambda: f"{what}: {diff(got, want, x)}")
        if single is not None:
            s = single()
            ctx.expect(np.size(s) == np.size(got) and same(np.ravel(got), np.ravel(s)), "elementwise-differs",
                       lambda: f"{what}: against one value at a time: {diff(got, s, x)}")
        ctx.expect(np.array_equal(np.array(a), before, equal_nan=True), "input-changed", f"{what}: the input changed")
        if fn == "dilog_complex":
            ctx.expect(np.array_equal(np.array(tt), bt), "input-changed", f"{what}: the angles changed")
        if ctx.violations:
            return
    np.seterr(**old)


def composite(fn, op, x, r):
    from copulae import FrankCopula
    from copulae.special import poly_log
    x = x if np.size(x) else np.array([1.5])
    v = np.clip(np.nan_to_num(np.abs(x).ravel(), posinf=3.0), 1e-3, 30.0)
    if fn == "frank-tau":
        from copulae.archimedean.frank import debye1, debye2
        f = lambda y: np.concatenate([np.ravel(debye1(y)), np.ravel(debye2(y))])
        one = lambda: np.concatenate([np.ravel([debye1(q) for q in v]), np.ravel([debye2(q) for q in v])])
        return (lambda: f(v)), one, None, v, v.copy()
    if fn == "poly_log":
        z = 0.95 * v / (1 + v)
        return ((lambda: np.ravel(poly_log(z, 2, "default"))), (lambda: np.ravel([poly_log(q, 2, "default") for q in z])), None,
                z, z.copy())
    c = FrankCopula(theta=float(v[0]), dim=3)
    u = np.clip(r.uniform(size=(len(v), 3)), 1e-3, 1 - 1e-3)
    return ((lambda: np.ravel(c.pdf(u))), (lambda: np.ravel([c.pdf(row) for row in u])), None, u, u.copy())


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if np.iscomplexobj(a) or np.iscomplexobj(b):
        return same(a.real, b.real) and same(a.imag, b.imag)
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= 1e-12 + 1e-10 * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


def diff(a, b, x):
    a, b, x = np.ravel(a), np.ravel(b), np.ravel(x)
    if a.shape != b.shape:
        return f"{a.shape} against {b.shape}"
    for i in range(len(a)):
        if not same(a[i:i + 1], b[i:i + 1]):
            return f"at {x[i] if i < len(x) else i}: {a[i]} against {b[i]}"
