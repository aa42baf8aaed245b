"""Calls of the library's plain functions, as plain JSON"""
import importlib

import numpy as np
import pandas as pd

from . import world as W

LAYOUTS = ["c", "c", "f", "stride", "reverse", "readonly"]


def arr(rng, low, high, shape=None, kind="float"):
    shape = shape or [rng.choice([1, 2, 3, 7, 16])]
    return {"array": [low, high], "shape": list(shape), "seed": rng.randrange(1 << 30), "layout": rng.choice(LAYOUTS),
            "kind": kind}


def mat(rng, n=None, d=None, frame=None, kind=None):
    return {"matrix": [n or rng.choice([5, 9, 20]), d or rng.choice([2, 3])], "seed": rng.randrange(1 << 30),
            "layout": rng.choice(LAYOUTS), "kind": kind or rng.choice(["float", "float", "tied", "unit"]),
            "frame": rng.random() < 0.35 if frame is None else frame}


def pd_mat(rng, d, corr=False):
    return {"cov": d, "seed": rng.randrange(1 << 30), "corr": corr, "layout": rng.choice(LAYOUTS)}


def build(a):
    if not isinstance(a, dict):
        return a
    r = np.random.RandomState(a["seed"])
    if "array" in a:
        lo, hi = a["array"]
        x = r.uniform(lo, hi, a["shape"])
        if a["kind"] == "int":
            return np.floor(x).astype(int)
        if a["kind"] == "list":
            return x.tolist()
        if a["kind"] == "scalar":
            return float(x.ravel()[0])
        if a["kind"] == "complex":
            return x + 1j * r.uniform(lo, hi, a["shape"])
        if a["kind"] == "float32":
            return x.astype(np.float32)
        return W.laid(x, a["layout"])
    if "matrix" in a:
        n, d = a["matrix"]
        x = r.normal(size=(n, d)) + r.normal(size=(n, 1))
        if a["kind"] == "tied":
            x = np.round(x, 1)
            x[:, 0] = np.round(x[:, 0])
        elif a["kind"] == "unit":
            x = x.argsort(0).argsort(0) / (n + 1) + 1 / (n + 1)
        elif a["kind"] == "gaps":
            x[r.uniform(size=x.shape) < 0.1] = np.nan
        if a["frame"]:
            return pd.DataFrame(x, columns=[f"c{i}" for i in range(d)], index=range(100, 100 + n))
        return W.laid(x, a["layout"])
    d = a["cov"]
    m = r.normal(size=(d, d))
    m = m @ m.T + 0.3 * np.eye(d)
    if a["corr"]:
        s = np.sqrt(np.diag(m))
        m = m / np.outer(s, s)
    return W.laid(m, a["layout"])


def gen(rng, heavy=True):
    """one call: {"fn", "args", "kw"}; and gseed if the outcome depends on the process-wide random state"""
    def special():
        name = rng.choice(["clausen", "debye_1", "debye_2", "dilog", "dilog_complex", "log1mexp", "log1pexp", "log_sum",
                           "poly_log", "polyn_eval", "sign_ff", "comb", "perm", "eulerian_all", "stirling_first_all",
                           "stirling_second_all", "eulerian", "stirling_first", "stirling_second"])
        kind = rng.choice(["float", "float", "list", "scalar"])
        if name in ("clausen", "debye_1", "debye_2", "dilog"):
            return "special." + name, [arr(rng, -8, 9, kind=kind)], {"threaded": rng.random() < 0.5}
        if name == "dilog_complex":
            if rng.random() < 0.5:
                return "special." + name, [arr(rng, -3, 3, kind="complex")], {}
            n = rng.choice([1, 4])
            return "special." + name, [arr(rng, 0.1, 2, [n]), arr(rng, -3, 3, [n])], {}
        if name in ("log1mexp", "log1pexp"):
            return "special." + name, [arr(rng, 0.01, 60, kind=kind)], {}
        if name == "log_sum":
            return "special." + name, [arr(rng, -5, 5, [4, 3])], {}
        if name == "poly_log":
            return "special." + name, [arr(rng, 0.05, 0.9), rng.choice([-3, -2, -1, 0, 1, 2])], {"log": rng.random() < 0.3}
        if name == "polyn_eval":
            return "special." + name, [arr(rng, -2, 2, [4]), arr(rng, -2, 2, kind=kind)], {}
        if name == "sign_ff":
            n = rng.choice([1, 5])
            return "special." + name, [round(rng.uniform(0.1, 0.9), 3), arr(rng, 1, 6, [n], "int"),
                                       arr(rng, 1, 4, [n], "int")], {}
        if name in ("comb", "perm"):
            return "special." + name, [arr(rng, 6, 12, [4], "int"), arr(rng, 0, 6, [4], "int")], {}
        if name in ("eulerian", "stirling_first", "stirling_second"):
            n = rng.randrange(2, 12)
            return "special." + name, [n, rng.randrange(0, n + 1)], {}
        return "special." + name, [rng.randrange(1, 9)], {}

    def core():
        name = rng.choice(["pseudo_obs", "pseudo_obs", "rank_data", "corr2cov", "cov2corr", "is_psd", "near_psd",
                           "create_cov_matrix", "tri_indices"])
        if name == "pseudo_obs":
            return "core." + name, [mat(rng)], {"ties": rng.choice(W.TIES)}
        if name == "rank_data":
            return "core." + name, [mat(rng)], {"axis": rng.choice([0, 1]), "ties": rng.choice(W.TIES)}
        d = rng.choice([2, 3, 4])
        if name == "corr2cov":
            return "core." + name, [pd_mat(rng, d, True), arr(rng, 0.5, 2, [d])], {}
        if name == "cov2corr":
            return "core." + name, [pd_mat(rng, d)], {"return_std": rng.random() < 0.5}
        if name == "is_psd":
            return "core." + name, [pd_mat(rng, d)], {}
        if name == "near_psd":
            return "core." + name, [rng.choice([pd_mat(rng, d), mat_sym(rng, d)])], {"method": rng.choice(
                ["clipped", "clipped", "nearest"])}
        if name == "create_cov_matrix":
            return "core." + name, [arr(rng, -0.9, 0.9, [d * (d - 1) // 2])], {}
        return "core." + name, [d], {"m": rng.choice([0, 1]), "side": rng.choice(["lower", "upper", "both"])}

    def stats():
        name = rng.choice(["corr", "corr", "kendall_tau", "spearman_rho", "pearson_rho", "multivariate_t.pdf",
                           "multivariate_t.logpdf", "multivariate_t.rvs", "skew_stable.pdf", "skew_stable.rvs",
                           "random_uniform"])
        use = rng.choice(["everything", "complete", "pairwise.complete"])
        if name == "corr":
            return "stats." + name, [mat(rng, kind=rng.choice(["float", "tied", "gaps"]))], {
                "method": rng.choice(["pearson", "kendall", "spearman"]), "use": use}
        if name in ("kendall_tau", "spearman_rho", "pearson_rho"):
            return "stats." + name, [mat(rng, kind=rng.choice(["float", "tied", "gaps"]))], {"use": use}
        if name.startswith("multivariate_t"):
            d = rng.choice([2, 3])
            kw = {"mean": arr(rng, -1, 1, [d]), "cov": pd_mat(rng, d), "df": rng.choice([0.7, 3.0, 11.0])}
            if name.endswith("rvs"):
                return "stats." + name, [], {**kw, "size": rng.choice([1, 4]), "random_state": rng.randrange(1 << 30)}
            return "stats." + name, [arr(rng, -2, 2, [rng.choice([1, 5]), d])], kw
        if name == "skew_stable.pdf":
            return "stats." + name, [arr(rng, -1, 2, [1])], {"alpha": rng.choice([1.3, 1.7]), "beta": 0.4,
                                                             "gamma": 1.0, "delta": 0.2}
        if name == "skew_stable.rvs":
            return "stats." + name, [], {"alpha": 0.7, "beta": 1.0, "gamma": 1.0, "delta": 0.0, "size": 4,
                                         "gseed": rng.randrange(1 << 30)}
        return "stats." + name, [rng.choice([1, 5]), 2], {"seed": rng.randrange(1 << 30)}

    def more():
        name = rng.choice(["empirical.emp_dist_func", "empirical.emp_dist_func", "gof.exch_test", "gof.gof_copula",
                           "archimedean.gumbel_coef", "archimedean.gumbel_poly", "archimedean.dsum_sibuya"])
        if name.startswith("archimedean"):
            a = rng.choice([0.3, 0.5, 0.8]) * (1 + rng.choice([0, 0, 1e-9, 1e-6, 1e-5, 1e-4]))
            d = rng.choice([2, 3, 4, 7])
            if name.endswith("coef"):
                return name, [d, a], {"method": rng.choice(["sort", "horner", "direct", "log", "ds.direct", "diff"]),
                                      "log": rng.random() < 0.4}
            if name.endswith("poly"):
                return name, [arr(rng, -2, 3), a, d], {"method": rng.choice(["default", "pois", "direct", "log", "sort"]),
                                                       "log": rng.random() < 0.4}
            return name, [arr(rng, 2, 9, [3], "int"), arr(rng, 1, 4, [3], "int"), a], {
                "method": rng.choice(["log", "direct", "diff"]), "log": rng.random() < 0.4}
        if name == "empirical.emp_dist_func":
            d = rng.choice([2, 3])
            return name, [mat(rng, rng.choice([1, 4]), d, False, "unit"), mat(rng, 9, d, False, "unit")], {
                "smoothing": rng.choice(["none", "beta", "checkerboard"]), "offset": rng.choice([0, 1])}
        if name == "gof.exch_test":
            n = rng.choice([8, 12])
            return name, [arr(rng, 0, 5, [n]), arr(rng, 0, 5, [n])], {"N": 20, "m": rng.choice([0, 2]),
                                                                      "gseed": rng.randrange(1 << 30)}
        if name == "gof.gof_copula" and heavy:
            return name, [rng.choice(["clayton", "gumbel", "gaussian"]), mat(rng, 9, 2, kind="float"), 2], {
                "method": "itau", "multiprocess": False, "gseed": rng.randrange(1 << 30)}
        return core()

    fn, args, kw = rng.choice([special, special, core, core, stats, more])()
    call = {"op": "function", "fn": fn, "args": args, "kw": kw}
    if "gseed" in kw:
        call["gseed"] = kw.pop("gseed")
    return call


NAMES = """special.clausen special.debye_1 special.debye_2 special.dilog special.dilog_complex special.log1mexp
special.log1pexp special.log_sum special.poly_log special.polyn_eval special.sign_ff special.comb special.perm
special.eulerian_all special.stirling_first_all special.stirling_second_all special.eulerian special.stirling_first
special.stirling_second core.pseudo_obs core.rank_data core.corr2cov core.cov2corr core.is_psd core.near_psd
core.create_cov_matrix core.tri_indices stats.corr stats.kendall_tau stats.spearman_rho stats.pearson_rho
stats.multivariate_t.pdf stats.multivariate_t.logpdf stats.multivariate_t.rvs stats.skew_stable.pdf
stats.skew_stable.rvs stats.random_uniform empirical.emp_dist_func gof.exch_test gof.gof_copula
archimedean.gumbel_coef archimedean.gumbel_poly archimedean.dsum_sibuya""".split()


# all that there is to ask
TOURS = W.queries() + [[None, "function", n] for n in NAMES] + [[k, q, None] for k in W.KINDS for q in ("fit", "change")
                                                               if k != "indep"]


def named(rng, name):
    """a call of that function"""
    while True:
        call = gen(rng)
        if call["fn"] == name:
            return call


def mat_sym(rng, d):
    m = np.eye(d)
    for i in range(d):
        for j in range(i):
            m[i, j] = m[j, i] = round(rng.uniform(-1, 1), 3)
    return {"literal": m.tolist(), "seed": 0, "matrix": None}


def arguments(call):
    def b(a):
        if isinstance(a, dict) and "literal" in a:
            return np.array(a["literal"])
        if isinstance(a, dict) and "seed" in a and len(a) > 1:
            return build(a)
        return dict(a) if isinstance(a, dict) else a
    args = [b(a) for a in call["args"]]
    kw = {k: b(a) for k, a in call["kw"].items()}
    return args, kw


HOMES = {"special": ("special.special_func", "special.clausen", "special.debye", "special.dilog",
                     "special.combinatorics"),
         "archimedean": ("archimedean.gumbel", "archimedean.auxiliary"), "empirical": ("empirical.distribution",)}


def target(call):
    mod, name = call["fn"].split(".", 1)
    for home in HOMES.get(mod, (mod,)):
        f = importlib.import_module("copulae." + home)
        try:
            for p in name.split("."):
                f = getattr(f, p)
        except AttributeError:
            continue
        return f
    raise AttributeError(call["fn"])


COPULAS = {"clayton": "ClaytonCopula", "gumbel": "GumbelCopula", "gaussian": "GaussianCopula"}


def invoke(call, args, kw):
    if "gseed" in call:
        np.random.seed(call["gseed"])
    if call["fn"] == "gof.gof_copula":
        import copulae
        args = [getattr(copulae, COPULAS[args[0]]), *args[1:]]
    return target(call)(*args, **kw)


def perform(call):
    return invoke(call, *arguments(call))
