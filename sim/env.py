"""Where the code under test comes from, how its extensions are built, how it is imported.

Nothing here writes below /repo: Python sources are compiled in memory straight from the working tree, and the
Cython sources of the working tree are built into /verif/.build/<hash of their content>/.
"""
import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / ".build"
PKG = "copulae"

ENV = {
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
}

DIRECTIVES = {"boundscheck": "False", "wraparound": "False", "nonecheck": "False", "cdivision": "True"}


def _pyx_files():
    return sorted(p for p in (REPO / PKG).rglob("*.pyx"))


def _modname(p: Path):
    return ".".join(p.relative_to(REPO).with_suffix("").parts)


def _key(p: Path, extra: str):
    h = hashlib.sha256()
    h.update(p.read_bytes())
    for q in sorted([*p.parent.glob("*.pxd"), *p.parent.glob("*.pxi")]):
        h.update(q.name.encode() + q.read_bytes())
    h.update(extra.encode() + sys.version.encode() + repr(DIRECTIVES).encode())
    return h.hexdigest()[:24]


def _build_one(p: Path, variant: str) -> Path:
    """variant 'plain': as setup.py builds it. 'omp': instrumented, linked against the simulated OpenMP runtime.
    'rand': with the C library's random numbers replaced by a stream that the simulation controls"""
    import numpy
    shim = VERIF / "sim" / {"omp": "ompsim.c", "rand": "randsim.c", "plain": ""}[variant]
    extra = variant + (shim.read_text() if variant != "plain" else "")
    out = BUILD / f"{p.stem}-{variant}-{_key(p, extra)}"
    so = out / (p.stem + sysconfig.get_config_var("EXT_SUFFIX"))
    if so.exists():
        return so
    out.mkdir(parents=True, exist_ok=True)
    with open(out / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if so.exists():
            return so
        for q in [p, *p.parent.glob("*.pxd"), *p.parent.glob("*.pxi")]:
            (out / q.name).write_bytes(q.read_bytes())
        c = out / (p.stem + ".c")
        cmd = [sys.executable, "-m", "cython", "-3", "--module-name", _modname(p)]
        for k, v in DIRECTIVES.items():
            cmd += ["-X", f"{k}={v}"]
        _run([*cmd, str(out / p.name), "-o", str(c)], out)
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I" + str(p.parent)]
        flags = ["-shared", "-fPIC", "-O2", "-w", "-fno-strict-aliasing", "-DNPY_NO_DEPRECATED_API=1",
                 "-DNPY_1_7_API_VERSION=1", "-fopenmp"]
        tmp = out / ("tmp-" + so.name)
        if variant == "omp":
            o, so_ = out / "mod.o", out / "shim.o"
            _run(["gcc", *flags[1:], "-fsanitize=thread", *inc, "-c", str(c), "-o", str(o)], out)
            _run(["gcc", "-fPIC", "-O2", "-w", *inc, "-c", str(shim), "-o", str(so_)], out)
            # not linked with -fsanitize=thread: the shim supplies the access callbacks and the OpenMP entry points.
            # libgomp comes last, so it only serves entry points that the shim does not have.
            _run(["gcc", "-shared", str(o), str(so_), "-Wl,-Bsymbolic", "-o", str(tmp), "-lm", "-lpthread", "-lgomp"],
                 out)
        elif variant == "rand":
            so_ = out / "shim.o"
            _run(["gcc", "-fPIC", "-O2", "-w", "-c", str(shim), "-o", str(so_)], out)
            wrap = ["-Wl,--wrap=" + f for f in ("rand", "random", "rand_r", "srand", "srandom")]
            _run(["gcc", *flags, *inc, str(c), str(so_), *wrap, "-Wl,-Bsymbolic", "-o", str(tmp), "-lm"], out)
        else:
            _run(["gcc", *flags, *inc, str(c), "-o", str(tmp), "-lm"], out)
        os.replace(tmp, so)
    return so


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def build_all(*variants):
    files = _pyx_files()
    from concurrent.futures import ThreadPoolExecutor as T
    jobs = [(p, "plain") for p in files]
    if "omp" in variants:
        jobs += [(p, "omp") for p in files if "prange" in p.read_text() or "parallel" in p.read_text()]
    if "rand" in variants:
        jobs += [(p, "rand") for p in files if "rand" in p.read_text()]
    with T(8) as pool:
        sos = list(pool.map(lambda j: _build_one(*j), jobs))
    return {(_modname(p), v): so for (p, v), so in zip(jobs, sos)}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):  # never read or write a .pyc: it could be stale
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, exts):
        self.exts = exts

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        if fullname in self.exts:
            p = str(self.exts[fullname])
            return importlib.util.spec_from_file_location(
                fullname, p, loader=importlib.machinery.ExtensionFileLoader(fullname, p))
        base = REPO.joinpath(*fullname.split("."))
        if (base / "__init__.py").exists():
            p = str(base / "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(fullname, p),
                                                          submodule_search_locations=[str(base)])
        p = str(base) + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(fullname, p))
        return None


def reexec():
    """Fix the environment that has to be there when the interpreter starts"""
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv(sys.executable, [sys.executable, *sys.argv])


def preimport():
    """Third party modules, imported before any seam is put in place so that they keep the real thing"""
    import concurrent.futures.process, concurrent.futures.thread, multiprocessing.pool, threading, queue  # noqa
    import numpy, numpy.random, pandas, scipy.stats, scipy.optimize, scipy.special, scipy.interpolate  # noqa
    import scipy.integrate, scipy.linalg, scipy.stats.distributions  # noqa
    import sklearn.cluster, statsmodels.stats.correlation_tools, wrapt  # noqa
    import scipy.special.cython_special  # noqa


def install(variant="plain"):
    """Make `import copulae` take the working tree of /repo"""
    built = build_all(variant)
    exts = {}
    for (mod, v), so in built.items():
        if v == "plain":
            exts.setdefault(mod, so)
    for (mod, v), so in built.items():
        if v == variant:
            exts[mod] = so
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(exts))
    return exts


def is_repo_file(filename: str, _root=str(REPO / PKG) + os.sep):
    return filename.startswith(_root)
