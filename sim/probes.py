"""Copula classes that a user could have written, which record what the library asks of them (any process)."""
import mmap
import os
import pickle
import struct

import numpy as np

LOG = None
COUNTERS = None
LOG_ON = True
FAULT = None  # {"call": "fit"|"random"|"cdf", "at": k, "exc": name}
SLOTS = {"random": 0, "fit": 1, "cdf": 2}


def start(fault=None):
    global LOG, COUNTERS, FAULT
    LOG = os.memfd_create("probe-log")
    COUNTERS = mmap.mmap(-1, 64)
    FAULT = fault


def restart(fault=None):
    global FAULT
    os.ftruncate(LOG, 0)
    os.lseek(LOG, 0, 0)
    COUNTERS[:] = b"\0" * 64
    FAULT = fault


def _log(rec):
    if not LOG_ON:
        return
    rec["pid"] = os.getpid()
    b = pickle.dumps(rec)
    os.write(LOG, struct.pack("<I", len(b)) + b)


def records():
    n = os.lseek(LOG, 0, 1)
    raw = os.pread(LOG, n, 0)
    out, i = [], 0
    while i < len(raw):
        k = struct.unpack("<I", raw[i:i + 4])[0]
        out.append(pickle.loads(raw[i + 4:i + 4 + k]))
        i += 4 + k
    return out


class ReplicateFailed(RuntimeError):
    pass


EXC = {"error": lambda: ReplicateFailed("replicate failed"), "value": lambda: ValueError("replicate failed"),
       "linalg": lambda: np.linalg.LinAlgError("did not converge"), "memory": lambda: MemoryError(),
       "float": lambda: FloatingPointError("replicate failed"), "stop": lambda: StopIteration("replicate failed"),
       "os": lambda: OSError(28, "No space left on device"), "assert": lambda: AssertionError("replicate failed"),
       "timeout": lambda: TimeoutError("replicate failed")}


def _tick(kind):
    if not LOG_ON:
        return
    i = SLOTS[kind]
    n = struct.unpack_from("<q", COUNTERS, i * 8)[0] + 1
    struct.pack_into("<q", COUNTERS, i * 8, n)
    if FAULT is not None and FAULT["call"] == kind and FAULT["at"] == n:
        struct.pack_into("<q", COUNTERS, 56, 1)
        raise EXC[FAULT["exc"]]()


def fault_fired():
    return struct.unpack_from("<q", COUNTERS, 56)[0] == 1


def _plain(p):
    if isinstance(p, tuple):
        return [float(p[0]), *np.ravel(p[1]).tolist()]
    return np.ravel(np.asarray(p, float)).tolist()


class Recorder:
    def random(self, n, seed=None):
        _tick("random")
        params = _plain(self.params)
        out = super().random(n, seed)
        _log({"kind": "random", "n": n, "params": params, "out": np.array(out), "seed": seed})
        return out

    def fit(self, data, *args, **kwargs):
        _tick("fit")
        _log({"kind": "fit", "data": np.array(data), "args": args, "kwargs": {k: repr(v) for k, v in kwargs.items()},
              "before": _plain(self.params)})
        return super().fit(data, *args, **kwargs)

    def cdf(self, x, log=False):
        _tick("cdf")
        x_ = np.array(x)
        out = super().cdf(x, log)
        _log({"kind": "cdf", "x": x_, "out": np.array(out), "params": _plain(self.params)})
        return out


def define():
    """after copulae can be imported"""
    g = globals()
    if "Probe" in g:
        return
    from copulae.copula import BaseCopula
    from copulae import (ClaytonCopula, FrankCopula, GaussianCopula, GumbelCopula, StudentCopula)

    class _Cheap(BaseCopula):
        """one parameter, a fit in closed form"""

        def __init__(self, dim=2):
            super().__init__(dim, "Probe")
            self._t = 0.0

        @property
        def params(self):
            return self._t

        @params.setter
        def params(self, v):
            self._t = float(v)

        def fit(self, data, x0=None, method="ml", optim_options=None, ties="average", verbose=1, to_pobs=True,
                scale=1.0, boost=0.0):
            z = np.asarray(data, float) - 0.5
            c = float(np.mean(z[:, 0] * z[:, 1]) * 12)
            self._t = min(max(c, 0.0), 0.95) + boost
            return self

        def cdf(self, x, log=False):
            x = np.asarray(x, float)
            return self._t * x.min(1) + (1 - self._t) * x.prod(1)

        def pdf(self, u, log=False):
            return np.ones(len(u))

        def random(self, n, seed=None):
            r = np.random if seed is None else np.random.RandomState(seed)
            u = r.uniform(size=(n, self.dim))
            common = r.uniform(size=n) < self._t
            u[common] = u[common][:, :1] + 0 * u[common]
            u[common] += r.uniform(size=u[common].shape) * 1e-9
            return np.minimum(u, 1 - 1e-12)

    for name, base in [("Probe", _Cheap), ("RecGaussian", GaussianCopula), ("RecStudent", StudentCopula),
                       ("RecClayton", ClaytonCopula), ("RecFrank", FrankCopula), ("RecGumbel", GumbelCopula)]:
        cls = type(name, (Recorder, base), {"__module__": __name__})
        cls.__qualname__ = name
        g[name] = cls
    _Cheap.__module__ = __name__
    g["_Cheap"] = _Cheap
