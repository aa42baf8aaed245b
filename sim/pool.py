"""Simulated worker pools.

SimProcessPool / SimThreadPool / SimMPPool stand in for concurrent.futures.ProcessPoolExecutor, ThreadPoolExecutor and
multiprocessing.Pool. Process workers are real forked processes that hold real, separate interpreter state, but each
is parked on a pipe and runs only when the scheduler hands it a task, so that exactly one process runs at any time.
A seeded scheduler decides which worker takes the next task, when a finished task is delivered, and where workers die.
"""
import concurrent.futures as cf
import concurrent.futures._base as cfb
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import multiprocessing
import multiprocessing.pool as mpp
import os
import pickle
import random as _random
import struct
import sys
import weakref

REAL = {"ProcessPoolExecutor": cfp.ProcessPoolExecutor, "ThreadPoolExecutor": cft.ThreadPoolExecutor,
        "as_completed": cf.as_completed, "wait": cf.wait, "cpu_count": os.cpu_count, "fork": os.fork,
        "Pool": multiprocessing.Pool}

CURRENT = None  # the World of the run


class Deadlock(RuntimeError):
    pass


class World:
    """Scheduler and fault plan of one run"""

    def __init__(self, ctx, seed, cpu_count=4, start_method="fork", faults=(), policy="mixed"):
        self.ctx = ctx
        self.rng = _random.Random(f"sched {seed}")
        self.cpu_count = cpu_count
        self.start_method = start_method
        self.faults = [dict(f) for f in faults]
        self.policy = policy
        self.executors = []  # weakrefs
        self.assigned = 0
        self.pumps = 0
        self.forks = 0
        self.clock = 0.0
        self.unit = self.rng.choice([0.01, 1.0, 1.0, 60.0, 5000.0])  # how long a task takes, simulated seconds
        self.log = []  # scheduling decisions
        self.pids = set()
        self.fired = []

    def decide(self, *what):
        self.log.append(what)
        self.ctx.steps += 1
        self.ctx.event("sched", *what)

    def take_fault(self, kind, at):
        for f in self.faults:
            if f["kind"] == kind and f["at"] == at and not f.get("fired"):
                f["fired"] = True
                self.fired.append(kind)
                self.ctx.fault(kind)
                return f
        return None

    def next_delivery(self, ex):
        """simulated time of the earliest thing that can happen: now, if a task can be handed out"""
        if ex._queue and any(x.alive and x.task is None for x in ex._workers):
            return self.clock
        return min([x.ready_at for x in ex._workers if x.alive and x.task is not None], default=self.clock)

    def live(self):
        out = []
        for ref in self.executors:
            ex = ref()
            if ex is not None:
                out += [w.pid for w in ex._workers if w.alive]
        return out + [p for p in self.pids if _alive(p) and p not in out]

    def close(self):
        for p in list(self.pids):
            try:
                os.kill(p, 9)
                os.waitpid(p, 0)
            except OSError:
                pass
        self.pids.clear()


def _alive(pid):
    try:
        p, _ = os.waitpid(pid, os.WNOHANG)
        return p == 0
    except ChildProcessError:
        return False


def _send(fd, obj):
    b = pickle.dumps(obj)
    data = struct.pack("<I", len(b)) + b
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out
    n = struct.unpack("<I", get(4))[0]
    return pickle.loads(get(n))


class Worker:
    """A parked process"""

    def __init__(self, world, idx, initializer=None, initargs=(), spawn=False):
        self.idx = idx
        self.task = None
        self.outcome = None
        self.ready_at = 0.0
        self.alive = True
        a, b = os.pipe()
        c, d = os.pipe()
        entropy = world.rng.getrandbits(32)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self._loop(a, d, entropy, initializer, initargs, spawn)
            except BaseException:
                pass
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        world.pids.add(self.pid)

    @staticmethod
    def _loop(r, w, entropy, initializer, initargs, spawn):
        global CURRENT
        CURRENT = None
        _random.seed(entropy)  # the real thing seeds it from the operating system after a fork
        if spawn:  # a new interpreter has a random state of its own
            import numpy as np
            np.random.seed(entropy)
        try:
            if initializer is not None:
                initializer(*initargs)
        except BaseException:
            os._exit(1)
        while True:
            msg = _recv(r)
            if msg is None:
                return
            try:
                fn, args, kw = pickle.loads(msg)
                out = (True, fn(*args, **kw))
            except BaseException as e:
                out = (False, e)
            try:
                b = pickle.dumps(out)
            except BaseException as e:
                b = pickle.dumps((False, e if _picklable(e) else RuntimeError(repr(e))))
            _send(w, b)

    def run(self, payload):
        _send(self.w, payload)
        return pickle.loads(_recv(self.r))

    def kill(self):
        if self.alive:
            self.alive = False
            for fd in (self.w, self.r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(self.pid, 9)
            except OSError:
                pass
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass


def _picklable(e):
    try:
        pickle.loads(pickle.dumps(e))
        return True
    except Exception:
        return False


class SimFuture(cfb.Future):
    def __init__(self, ex):
        super().__init__()
        self._ex = ex
        self.seq = 0

    def _pump_until_done(self, timeout=None):
        w = self._ex._world
        end = None if timeout is None else w.clock + timeout
        while not super().done():
            if end is not None and w.next_delivery(self._ex) > end:
                w.clock = max(w.clock, end)
                raise cf.TimeoutError()
            self._ex._pump(waiting_for=self)

    def result(self, timeout=None):
        self._pump_until_done(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._pump_until_done(timeout)
        return super().exception(0)

    def done(self):
        d = super().done()
        if not d and self._ex is not None and self._ex._can_pump():  # polling gives the others time to run
            self._ex._pump(waiting_for=self, polling=True)
            d = super().done()
        return d


class _Task:
    def __init__(self, n, fut, payload):
        self.n, self.fut, self.payload = n, fut, payload


class SimProcessPool(cfb.Executor):
    _process_based = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None,
                 **_):
        world = CURRENT
        if world is None:
            raise RuntimeError("no simulated world")
        if max_workers is None:
            max_workers = world.cpu_count or 1
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._world = world
        self._max = int(max_workers)
        self._init = (initializer, initargs)
        self._queue = []
        self._workers = []
        self._n = 0
        self._broken = None
        self._shutdown = False
        self._spawn = world.start_method == "spawn"
        if mp_context is not None:
            self._spawn = mp_context.get_start_method() != "fork"
        world.executors.append(weakref.ref(self))
        world.decide("pool", self._max, self._process_based)

    # -- API
    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise cfp.BrokenProcessPool(self._broken)
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture(self)
        try:
            payload = self._payload(fn, args, kwargs)
            if not self._workers or self._spawn:
                self._start_workers()
        except pickle.PicklingError as e:
            f.set_exception(e)
            return f
        self._n += 1
        f.seq = self._n
        self._queue.append(_Task(self._n, f, payload))
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        end = None if timeout is None else self._world.clock + timeout

        def results():
            try:
                fs.reverse()
                while fs:
                    yield fs.pop().result(None if end is None else max(0.0, end - self._world.clock))
            finally:
                for f in fs:
                    f.cancel()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            for t in self._queue:
                t.fut.cancel()
            self._queue = [t for t in self._queue if not t.fut.cancelled()]
        while not self._broken and (self._queue or any(w.task for w in self._workers)):
            self._pump()
        for w in self._workers:
            w.kill()
        self._workers = [w for w in self._workers if w.alive]

    def __del__(self):
        try:
            for w in self._workers:
                w.kill()
        except Exception:
            pass

    # -- inside
    def _payload(self, fn, args, kwargs):
        try:
            return pickle.dumps((fn, args, kwargs))
        except Exception as e:  # the real pool puts it on the future
            raise pickle.PicklingError(str(e)) from e

    def _start_workers(self):
        w = self._world
        want = self._max if not self._spawn else min(self._max, len(self._workers) + 1)
        while len(self._workers) < want:
            w.forks += 1
            if w.take_fault("fork-fails", w.forks):
                raise OSError(11, "Resource temporarily unavailable")
            self._workers.append(Worker(w, len(self._workers), *self._init, spawn=self._spawn))

    def _can_pump(self):
        return not self._broken and bool(self._queue or any(w.task for w in self._workers))

    def _break(self, why):
        self._broken = why
        self._world.decide("broken", why)
        exc = cfp.BrokenProcessPool(why)
        for w in self._workers:
            if w.task is not None and not w.task.fut.cancelled():
                w.task.fut.set_exception(exc)
            w.task = None
        for t in self._queue:
            if not t.fut.cancelled():
                t.fut.set_exception(exc)
        self._queue = []
        for w in self._workers:
            w.kill()

    def _pump(self, waiting_for=None, polling=False):
        w = self._world
        w.pumps += 1
        if w.pumps > 200000:
            raise Deadlock("polling without end")
        if not polling and w.take_fault("interrupt-while-waiting", w.pumps):
            raise KeyboardInterrupt
        f = w.take_fault("idle-worker-dies", w.pumps)
        if f and any(x.alive for x in self._workers):
            self._break("A process in the process pool was terminated abruptly")
            return
        while self._queue and self._queue[0].fut.cancelled():
            self._queue.pop(0)
        idle = [x for x in self._workers if x.alive and x.task is None]
        busy = [x for x in self._workers if x.alive and x.task is not None]
        can_assign = bool(idle and self._queue)
        if not can_assign and not busy:
            raise Deadlock("waiting for a result that nothing will ever deliver")
        if can_assign and (not busy or w.rng.random() < {"eager": 0.9, "lazy": 0.2}.get(w.policy, 0.5)):
            x = w.rng.choice(idle) if w.policy != "one" else idle[0]
            t = self._queue.pop(0)
            if not t.fut.set_running_or_notify_cancel():
                return
            x.task = t
            w.assigned += 1
            w.decide("assign", x.idx, t.n)
            if w.take_fault("worker-dies-before-task", w.assigned):
                self._break("A process in the process pool was terminated abruptly")
                return
            x.outcome = x.run(t.payload)
            x.ready_at = w.clock + w.rng.expovariate(1.0) * w.unit * (30 if w.rng.random() < 0.05 else 1)
            if w.take_fault("worker-dies-after-task", w.assigned):
                self._break("A process in the process pool was terminated abruptly")
                return
        else:
            x = min(busy, key=lambda y: (y.ready_at, y.idx))
            t, x.task = x.task, None
            w.clock = max(w.clock, x.ready_at)
            w.ctx.sim_time = max(w.ctx.sim_time, w.clock)
            w.decide("finish", x.idx, t.n)
            ok, val = x.outcome
            if ok:
                t.fut.set_result(val)
            else:
                t.fut.set_exception(val)


class _Inline:
    def __init__(self, idx):
        self.idx, self.task, self.outcome, self.alive, self.ready_at, self.pid = idx, None, None, True, 0.0, -1

    def run(self, payload):
        fn, args, kw = payload
        try:
            return True, fn(*args, **kw)
        except BaseException as e:
            return False, e

    def kill(self):
        self.alive = False


class SimThreadPool(SimProcessPool):
    """tasks run in this process, one after the other, in the order the scheduler picks"""
    _process_based = False

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers or min(32, (CURRENT.cpu_count or 1) + 4))

    def _payload(self, fn, args, kwargs):
        return fn, args, kwargs

    def _start_workers(self):
        while len(self._workers) < self._max:
            self._workers.append(_Inline(len(self._workers)))


class SimMPPool:
    """multiprocessing.Pool on top of the simulated executor"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._ex = SimProcessPool(processes, None, initializer, initargs)

    class _Res:
        def __init__(self, fut):
            self.f = fut

        def get(self, timeout=None):
            try:
                return self.f.result(timeout)
            except cf.TimeoutError:
                raise multiprocessing.TimeoutError from None

        def wait(self, timeout=None):
            self.f.exception()

        def ready(self):
            return self.f.done()

        def successful(self):
            return self.f.exception() is None

    class _MapRes(_Res):
        def __init__(self, futs):
            self.fs = futs

        def get(self, timeout=None):
            try:
                return [f.result(timeout) for f in self.fs]
            except cf.TimeoutError:
                raise multiprocessing.TimeoutError from None

        def wait(self, timeout=None):
            for f in self.fs:
                f.exception()

        def ready(self):
            return all(f.done() for f in self.fs)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        f = self._ex.submit(func, *args, **kwds)
        if callback:
            f.add_done_callback(lambda x: x.exception() is None and callback(x.result()))
        return self._Res(f)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._MapRes([self._ex.submit(func, a) for a in iterable])

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._MapRes([self._ex.submit(func, *a) for a in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        fs = [self._ex.submit(func, a) for a in iterable]
        return (f.result() for f in fs)

    def imap_unordered(self, func, iterable, chunksize=1):
        return (f.result() for f in sim_as_completed([self._ex.submit(func, a) for a in iterable]))

    def close(self):
        self._ex._shutdown = True

    def terminate(self):
        for t in self._ex._queue:
            t.fut.cancel()
        self._ex._queue = []
        for w in self._ex._workers:
            w.kill()

    def join(self):
        self._ex.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if any(not isinstance(f, SimFuture) for f in fs):
        yield from REAL["as_completed"](fs, timeout)
        return
    pending = list(dict.fromkeys(fs))
    end = None if timeout is None or not pending else pending[0]._ex._world.clock + timeout
    while pending:
        done = [f for f in pending if cfb.Future.done(f)]
        for f in done:
            pending.remove(f)
            yield f
        if not done:
            ex = pending[0]._ex
            if end is not None and ex._world.next_delivery(ex) > end:
                raise cf.TimeoutError(f"{len(pending)} (of {len(fs)}) futures unfinished")
            ex._pump()


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    if any(not isinstance(f, SimFuture) for f in fs):
        return REAL["wait"](fs, timeout, return_when)
    end = None if timeout is None or not fs else next(iter(fs))._ex._world.clock + timeout
    while True:
        done = {f for f in fs if cfb.Future.done(f)}
        if done == fs or (done and return_when == cf.FIRST_COMPLETED) or (
                return_when == cf.FIRST_EXCEPTION and any(cfb.Future.exception(f, 0) for f in done)):
            return cfb.DoneAndNotDoneFutures(done, fs - done)
        order = sorted(fs - done, key=lambda f: f.seq)
        ex = order[0]._ex
        if end is not None and ex._world.next_delivery(ex) > end:
            return cfb.DoneAndNotDoneFutures(done, fs - done)
        ex._pump()


def _factory(sim, real):
    class Meta(type):
        def __call__(cls, *a, **k):
            return (sim if CURRENT is not None else real)(*a, **k)

        def __instancecheck__(cls, obj):
            return isinstance(obj, (sim, real))
    return Meta(real.__name__, (), {})


def install():
    p = _factory(SimProcessPool, REAL["ProcessPoolExecutor"])
    t = _factory(SimThreadPool, REAL["ThreadPoolExecutor"])
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = p
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = t
    cf.as_completed = cfb.as_completed = sim_as_completed
    cf.wait = cfb.wait = sim_wait

    def cpu_count():
        return CURRENT.cpu_count if CURRENT is not None else REAL["cpu_count"]()

    os.cpu_count = cpu_count

    def mp_cpu_count():
        n = cpu_count()
        if n is None:
            raise NotImplementedError("cannot determine number of cpus")
        return n
    multiprocessing.cpu_count = mp_cpu_count

    def pool(*a, **k):
        return SimMPPool(*a, **k) if CURRENT is not None else REAL["Pool"](*a, **k)
    multiprocessing.Pool = pool
    mpp.Pool = pool
    real_get = multiprocessing.get_context

    class Ctx:
        def __init__(self, c):
            self._c = c
            self.Pool = pool
            self.cpu_count = mp_cpu_count

        def __getattr__(self, n):
            return getattr(self._c, n)

    multiprocessing.get_context = lambda method=None: Ctx(real_get(method))


def enter(world):
    global CURRENT
    CURRENT = world


def leave():
    global CURRENT
    CURRENT = None
