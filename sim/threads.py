"""Python threads under a scheduler: one runs at a time, and may be put aside at any line or bytecode of the code under
test. The schedule is a list of [number of points to pass, whom to run next]."""
import sys
import threading

from . import env

_Lock, _RLock = threading.Lock, threading.RLock
CURRENT = None


class SimLock:
    """what the code under test gets when it asks for a lock: waiting lets the others run"""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.mine() or not blocking:
            return self._l.acquire(blocking, timeout) if s is None or not s.mine() else self._l.acquire(False)
        tries = 0
        while not self._l.acquire(False):
            if timeout is not None and timeout >= 0 and tries > 50:
                return False
            tries += 1
            s.wait_for_others()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._l, name)


def _by_repo():
    return env.is_repo_file(sys._getframe(2).f_code.co_filename)


def install():
    """before the library is imported"""
    threading.Lock = lambda: SimLock(_Lock()) if _by_repo() else _Lock()
    threading.RLock = lambda: SimLock(_RLock()) if _by_repo() else _RLock()


class Deadlock(BaseException):
    pass


class Scheduler:
    def __init__(self, switches, opcodes=False):
        self.switches = list(switches)
        self.opcodes = opcodes
        self.sems = []
        self.bodies = []
        self.alive = []
        self.ids = {}
        self.at = 0
        self.left = self.switches[0][0] if self.switches else None
        self.points = 0
        self.taken = 0
        self.stuck = 0
        self.trace = []
        self.known = {}
        self.done = threading.Semaphore(0)

    def add(self, body):
        self.bodies.append(body)

    def mine(self):
        return threading.get_ident() in self.ids

    # a thread gives the baton to another one and waits until it gets it back
    def hand_to(self, me, other):
        if other == me:
            return
        self.sems[other].release()
        self.sems[me].acquire()

    def wait_for_others(self):
        me = self.ids[threading.get_ident()]
        self.stuck += 1
        if self.stuck > 20000:
            raise Deadlock("all threads wait for each other")
        live = [k for k, a in enumerate(self.alive) if a and k != me]
        if not live:
            raise Deadlock("a thread waits for a lock that nobody is going to release")
        later = [k for k in live if k > me]
        self.hand_to(me, (later or live)[0])

    def point(self, me, where):
        self.points += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        target = self.switches[self.at][1]
        self.at += 1
        self.left = self.switches[self.at][0] if self.at < len(self.switches) else None
        live = [k for k, a in enumerate(self.alive) if a and k != me]
        if live:
            self.taken += 1
            self.stuck = 0
            other = live[target % len(live)]
            self.trace.append([where, other])
            self.hand_to(me, other)

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.point(me, f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_lineno}")
            return local

        def glob(frame, event, arg):
            if event != "call":
                return None
            f = frame.f_code.co_filename
            ok = self.known.get(f)
            if ok is None:
                ok = self.known[f] = env.is_repo_file(f)
            if not ok or frame.f_code.co_name == "<module>":
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def run(self):
        global CURRENT
        CURRENT = self
        n = len(self.bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        problems = []

        def main(k, body):
            self.ids[threading.get_ident()] = k
            self.sems[k].acquire()
            sys.settrace(self.tracer(k))
            try:
                body()
            except BaseException as e:
                sys.settrace(None)
                problems.append((k, e))
            finally:
                sys.settrace(None)
                self.alive[k] = False
                live = [j for j, a in enumerate(self.alive) if a]
                if live:
                    later = [j for j in live if j > k]
                    self.sems[(later or live)[0]].release()
                else:
                    self.done.release()

        ts = [threading.Thread(target=main, args=(k, b), daemon=True) for k, b in enumerate(self.bodies)]
        for t in ts:
            t.start()
        while len(self.ids) < n:
            pass
        if n:
            self.sems[0].release()
            self.done.acquire()
        for t in ts:
            t.join(5)
        CURRENT = None
        return problems
