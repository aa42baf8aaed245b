"""Interrupts and interference at chosen lines of the code under test."""
import ast
import sys
import threading

from . import env

_SAFE = {}


def unsafe_lines(filename):
    """lines at which no interrupt is injected: `with` headers (the interpreter visits them again on the way out, at a
    moment at which real interrupts are not delivered) and the bodies of handlers that clean up"""
    if filename not in _SAFE:
        bad = set()
        try:
            tree = ast.parse(open(filename, encoding="utf8").read())
            for node in ast.walk(tree):
                if isinstance(node, (ast.With, ast.AsyncWith)):
                    bad.update(range(node.lineno, node.body[0].lineno))
                elif isinstance(node, ast.ExceptHandler):
                    bad.update(range(node.lineno, max(getattr(b, "end_lineno", node.lineno) for b in node.body) + 1))
                elif isinstance(node, ast.Try) and node.finalbody:
                    bad.update(range(node.finalbody[0].lineno, node.finalbody[-1].end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _SAFE[filename] = bad
    return _SAFE[filename]


class Lines:
    """Counts the lines of the code under test that are executed in the body; at given counts does something"""

    def __init__(self, at=None, action=None, scope=env.is_repo_file, note=None):
        self.at = {} if at is None else at  # {count: callable}
        self.n = 0
        self.note = note
        self.where = {}
        self.scope = scope
        self.busy = False
        self.known = {}

    def _global(self, frame, event, arg):
        if event != "call" or self.busy:
            return None
        f = frame.f_code.co_filename
        ok = self.known.get(f)
        if ok is None:
            ok = self.known[f] = bool(self.scope(f))
        return self._local if ok else None

    def _local(self, frame, event, arg):
        if event == "line" and not self.busy:
            f = frame.f_code.co_filename
            if frame.f_lineno not in unsafe_lines(f):
                self.n += 1
                if self.note is not None:
                    self.note((f, frame.f_lineno), self.n)
                act = self.at.get(self.n)
                if act is not None:
                    self.where[self.n] = f"{f.rsplit('/', 1)[-1]}:{frame.f_lineno}"
                    self.busy = True
                    try:
                        act()
                    finally:
                        self.busy = False
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)
        return False


def count_lines(fn):
    with Lines() as t:
        fn()
    return t.n


class Interrupted(BaseException):
    pass


EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit, "error": RuntimeError,
       "float": FloatingPointError, "recursion": RecursionError, "timeout": TimeoutError}


def thrower(name):
    def act():
        raise EXC[name]("injected")
    return act
