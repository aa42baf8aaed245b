"""The seam between the library and scipy.optimize.minimize: pass through, observe, or stand in for it"""
import scipy.optimize as so
import scipy.optimize._minimize as som

REAL = som.minimize
HANDLER = None  # called instead of the real thing when set: handler(real, fun, x0, args, kwargs)
CALLS = 0


def minimize(fun, x0, *args, **kwargs):
    global CALLS
    CALLS += 1
    if HANDLER is None:
        return REAL(fun, x0, *args, **kwargs)
    return HANDLER(REAL, fun, x0, args, kwargs)


def install():
    """before the library is imported: it may bind the name at import or look it up at each call"""
    minimize.__doc__ = REAL.__doc__
    so.minimize = som.minimize = minimize


class use:
    def __init__(self, handler):
        self.handler = handler

    def __enter__(self):
        global HANDLER
        self.old, HANDLER = HANDLER, self.handler

    def __exit__(self, *a):
        global HANDLER
        HANDLER = self.old
        return False
