"""Controlled environments: right-hand sides whose answers are chosen by the
explorer, call by call."""
import numpy as np
from core import Budget

# deviations from the nominal answer f that the environment may choose
DEV = {
    "nan": lambda f: np.full_like(f, np.nan),
    "nan1": lambda f: _first(f, np.nan),
    "inf": lambda f: np.full_like(f, np.inf),
    "-inf1": lambda f: _first(f, -np.inf),
    "max": lambda f: np.full_like(f, 1e308),
    "big": lambda f: _first(f, 1e160),
    "jump": lambda f: f + 1e4,
    "kick": lambda f: f + 0.3,
    "flip": lambda f: -f,
    "zero": lambda f: np.zeros_like(f),
}


def _first(f, v):
    g = np.array(f)
    g[-1] = v
    return g


class Script:
    """RHS with call counting, a call budget and scripted deviations.

    plan: {call index: deviation name}, persist: index from which the
    deviation `pname` holds for ever.
    """

    def __init__(self, base, plan=None, persist=None, pname=None,
                 budget=200000, second=False, log=False):
        self.base = base
        self.plan = plan or {}
        self.persist = persist
        self.pname = pname
        self.n = 0
        self.budget = budget
        self.second = second      # Nystroem form: deviate the acceleration
        self.log = [] if log else None
        self.dev = 0
        self.tmin = np.inf
        self.tmax = -np.inf
        self.nonfinite = False
        self.huge = False

    def __call__(self, t, y):
        i = self.n
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        self.tmin = min(self.tmin, t)
        self.tmax = max(self.tmax, t)
        f = self.base(t, y)
        name = self.plan.get(i)
        if name is None and self.persist is not None and i >= self.persist:
            name = self.pname
        if name is not None:
            self.dev += 1
            if self.second:
                m = f.size // 2
                f = np.concatenate((f[:m], DEV[name](f[m:])))
            else:
                f = DEV[name](f)
            if not np.all(np.isfinite(f)):
                self.nonfinite = True
            elif np.max(np.abs(f)) > 1e150:
                self.huge = True
        if self.log is not None:
            self.log.append((float(t), np.array(y), np.array(f)))
        return f


def osc(t, y):
    return np.array([y[1], -y[0]])


def mild(t, y):
    return np.array([-y[0] + 0.25 * y[1], -0.5 * y[1] + t])


def scal(t, y):
    return -y


def osc_forced(t, y):
    """second order, velocity independent"""
    return np.array([y[1], -y[0] + 0.5 * t])


BASES = {
    "osc": (osc, [1.0, 0.5]),
    "mild": (mild, [1.0, -0.5]),
    "scal": (scal, [1.0]),
    "oscf": (osc_forced, [1.0, 0.25]),
}
