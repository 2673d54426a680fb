"""Rooted trees and Nystroem trees as differential equations.

A rooted tree is a sorted tuple of trees.  The system

    y_t' = prod_c y_c      (c: subtrees of t),     y(0) = 0

has the solution y_t = x^|t| / gamma(t), and its components are exactly the
elementary differentials: a one-step method has order p for every smooth
problem if and only if it integrates all trees with |t| <= p without error.
"""
from functools import lru_cache
import itertools
import numpy as np


@lru_cache(None)
def trees(order):
    """all rooted trees of this order"""
    return sorted({tuple(sorted(ch)) for ch in forests(order - 1)})


@lru_cache(None)
def forests(n):
    """all multisets of trees with n nodes in total"""
    if n == 0:
        return [()]
    out = set()
    for k in range(1, n + 1):
        for t in trees(k):
            for f in forests(n - k):
                out.add(tuple(sorted(f + (t,))))
    return sorted(out)


@lru_cache(None)
def order(t):
    return 1 + sum(order(c) for c in t)


@lru_cache(None)
def gamma(t):
    g = order(t)
    for c in t:
        g *= gamma(c)
    return g


def closure(ts):
    """the trees and all their subtrees, small ones first"""
    seen = set()

    def visit(t):
        if t not in seen:
            seen.add(t)
            for c in t:
                visit(c)
    for t in ts:
        visit(t)
    return sorted(seen, key=lambda t: (order(t), t))


class TreeODE:
    """right-hand side, Jacobian and solution for a list of trees (closed)

    timed: the tree of order one as a factor is the time itself
    """

    def __init__(self, ts, t0=0.0, timed=False):
        self.ts = closure(ts)
        self.n = len(self.ts)
        pos = {t: i for i, t in enumerate(self.ts)}
        self.kids = [[pos[c] for c in t] for t in self.ts]
        self.order = np.array([order(t) for t in self.ts])
        self.gamma = np.array([gamma(t) for t in self.ts], float)
        self.t0 = t0
        self.timed = timed
        self.one = pos[()]
        m = max([len(k) for k in self.kids] + [1])
        self.idx = np.full((self.n, m), self.n)
        for i, k in enumerate(self.kids):
            self.idx[i, :len(k)] = k

    def vec(self, t, y):
        z = np.append(y, 1.0)
        if self.timed:
            z[self.one] = t - self.t0
        return z

    def __call__(self, t, y):
        return np.prod(self.vec(t, y)[self.idx], axis=1)

    def jac(self, t, y):
        z = self.vec(t, y)
        J = np.zeros((self.n, self.n + 1))
        for i in range(self.n):
            for a, c in enumerate(self.kids[i]):
                if self.timed and c == self.one:
                    continue
                p = 1.0
                for b, e in enumerate(self.kids[i]):
                    if b != a:
                        p *= z[e]
                J[i, c] += p
        return J[:, :-1]

    def exact(self, t):
        return (t - self.t0) ** self.order / self.gamma


# Nystroem trees: a tuple of (kind, tree), kind "x" or "v", or "L" for the
# factor t (the given initial velocity of a force-free component)

@lru_cache(None)
def ntrees(n, vel=True):
    """all Nystroem trees of order n; the velocity behaves as t^n"""
    return sorted({tuple(sorted(f, key=repr)) for f in nforests(n - 1, vel)},
                  key=repr)


@lru_cache(None)
def nforests(n, vel):
    if n == 0:
        return [()]
    out = set()
    for k in range(1, n + 1):
        opts = []
        if k == 1:
            opts.append(("L", ()))
        if k > 1:
            opts += [("x", t) for t in ntrees(k - 1, vel)]
        if vel:
            opts += [("v", t) for t in ntrees(k, vel)]
        for o in opts:
            for f in nforests(n - k, vel):
                out.add(tuple(sorted(f + (o,), key=repr)))
    return sorted(out, key=repr)


@lru_cache(None)
def norder(t):
    n = 1
    for kind, c in t:
        n += 1 if kind == "L" else norder(c) + (kind == "x")
    return n


@lru_cache(None)
def ncoef(t):
    """velocity = ncoef * t^norder"""
    a = 1.0
    for kind, c in t:
        if kind == "v":
            a *= ncoef(c)
        elif kind == "x":
            a *= ncoef(c) / (norder(c) + 1)
    return a / norder(t)


def nclosure(ts):
    seen = set()

    def visit(t):
        if t not in seen:
            seen.add(t)
            for kind, c in t:
                if kind != "L":
                    visit(c)
    for t in ts:
        visit(t)
    return sorted(seen, key=lambda t: (norder(t), repr(t)))


class NystromODE:
    """component 0 is the force-free one with velocity one"""

    def __init__(self, ts, t0=0.0, timed=False):
        self.ts = nclosure(ts)
        self.n = len(self.ts) + 1
        n = self.n
        pos = {t: i + 1 for i, t in enumerate(self.ts)}
        self.t0, self.timed = t0, timed
        self.order = np.array([norder(t) for t in self.ts])
        self.coef = np.array([ncoef(t) for t in self.ts])
        kids = [[{"L": 0, "x": pos.get(c, 0), "v": n + pos.get(c, 0)}[k]
                 for k, c in t] for t in self.ts]
        m = max([len(k) for k in kids] + [1])
        self.idx = np.full((n, m), 2 * n)
        self.idx[0, 0] = 2 * n + 1
        for i, k in enumerate(kids):
            self.idx[i + 1, :len(k)] = k
        self.y0 = np.zeros(2 * n)
        self.y0[n] = 1.0

    def __call__(self, t, y):
        n = self.n
        z = np.concatenate((y, [1.0, 0.0]))
        if self.timed:
            z[0] = t - self.t0
        return np.concatenate((y[n:], np.prod(z[self.idx], axis=1)))

    def exact(self, t):
        s = t - self.t0
        v = np.concatenate(([1.0], self.coef * s ** self.order))
        x = np.concatenate(([s], self.coef / (self.order + 1) *
                            s ** (self.order + 1)))
        return np.concatenate((x, v))

    @property
    def orders(self):
        """order of every component of the state"""
        o = np.concatenate(([0], self.order))
        return np.concatenate((np.where(o > 0, o + 1, 1), o))
