"""O03 implicit methods have their documented order."""
import numpy as np
from scipy.sparse import csc_array
import core
import methods as mt
import trees as T

ID = "O03"
TECHNIQUE = ("exhaustive exploration of all elementary differentials (rooted "
             "trees) up to the order of each method, executed as differential "
             "equations by the real implicit step; the exact solution is the "
             "oracle")
NOTE = ("With a Jacobian at the start of the step the simplified Newton "
        "iteration solves the stages of these trees exactly, so that the "
        "order is decided up to rounding.")
RULE = ("Every implicit method and interpolant x all rooted trees up to its "
        "order x {autonomous, time dependent} x mass matrix {none, diagonal, "
        "full, sparse} x dense/sparse Jacobian x "
        "start times x step sizes x directions x three steps x 13 points of "
        "each continuous solution; error estimate: every tree up to one order "
        "beyond on its own. Outcome class = (method, mass matrix, order).")
ASSUMPTIONS = ["exact up to relative rounding of 1e-9"]
NAMES = mt.ESDIRK
TH = np.linspace(0.0, 1.0, 13)
TOL = 1e-9
MASS = ["none", "diag", "full", "sparse"]


def cases(tier):
    hs = [1.0, 0.375, -0.8] if tier == "quick" else \
        [1.0, 0.375, 0.0625, -1.0, -0.8, -0.05, 1.5, -2.0]
    t0s = [0.0, -2.7] if tier == "quick" else [0.0, 1.0, -2.7, 40.3]
    for name in NAMES:
        for timed in (0, 1):
            for mass in MASS:
                for spj in (0, 1):
                    for h in hs:
                        for t0 in t0s:
                            yield dict(part="step", m=name, h=h, t0=t0,
                                       timed=timed, mass=mass, spj=spj)
        for mass in MASS:
            for h in hs:
                yield dict(part="est", m=name, h=h, mass=mass)


def matrix(kind, n):
    if kind == "none":
        return None, np.eye(n)
    d = 2.0 ** ((np.arange(n) * 2) % 5 - 2) * (-1.0) ** np.arange(n)
    if kind == "diag":
        return d, np.diag(d)
    A = np.eye(n) + np.diag(0.5 * np.ones(n - 1), 1) if n > 1 else np.eye(1)
    A = A @ np.diag(d)
    for i in range(n - 1):
        A[i + 1, 0] += 0.25 * (i % 3)
    return (csc_array(A) if kind == "sparse" else A), A


def run(case, res):
    m = mt.ALL[case["m"]]
    {"step": steps, "est": estimate}[case["part"]](m, case, res)


def compare(f, y, t, h, top, tag, key, res):
    s = max(abs(t - f.t0), abs(h))
    rt = 4 * np.spacing(max(abs(t), abs(f.t0))) / s
    e = np.abs(y - f.exact(t)) / s ** f.order
    k = np.where(f.order <= top, e, 0.0)
    i = int(np.argmax(k))
    if not k[i] <= TOL + 50 * rt:
        res.bad(key, "%s at t=%r: tree %s of order %d: %r instead of %r "
                "(scaled error %.2e)" % (tag, t, f.ts[i], f.order[i], y[i],
                                         f.exact(t)[i], k[i]))
        return False
    return True


def steps(m, case, res):
    h, t0 = case["h"], case["t0"]
    p = m.order
    ts = [t for k in range(1, p + 1) for t in T.trees(k)]
    f = T.TreeODE(ts, t0, case["timed"])
    M, A = matrix(case["mass"], f.n)

    def fun(t, y):
        return A @ f(t, y)

    def jac(t, y):
        J = A @ f.jac(t, y)
        return csc_array(J) if case["spj"] else J

    sol = m.make(fun, t0, np.zeros(f.n), t0 + 40 * h, first_step=abs(h),
                 max_step=abs(h), atol=300.0 * max(1, abs(3 * h)) ** p,
                 rtol=1e-3, jac=jac, jac_each_step=True, M=M)
    tag = "%s h=%g t0=%g timed=%d M=%s sparse J=%d" % (
        m.name, h, t0, case["timed"], case["mass"], case["spj"])
    for step in range(3):
        sol.step()
        if sol.status != "running":
            res.bad("status:" + m.name, tag + ": " + sol.status)
            return
        hh = sol.t - sol.t_old
        if abs(hh - h) > 1e-9:
            res.bad("newton:" + m.name, "%s step %d: step %r; a linear or "
                    "quadratic stage equation was not solved" % (tag, step,
                                                                 hh))
            return
        if not compare(f, sol.y, sol.t, hh, p, "%s step %d: solution"
                       % (tag, step), "solution:" + m.name, res):
            return
        itp = sol.dense_output()
        ys = itp(sol.t_old + TH * hh)
        for j, th in enumerate(TH):
            if not compare(f, ys[:, j], sol.t_old + th * hh, hh, p,
                           "%s step %d: continuous solution" % (tag, step),
                           "dense:" + m.name, res):
                return
        res.transitions += 1
        res.states += f.n * (1 + len(TH))
    res.traces += 1
    res.sig(m.name, "step", case["mass"], p)
    if res.sample is None:
        res.sample = {"run": tag, "trees": f.n}


def estimate(m, case, res):
    h = case["h"]
    q = min(m.order, m.secondary)
    seen = 0
    for k in range(1, q + 2):
        for tree in T.trees(k):
            if tree == ((), ((),)):
                continue         # nonlinear stage equation
            f = T.TreeODE([tree], 0.0, True)
            if f.ts[-1] != tree:
                raise AssertionError("order of the trees")
            M, A = matrix(case["mass"], f.n)
            atol = np.full(f.n, 1e9)
            atol[-1] = 1e-10 * abs(h) ** k
            sol = m.make(lambda t, y: A @ f(t, y), 0.0, np.zeros(f.n), 40 * h,
                         first_step=abs(h), atol=atol, rtol=1e-15, M=M,
                         jac=lambda t, y: A @ f.jac(t, y))
            sol.step()
            ok = abs(sol.t - h) < 1e-12
            res.transitions += 1
            res.states += 1
            if k <= q and not ok:
                res.bad("estimate:" + m.name, "%s h=%g M=%s: error "
                        "estimate is not zero for tree %s of order %d "
                        "(secondary order %d)" % (m.name, h, case["mass"],
                                                  tree, k, q))
                return
            seen += k > q and not ok
    res.traces += 1
    res.sig(m.name, "est", q, seen)
    if not seen:
        res.bad("blind:" + m.name, "%s h=%g M=%s: error estimate vanishes "
                "for all trees of order %d" % (m.name, h, case["mass"],
                                               q + 1))
