"""O01 explicit Runge-Kutta methods have their documented order."""
import numpy as np
import core
import methods as mt
import trees as T

ID = "O01"
TECHNIQUE = ("exhaustive exploration of all elementary differentials (rooted "
             "trees) up to the order of each method, executed as differential "
             "equations by the real step; the exact solution is the oracle")
NOTE = ("By the B-series theorem the finite set of trees decides the order "
        "for every smooth system; multi-step runs and continuous solutions "
        "are exact for the same trees.")
RULE = ("Every explicit Runge-Kutta method and interpolant x all rooted trees "
        "up to its order (486 for order nine) x {autonomous, time dependent} "
        "x start times x step sizes x directions x three consecutive steps x "
        "13 points of each continuous solution; for the error estimate every "
        "tree up to one order more than its secondary formula on its own; "
        "both fallback solutions of the variable order method. Outcome class "
        "= (method, part, order, exact?).")
ASSUMPTIONS = ["exact up to relative rounding of 1e-10"]

NAMES = mt.RK
DENSE = {"Me4": 3, "CK5": 4, "CKdisc": 4, "Ts5": 4, "BS5": 5, "BS5best": 5,
         "BS5free": 4, "CFMR7osc": 5, "Pr7": 6, "Pr8": 7, "Pr9": 8}
TH = np.linspace(0.0, 1.0, 13)
TOL = 1e-10


def cases(tier):
    hs = [1.0, 0.375, -0.8] if tier == "quick" else \
        [1.0, 0.375, 0.0625, -1.0, -0.8, -0.05, 2.5, -3.0]
    t0s = [0.0, -2.7] if tier == "quick" else [0.0, 1.0, -2.7, 40.3]
    for name in NAMES:
        for h in hs:
            for t0 in t0s:
                for timed in (0, 1):
                    yield dict(part="step", m=name, h=h, t0=t0, timed=timed)
        if name != "CKdisc":
            for timed in (0, 1):
                for h in hs[::2]:
                    yield dict(part="est", m=name, h=h, timed=timed)
        else:
            for h in hs:
                for timed in (0, 1):
                    yield dict(part="fall", m=name, h=h, timed=timed)


def opts(m):
    return {} if m.name == "CKdisc" else dict(nfev_stiff_detect=0)


def run(case, res):
    m = mt.ALL[case["m"]]
    {"step": steps, "est": estimate, "fall": fallback}[case["part"]](
        m, case, res)



def compare(f, y, t, h, top, tag, key, res, tol=TOL):
    s = max(abs(t - f.t0), abs(h))
    # rounding of the time itself
    rt = 4 * np.spacing(max(abs(t), abs(f.t0))) / s
    e = np.abs(y - f.exact(t)) / s ** f.order
    k = np.where(f.order <= top, e, 0.0)
    i = int(np.argmax(k))
    if not k[i] <= tol + 20 * rt:
        res.bad(key, "%s at t=%r: tree %s of order %d: %r instead of %r "
                "(scaled error %.2e)" % (tag, t, f.ts[i], f.order[i], y[i],
                                         f.exact(t)[i], k[i]))
        return False
    return True


def steps(m, case, res):
    h, t0 = case["h"], case["t0"]
    ts = [t for k in range(1, m.order + 1) for t in T.trees(k)]
    f = T.TreeODE(ts, t0, case["timed"])
    sol = m.make(f, t0, np.zeros(f.n), t0 + 40 * h, first_step=abs(h),
                 max_step=abs(h), atol=1e9, rtol=1e-3, **opts(m))
    tag = "%s h=%g t0=%g timed=%d" % (m.name, h, t0, case["timed"])
    for step in range(3):
        sol.step()
        if sol.status != "running":
            res.bad("status:" + m.name, tag + ": " + sol.status)
            return
        hh = sol.t - sol.t_old
        if not compare(f, sol.y, sol.t, hh, m.order, "%s step %d: solution"
                       % (tag, step), "solution:" + m.name, res):
            return
        itp = sol.dense_output()
        ys = itp(sol.t_old + TH * hh)
        for j, th in enumerate(TH):
            if not compare(f, ys[:, j], sol.t_old + th * hh, hh,
                           DENSE[m.name], "%s step %d: continuous solution"
                           % (tag, step), "dense:" + m.name, res):
                return
        res.transitions += 1
        res.states += f.n * (1 + len(TH))
    res.traces += 1
    res.sig(m.name, "step", m.order, DENSE[m.name])
    if res.sample is None:
        res.sample = {"run": tag, "trees": f.n}


def estimate(m, case, res):
    h = case["h"]
    q = m.secondary
    seen = 0
    for k in range(1, q + 2):
        for tree in T.trees(k):
            f = T.TreeODE([tree], 0.0, case["timed"])
            atol = np.full(f.n, 1e9)
            # (rounding error of the estimate ~ eps * h^k / gamma * |E|)
            atol[-1] = 1e-10 * abs(h) ** k / np.sqrt(f.n)
            if f.ts[-1] != tree:
                raise AssertionError("order of the trees")
            sol = m.make(f, 0.0, np.zeros(f.n), 40 * h, first_step=abs(h),
                         atol=atol, rtol=1e-15, **opts(m))
            sol.step()
            ok = abs(sol.t - h) < 1e-12
            res.transitions += 1
            res.states += 1
            if k <= q and not ok:
                res.bad("estimate:" + m.name, "%s h=%g timed=%d: error "
                        "estimate is not zero for tree %s of order %d "
                        "(secondary order %d)" % (m.name, h, case["timed"],
                                                  tree, k, q))
                return
            seen += k > q and not ok
    res.traces += 1
    res.sig(m.name, "est", q, seen)
    if not seen:
        res.bad("blind:" + m.name, "%s h=%g timed=%d: error estimate vanishes "
                "for all trees of order %d" % (m.name, h, case["timed"],
                                               q + 1))


def fallback(m, case, res):
    """both low order solutions of the variable order method"""
    h = case["h"]
    for top, cut in ((2, 0.25), (3, 0.65)):
        ts = [t for k in range(1, top + 1) for t in T.trees(k)]
        f = T.TreeODE(ts, 0.0, case["timed"])

        def fun(t, y):
            if t / h > cut:
                return np.full(f.n, 1e30)
            return f(t, y)
        sol = m.make(fun, 0.0, np.zeros(f.n), 40 * h, first_step=abs(h),
                     atol=1e6, rtol=1e-3)
        sol.step()
        tag = "%s h=%g timed=%d fallback solution of order %d" % (
            m.name, h, case["timed"], top)
        res.transitions += 1
        res.states += f.n
        if not (sol.status == "running" and 0 < sol.t / h < cut):
            res.bad("fallback:" + m.name, tag + ": not used, t=%r" % sol.t)
            return
        if not compare(f, sol.y, sol.t, sol.t, top, tag,
                       "fallback:" + m.name, res):
            return
        res.sig(m.name, "fall", top, sol.t / h)
    res.traces += 1
