"""O02 Nystroem methods have their documented order."""
import numpy as np
import core
import methods as mt
import trees as T

ID = "O02"
TECHNIQUE = ("exhaustive exploration of all Nystroem trees up to the order of "
             "each method, executed as second order differential equations by "
             "the real step; the exact solution is the oracle")
NOTE = ("The finite set of trees decides the order for every smooth second "
        "order system.")
RULE = ("Every Nystroem method and interpolant x all Nystroem trees up to its "
        "order (velocity independent trees for MR6NN) x {autonomous, time "
        "dependent} x start times x step sizes x directions x three steps x "
        "13 points of each continuous solution; for the error estimate every "
        "tree up to one order more than the secondary formula on its own. "
        "Outcome class = (method, part, order).")
ASSUMPTIONS = ["exact up to relative rounding of 1e-10"]

NAMES = mt.RKN
# order of the continuous solution: position, velocity
DENSE = {"Fi4N": (4, 4), "Fi5N": (5, 4), "Fi5N1": (5, 5), "Fi5N2": (5, 5),
         "Fi5N3": (5, 4), "Mu5Nmb": (5, 4), "Mu5Nmbfree": (5, 4),
         "Mu5Nmbunsc": (5, 4), "MR6NN": (6, 5)}
TH = np.linspace(0.0, 1.0, 13)
TOL = 1e-10


def cases(tier):
    hs = [1.0, 0.375, -0.8] if tier == "quick" else \
        [1.0, 0.375, 0.0625, -1.0, -0.8, -0.05, 2.5, -3.0]
    t0s = [0.0, -2.7] if tier == "quick" else [0.0, 1.0, -2.7, 40.3]
    for name in NAMES:
        for timed in (0, 1):
            for h in hs:
                for t0 in t0s:
                    yield dict(part="step", m=name, h=h, t0=t0, timed=timed)
            for h in hs[::2]:
                yield dict(part="est", m=name, h=h, timed=timed)


def run(case, res):
    m = mt.ALL[case["m"]]
    {"step": steps, "est": estimate}[case["part"]](m, case, res)


def compare(f, y, t, h, topx, topv, tag, key, res):
    n = f.n
    o = f.orders
    s = max(abs(t - f.t0), abs(h))
    rt = 4 * np.spacing(max(abs(t), abs(f.t0))) / s
    top = np.concatenate((np.full(n, topx), np.full(n, topv)))
    ex = f.exact(t)
    # velocities from a position interpolant: differences of positions
    e = np.abs(y - ex) / s ** o
    e = np.where(o <= top, e, 0.0)
    i = int(np.argmax(e))
    if not e[i] <= TOL + 20 * rt:
        tree = "start" if i % n == 0 else f.ts[i % n - 1]
        res.bad(key, "%s at t=%r: %s of tree %s, order %d: %r instead of %r "
                "(scaled error %.2e)" % (
                    tag, t, "position" if i < n else "velocity", tree, o[i],
                    y[i], ex[i], e[i]))
        return False
    return True


def steps(m, case, res):
    h, t0 = case["h"], case["t0"]
    ts = [t for k in range(1, m.order + 1)
          for t in T.ntrees(k, m.name != "MR6NN")]
    f = T.NystromODE(ts, t0, case["timed"])
    sol = m.make(f, t0, f.y0, t0 + 40 * h, first_step=abs(h),
                 max_step=abs(h), atol=1e9, rtol=1e-3, nfev_stiff_detect=0)
    tag = "%s h=%g t0=%g timed=%d" % (m.name, h, t0, case["timed"])
    dx, dv = DENSE[m.name]
    for step in range(3):
        if m.name == "Fi5N1":
            itp = None
        sol.step()
        if sol.status != "running":
            res.bad("status:" + m.name, tag + ": " + sol.status)
            return
        hh = sol.t - sol.t_old
        if not compare(f, sol.y, sol.t, hh, m.order, m.order, "%s step %d: "
                       "solution" % (tag, step), "solution:" + m.name, res):
            return
        itp = sol.dense_output()
        ys = itp(sol.t_old + TH * hh)
        for j, th in enumerate(TH):
            if not compare(f, ys[:, j], sol.t_old + th * hh, hh, dx, dv,
                           "%s step %d: continuous solution" % (tag, step),
                           "dense:" + m.name, res):
                return
        res.transitions += 1
        res.states += 2 * f.n * (1 + len(TH))
    res.traces += 1
    res.sig(m.name, "step", m.order, dx, dv)
    if res.sample is None:
        res.sample = {"run": tag, "trees": f.n}


def estimate(m, case, res):
    h = case["h"]
    q = m.secondary
    seen = {0: 0, 1: 0}
    for k in range(1, q + 2):
        for tree in T.ntrees(k, m.name != "MR6NN"):
            f = T.NystromODE([tree], 0.0, case["timed"])
            n = f.n
            for part in (0, 1):              # position, velocity
                o = k + 1 - part
                if o > q + 1:
                    continue
                atol = np.full(2 * n, 1e9)
                i = n - 1 + part * n
                if f.ts[-1] != tree:
                    raise AssertionError("order of the trees")
                atol[i] = 1e-10 * abs(h) ** o / np.sqrt(2 * n)
                sol = m.make(f, 0.0, f.y0, 40 * h, first_step=abs(h),
                             atol=atol, rtol=1e-15, nfev_stiff_detect=0)
                sol.step()
                ok = abs(sol.t - h) < 1e-12
                res.transitions += 1
                res.states += 1
                if o <= q and not ok:
                    res.bad("estimate:" + m.name, "%s h=%g timed=%d: error "
                            "estimate of %s not zero for tree %s of order %d "
                            "(secondary order %d)" % (
                                m.name, h, case["timed"],
                                ["position", "velocity"][part], tree, o, q))
                    return
                seen[part] += o > q and not ok
    res.traces += 1
    res.sig(m.name, "est", q, seen[0], seen[1])
    if not (seen[0] or seen[1]):
        res.bad("blind:" + m.name, "%s h=%g timed=%d: error estimate vanishes "
                "for all trees of order %d" % (m.name, h, case["timed"],
                                               q + 1))
