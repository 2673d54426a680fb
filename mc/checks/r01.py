"""R01 a step depends only on the current point and the step size."""
import numpy as np
import core
import methods as mt

ID = "R01"
TECHNIQUE = ("exhaustive exploration of bounded histories of the real solvers; "
             "at every reached state the step is repeated by a fresh solver "
             "(state-history bisimulation check)")
NOTE = ("The fresh solver is the same real class started at the same point "
        "with the same step size.")
RULE = ("Every one-step method and option x direction x position of a jump in "
        "the right-hand side (every step of the run is hit once; rejections "
        "and failures of the iteration) x dense-output requests (none / all / "
        "alternating) x frequency of the stiffness test; every accepted step "
        "of the run is repeated by a fresh solver. Outcome class = (method, "
        "rejections, matched).")
ASSUMPTIONS = ["comparison to 1e-9 of the size of the step data (rounding of "
               "the step size); for nonlinear implicit problems to the "
               "tolerance of the iteration",
               "stabilised method with a given spectral radius (its own "
               "estimate is documented to be kept for several steps)"]

NAMES = [n for n in mt.ALL if mt.ALL[n].kind != "swag" and n != "Fi5N1"]


def cases(tier):
    nj = 12 if tier == "quick" else 60
    tj = [1e9] + list(np.linspace(0.03, 5.0, nj))
    for name in NAMES:
        kind = mt.ALL[name].kind
        for d in (1, -1):
            for cplx in ((0, 1) if mt.ALL[name].cplx else (0,)):
                for opt in options(kind, name):
                    if cplx and tier == "quick" and opt:
                        continue
                    yield dict(m=name, d=d, cplx=cplx, opt=opt, tj=tj)


def options(kind, name):
    if kind in ("rk", "rkn") and name != "CKdisc":
        return [0, 30]
    if kind == "esdirk":
        return ["linear", "lin/each", "nonlin", "mass"]
    return [0]


def make(case, tj, mag, t0, y0, h):
    m = mt.ALL[case["m"]]
    d = case["d"]
    second = m.kind == "rkn"
    nonlin = m.kind != "esdirk" or case["opt"] == "nonlin"
    kw = {}
    A = np.array([[-1.0, 0.5], [0.3, -0.8]])
    if m.kind == "rk" and case["opt"]:
        # stiff problem: the step size is limited by stability and the
        # stiffness test becomes active
        A = np.array([[-30.0, 0.5], [0.3, -0.8]])

    def acc(s, x):
        f = A @ x + np.array([0.2 * np.sin(2 * s), 0.1 * s])
        if nonlin:
            f[1] += 0.1 * x[0] * x[0]
        if s >= tj:
            f = f + mag
        return f

    def fun(t, y):
        if second:
            return np.concatenate((y[2:], acc(d * t, y[:2])))
        return d * acc(d * t, y)

    if m.kind in ("rk", "rkn") and case["m"] != "CKdisc":
        kw["nfev_stiff_detect"] = case["opt"]
    if m.kind == "ssv":
        kw["rho_jac"] = lambda t, y: 4.0
    if m.kind == "esdirk":
        kw["jac"] = d * A
        if case["opt"] == "lin/each":
            kw["jac_each_step"] = True
        if case["opt"] == "mass":
            kw["M"] = np.array([[2.0, 0.5], [0.0, 1.0]])
        if nonlin:
            kw["jac"] = lambda t, y: d * np.array(
                [[A[0, 0], A[0, 1]], [A[1, 0] + 0.2 * y[0], A[1, 1]]])
    return m.make(fun, t0, y0, d * 1e6, rtol=1e-4, atol=1e-5,
                  first_step=h, **kw), fun


def run(case, res):
    for tj in case["tj"]:
        for mag in (1.0, 50.0) if tj < 1e8 else (0.0,):
            for dense in (0, 1, 2):
                one(case, tj, mag, dense, res)


def one(case, tj, mag, dense, res):
    m = mt.ALL[case["m"]]
    d = case["d"]
    y0 = np.array([1.0, -0.5])
    if m.kind == "rkn":
        y0 = np.concatenate((y0, [0.1, 0.4]))
    if case["cplx"]:
        y0 = y0 * (0.8 + 0.6j)
    tag = "%s d=%d cplx=%d opt=%s tj=%r mag=%r dense=%d" % (
        m.name, d, case["cplx"], case["opt"], tj, mag, dense)
    s, fun = make(case, tj, mag, 0.0, y0, 0.2)
    loose = m.kind == "esdirk" and case["opt"] == "nonlin"
    n = 60 if case["opt"] == 30 and tj > 1e8 else 14
    for i in range(n):
        if d * s.t > 6 and tj < 1e8:
            break
        t, y = s.t, s.y.copy()
        s.step()
        res.transitions += 1
        if s.status == "failed":
            break
        h = abs(s.t - t)
        if h < 1e-7 * (1 + abs(t)):
            continue
        u = t + (s.t - t) * np.array([0.3, 0.7])
        big = max(np.max(np.abs(fun(t, y))), np.max(np.abs(fun(s.t, s.y))))
        size = np.max(np.abs(y)) + np.max(np.abs(s.y)) + h * big
        o = s.dense_output() if dense == 1 or (dense == 2 and i % 2) else None
        ok, why = False, ""
        # the variable order method may have accepted an inner point
        fr = (1.0, 0.6, 0.2) if m.name == "CKdisc" else (1.0,)
        for q in fr:
            f, _ = make(case, tj, mag, t, y, h / q)
            f.step()
            if f.status == "failed" or abs(f.t - s.t) > 1e-9 * h:
                why += "step to %r instead of %r; " % (f.t, s.t)
                continue
            tol = 1e-9 * size + 1e-13 * size * (1 + abs(t)) / h * 0
            if loose:
                tol = 1e-5 + 1e-4 * size
            dif = np.max(np.abs(f.y - s.y))
            if not dif <= tol:
                why += "solutions differ by %g; " % dif
                continue
            if o is not None:
                dif = np.max(np.abs(f.dense_output()(u) - o(u)))
                if not dif <= tol:
                    why += "continuous solutions differ by %g; " % dif
                    continue
            ok = True
            break
        res.states += 1
        if not ok:
            res.bad("memory:" + m.name, "%s step %d from t=%r with h=%r: fresh "
                    "solver: %s" % (tag, i, t, h, why))
            return
    res.traces += 1
    res.sig(m.name, case["opt"], s.status)
    if res.sample is None:
        res.sample = {"run": tag, "steps": i + 1}
