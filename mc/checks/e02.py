"""E02 accepted implicit steps solve the stage equations of the method and
pass the error test."""
import math
import numpy as np
from scipy.sparse import csc_array, issparse
import core
import methods as mt

ID = "E02"
TECHNIQUE = ("exhaustive exploration of scripted right-hand side answers "
             "(accept/reject histories) on the real implicit step; each trace "
             "is replayed in a reference model of the published method "
             "(conformance check)")
NOTE = ("lin: with the Jacobian given as array the trace determines stages, "
        "solution and error estimate exactly; newton: accepted solutions are "
        "compared with the fully converged stage equations.")
RULE = ("lin: every implicit method x scripts with a deviation at every call "
        "index x magnitude x {once, lasting, burst} x step limit x direction "
        "x real/complex x mass matrix x dense/sparse; every attempt is "
        "replayed. newton: every method x problem x Jacobian mode x mass "
        "matrix x tolerance x direction; every accepted step. Outcome class "
        "= (part, method, number of rejections).")
ASSUMPTIONS = ["decisions within 1e-6 of the threshold are left open",
               "Newton: distance to the exact stage solution at most 15 "
               "(for nine of ten steps 1.5) in the weighted norm"]
KAPPA = {"HS2I": 0.5, "HS2Ia": 1.0, "KC3I": 1.0, "KC4I": 0.5, "KC4Ia": 0.2,
         "Kv3I": 1 / 15}
MAGS = [1e-3, 0.03, 1.0, 50.0, 1e4]
NAMES = ["HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I"]


def cases(tier):
    th = tier != "quick"
    for name in NAMES:
        for d in (1, -1):
            for cplx in (0, 1):
                for mass in ("none", "diag", "full"):
                    for ms in (None, 0.25):
                        for kind in ("once", "last", "burst"):
                            for rt in (1e-3,):
                                if not th and ((cplx and ms) or (
                                        mass == "full" and ms) or (
                                        mass == "diag" and cplx)):
                                    continue
                                yield dict(part="lin", m=name, d=d,
                                           cplx=cplx, mass=mass, ms=ms,
                                           kind=kind, rt=rt,
                                           idx=24 if not th else 45)
            for prob in sorted(PROBS):
                for jac in ("fun", "each", "none", "sparse"):
                    for mass in ("none", "full"):
                        for rt in ((1e-3, 1e-6) if not th else
                                   (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7)):
                            yield dict(part="newton", m=name, d=d,
                                       prob=prob, jac=jac, mass=mass, rt=rt)


def table(name):
    t = mt.TABLES[mt.ALL[name].base]
    return (np.array(t["A"]), np.array(t["C"]), np.array(t["E"]),
            float(t["d"]))


def matrix(kind):
    if kind == "none":
        return None, np.eye(3)
    if kind == "diag":
        d = np.array([2.0, -0.5, 1.0])
        return d, np.diag(d)
    A = np.array([[2.0, 1, 0], [0, 1, -0.5], [0.25, 0, 1]])
    return A, A


JL = np.array([[-1.2, 0.5, 0.0], [-0.4, -6.0, 0.2], [0.3, 0.0, -40.0]])


def run(case, res):
    if case["part"] == "newton":
        return newton(case, res)
    plans = [{}] + [{i: a} for i in range(case["idx"]) for a in MAGS]
    if case["idx"] < 30 and case["kind"] != "once":
        plans = plans[1::2]
    for plan in plans:
        lin(case, plan, res)


def lin(case, plan, res):
    name, d, kind = case["m"], case["d"], case["kind"]
    A, C, E, g = table(name)
    ns = len(C)
    M, Mm = matrix(case["mass"])
    filt = name in ("HS2I", "HS2Ia")
    J = d * JL
    ctl = dict(i=0, on=False)
    log = []
    osc = np.array([0.3, 0.2, -5.0])

    def fun(t, y):
        f = d * (JL @ y + osc * np.sin(2 * t * d))
        if ctl["on"]:
            for i, m in plan.items():
                if ctl["i"] == i or (kind == "last" and ctl["i"] >= i) or (
                        kind == "burst" and i <= ctl["i"] < i + 9):
                    sg = -1 if kind == "burst" and ctl["i"] % 2 else 1
                    f = f + sg * m * np.array([1.0, 0.3, -0.5])
            ctl["i"] += 1
            if ctl["i"] > 3000:
                raise core.Budget()
            log.append((float(t), np.array(y), f.copy()))
        return f
    y0 = np.array([1.0, -0.5, 0.25])
    if case["cplx"]:
        y0 = y0 * (0.8 - 0.6j)
    rtol, atol = case["rt"], np.array([1e-4, 1e-3, 1e-4]) * case["rt"] * 1e3
    kw = {} if case["ms"] is None else {"max_step": case["ms"]}
    Js = csc_array(J) if case["kind"] == "last" else J
    sol = mt.ALL[name].make(fun, 0.0, y0, 40.0 * d, rtol=rtol, atol=atol,
                            first_step=0.1, jac=Js, M=M, **kw)
    ctl["on"] = True
    k0 = np.linalg.solve(Mm, d * (JL @ y0))
    tag = "%s d=%d cplx=%d M=%s max_step=%s %s rtol=%g plan=%s" % (
        name, d, case["cplx"], case["mass"], case["ms"], kind, rtol, plan)
    nrej = 0
    last = (max(plan) if plan else 0) + 12 * (ns - 1)
    for step in range(12):
        if sol.status != "running" or ctl["i"] > last:
            break
        del log[:]
        t, y = sol.t, sol.y.copy()
        sol.step()
        if sol.status == "failed":
            break
        if len(log) % (ns - 1):
            res.bad("calls:" + name, "%s step %d: %d calls" % (tag, step,
                                                               len(log)))
            return
        na = len(log) // (ns - 1)
        for ia in range(na):
            a = log[ia * (ns - 1):(ia + 1) * (ns - 1)]
            h = a[-1][0] - t
            if C[-1] != 1 or not h * d > 0:
                res.bad("time:" + name, "%s step %d" % (tag, step))
                return
            K = [k0]
            big = np.max(np.abs(y)) + abs(h) * np.max(np.abs(k0))
            Wi = np.linalg.inv(Mm - h * g * J)
            for s in range(1, ns):
                tt, yp, ff = a[s - 1]
                if abs(tt - (t + C[s] * h)) > 1e-12 * (abs(t) + abs(h)):
                    res.bad("stagetime:" + name, "%s step %d stage %d at %r "
                            "instead of %r" % (tag, step, s, tt,
                                               t + C[s] * h))
                    return
                psi = y + h * (A[s, :s] @ np.array(K))
                zp = (yp - psi) / g
                z = zp + Wi @ (h * ff - Mm @ zp)
                K.append(z / h)
                big = max(big, np.max(np.abs(yp)), np.max(np.abs(psi)),
                          np.max(np.abs(z)))
            Ka = np.array(K)
            yn = psi + g * z
            est = h * (E @ Ka)
            if filt:
                est = Wi @ (Mm @ est)
            acc = ia == na - 1
            ref = sol.y if acc else yn
            wt = atol + rtol * np.maximum(np.abs(y), np.abs(yn))
            err = float(np.sqrt(np.mean(np.abs(est / wt) ** 2)))
            loose = 1e-6 + 1e-9 * big / np.min(wt)
            if np.max(np.abs(ref - yn)) > 1e-9 * big:
                res.bad("solution:" + name, "%s step %d attempt %d: solution "
                        "%s instead of %s" % (tag, step, ia, ref, yn))
                return
            if abs(err - 1) > loose and (err < 1) != acc:
                res.bad("decision:" + name, "%s step %d attempt %d with "
                        "error %r was %s" % (tag, step, ia, err, "accepted"
                                             if acc else "rejected"))
                return
            res.transitions += 1
        if abs(sol.t - t - h) > 4 * np.spacing(abs(sol.t)):
            res.bad("end:" + name, "%s step %d t=%r" % (tag, step, sol.t))
            return
        # last stage in terms of the actual solution (rounding)
        k0 = np.linalg.solve(Mm, ff + J @ (sol.y - yp))
        nrej += na - 1
        res.states += 1
    res.traces += 1
    res.sig("lin", name, min(nrej, 4))
    if res.sample is None and nrej:
        res.sample = {"run": tag, "rejections": nrej}


# problems: rhs, Jacobian, initial value, end
def vdp(k):
    return (lambda t, y: np.array([y[1], k * (1 - y[0] ** 2) * y[1] - y[0],
                                   -y[2] + y[0]]),
            lambda t, y: np.array([[0, 1, 0], [-2 * k * y[0] * y[1] - 1,
                                              k * (1 - y[0] ** 2), 0],
                                   [1, 0, -1]]), [2.0, 0.0, 1.0], 12.0)


def rob():
    return (lambda t, y: np.array([-0.04 * y[0] + 1e4 * y[1] * y[2],
                                   0.04 * y[0] - 1e4 * y[1] * y[2]
                                   - 3e7 * y[1] ** 2, 3e7 * y[1] ** 2]),
            lambda t, y: np.array([[-0.04, 1e4 * y[2], 1e4 * y[1]],
                                   [0.04, -1e4 * y[2] - 6e7 * y[1],
                                    -1e4 * y[1]], [0, 6e7 * y[1], 0]]),
            [1.0, 0.0, 0.0], 40.0)


def switch():
    def k(t):
        return 1 + 1000 * (math.sin(2 * t) > 0.2)
    return (lambda t, y: -k(t) * (y - np.cos(np.arange(3) + t)) * (1 + y * y),
            lambda t, y: np.diag(-k(t) * (1 + y * y) - 2 * k(t) * y *
                                 (y - np.cos(np.arange(3) + t))),
            [1.0, 0.5, 0.25], 6.0)


def smooth():
    return (lambda t, y: np.array([-0.5 * y[0] * y[1], y[0] - y[1] ** 2,
                                   np.sin(t) - y[2] * y[0]]),
            lambda t, y: np.array([[-0.5 * y[1], -0.5 * y[0], 0],
                                   [1, -2 * y[1], 0], [-y[2], 0, -y[0]]]),
            [1.0, 0.3, -0.5], 8.0)


PROBS = {"vdp10": lambda: vdp(10.0), "vdp300": lambda: vdp(300.0),
         "rob": rob, "switch": switch, "smooth": smooth}


def newton(case, res):
    name, d = case["m"], case["d"]
    A, C, E, g = table(name)
    f0, j0, y0, te = PROBS[case["prob"]]()
    M, Mm = matrix(case["mass"])
    kappa = KAPPA[name]

    def fun(t, y):
        return d * (Mm @ f0(t * d, y))

    def jac(t, y):
        J = d * (Mm @ j0(t * d, y))
        return csc_array(J) if case["jac"] == "sparse" else J
    rt = case["rt"]
    atol = np.array([rt, rt, rt]) * (1e-3 if case["prob"] == "rob" else 1)
    calls = [0]

    def cfun(t, y):
        calls[0] += 1
        if calls[0] > 60000:
            raise core.Budget()
        return fun(t, y)
    sol = mt.ALL[name].make(cfun, 0.0, np.array(y0), te * d, rtol=rt,
                            atol=atol, M=M,
                            jac=None if case["jac"] == "none" else jac,
                            jac_each_step=case["jac"] == "each")
    worst, n, dists = 0.0, 0, []
    rej = mt.nfs()
    while sol.status == "running" and n < 250:
        t, y = sol.t, sol.y.copy()
        sol.step()
        if sol.status == "failed":
            res.bad("failed:" + name, "%s at %r" % (case, t))
            return
        n += 1
        h = sol.t - t
        ref = stages(f0, j0, A, C, g, t * d, y, h * d)
        if ref is None:
            continue
        wt = atol + rt * np.maximum(np.abs(y), np.abs(sol.y))
        dist = float(np.sqrt(np.mean(((sol.y - ref) / wt) ** 2)))
        worst = max(worst, dist / kappa)
        dists.append(dist / kappa)
        if dist > 15.0:
            res.bad("newton:" + name, "%s step %d at t=%r of size %r: "
                    "distance %.3g (in units of the tolerance) to the "
                    "solution of the stage equations" % (case, n, t, h, dist))
            return
        res.states += 1
        res.transitions += 1
    q = float(np.quantile(dists, 0.9)) if dists else 0.0
    if len(dists) >= 20 and q * kappa > 1.5:
        res.bad("quantile:" + name, "%s: ten percent of the %d steps are "
                "farther than %.3g kappa from the solution of the stage "
                "equations" % (case, n, q))
    res.q = q
    res.traces += 1
    res.sig("newton", name, case["prob"], int(10 * worst) / 10)
    if res.sample is None:
        res.sample = {"case": case, "steps": n, "largest distance / kappa":
                      worst}


def stages(f0, j0, A, C, g, t, y, h):
    """the fully converged step; None if Newton has no nearby solution"""
    K = [f0(t, y)]
    n = len(y)
    for s in range(1, len(C)):
        psi = y + h * (A[s, :s] @ np.array(K))
        ts = t + C[s] * h
        best = None
        for start in (psi, y, Yl if s > 1 else y):
            Y = start.copy()
            for k in range(50):
                r = Y - psi - h * g * f0(ts, Y)
                dY = np.linalg.solve(np.eye(n) - h * g * j0(ts, Y), -r)
                Y = Y + dY
                if not np.all(np.isfinite(Y)):
                    break
                if np.max(np.abs(dY)) <= 1e-13 * (1e-3 + np.max(np.abs(Y))):
                    best = Y
                    break
            if best is not None:
                break
        if best is None:
            return None
        Yl = best
        K.append((best - psi) / (g * h))
    return best
