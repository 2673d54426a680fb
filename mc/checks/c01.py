"""C01 the stabilised method: order, stability and stages for every number of
stages."""
import itertools
import math
import numpy as np
import core
import methods as mt
import trees as T

ID = "C01"
TECHNIQUE = ("exhaustive enumeration of the numbers of stages, of a grid of "
             "their stability intervals and of scripted accept/reject "
             "histories on the real code; traces replayed in a closed form "
             "reference model of the published formula (conformance check)")
NOTE = ("The reference uses the Chebyshev polynomials in closed form (cosh, "
        "sinh), not the recurrences of the code.")
RULE = ("order: every number of stages x lower/upper end of the range of "
        "step sizes that selects it x direction x start time x {autonomous, "
        "time dependent}, all rooted trees up to order two, three steps, "
        "continuous solutions and consistent stage times; stab: every number "
        "of stages x 6 m points of the whole interval of the spectral "
        "radius; cap: tolerances for which the number of stages is limited; "
        "spec: all 3-component negative spectra from a set x initial vectors "
        "x basis with the estimated spectral radius; power: ratios of the "
        "eigenvalues x weights x basis x scale, number of stages against the "
        "exact spectral radius; vary: time dependent "
        "spectral radii, every attempt; replay: scripts with a deviation at "
        "every call index x magnitude. Outcome class = (part, number of "
        "stages or outcome).")
ASSUMPTIONS = ["linear stability is decided on the stated grid of the "
               "negative real axis"]
EPS = np.finfo(float).eps


def cases(tier):
    th = tier != "quick"
    ms = list(range(2, 101)) if not th else list(range(2, 401))
    for m in ms:
        for d in (1, -1):
            yield dict(part="order", m=m, d=d)
            yield dict(part="stab", m=m, d=d)
    for k in range(1, 13 if not th else 30):
        for d in (1, -1):
            yield dict(part="cap", k=k, d=d)
    ev = [0.0, -1.0, -10.0, -100.0, -2000.0]
    if th:
        ev += [-0.1, -33.0, -1e4]
    for sp in itertools.combinations_with_replacement(ev, 3):
        for d in (1, -1):
            for basis in (0, 1):
                yield dict(part="spec", sp=sp, d=d, basis=basis)
    for k in (0.1, 1.0, 100.0, 3000.0):
        for n in (1, 2, 5):
            for d in (1, -1):
                yield dict(part="steady", k=k, n=n, d=d)
    for r in (0.0, 0.3, 0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95):
        for d in (1, -1):
            yield dict(part="power", r=r, d=d)
    for g in range(6):
        for d in (1, -1):
            for cj in (0, 1):
                yield dict(part="vary", g=g, d=d, cj=cj)
    for d in (1, -1):
        for rho in (0.0, 3.0, 20.0, 100.0, 400.0):
            for kind in ("once", "last", "burst"):
                for blk in range(8 if not th else 20):
                    yield dict(part="replay", rho=rho, d=d, kind=kind,
                               blk=blk)


def run(case, res):
    {"order": order, "stab": stab, "cap": cap, "spec": spec, "vary": vary,
     "steady": steady, "power": power,
     "replay": replay}[case["part"]](case, res)


def cheb(j, w):
    """T, T', T'' for w > 1"""
    a = math.acosh(w)
    s = math.sqrt(w * w - 1)
    t = math.cosh(j * a)
    d = j * math.sinh(j * a) / s
    dd = (j * j * t - w * d) / (w * w - 1)
    return t, d, dd


def coefs(m):
    """a_j, b_j, w0, w1, c_j of Sommeijer, Shampine and Verwer (1998)"""
    w0 = 1 + (2 / 13) / m ** 2
    _, d, dd = cheb(m, w0)
    w1 = d / dd
    b, a, c = np.zeros(m + 1), np.zeros(m + 1), np.zeros(m + 1)
    for j in range(2, m + 1):
        t, d, dd = cheb(j, w0)
        b[j] = dd / d ** 2
        a[j] = 1 - b[j] * t
        c[j] = w1 * dd / d
    b[0] = b[1] = b[2]
    b[1] = b[0]
    a[0] = 1 - b[0]
    a[1] = 1 - b[1] * w0
    c[1] = c[2] / cheb(2, w0)[1] if m >= 2 else 0
    return a, b, w0, w1, c


def ranges(m, h):
    lo = ((m - 1) ** 2 - 1) / 1.54
    hi = (m * m - 1) / 1.54
    return [(lo + 1e-7 * (hi - lo)) / h, (hi - 1e-7 * (hi - lo)) / h]


def order(case, res):
    d, m = case["d"], case["m"]
    for h, t0 in ((1.0, 0.0), (0.3, -2.7)):
        for rho in ranges(m, h):
            for timed in (0, 1):
                f = T.TreeODE([(), ((),)], t0, timed)
                calls = []

                def fun(t, y):
                    calls.append((t, y[f.one]))
                    return f(t, y)
                sol = mt.ALL["SSV2stab"].make(
                    fun, t0, np.zeros(f.n), t0 + 40 * d * h, first_step=h,
                    max_step=h, rtol=1e-3, atol=1e3,
                    rho_jac=lambda t, y: rho)
                tag = "m=%d d=%d h=%g rho=%r t0=%g timed=%d" % (
                    m, d, h, rho, t0, timed)
                tol = 4 * EPS * m * m * (1 + abs(t0) / h) + 1e-13
                for step in range(3):
                    del calls[:]
                    sol.step()
                    if sol.status != "running":
                        res.bad("status", tag + " " + sol.status)
                        return
                    n = len(calls)
                    hh = sol.t - sol.t_old
                    if abs(hh - d * h) > 1e-9:
                        res.bad("step", "%s step size %r" % (tag, hh))
                        return
                    if abs(hh) * rho > 0.6531 * (n * n - 1):
                        res.bad("stages", "%s: %d stages are unstable for "
                                "h*rho=%g" % (tag, n, abs(hh) * rho))
                        return
                    s = abs(sol.t - t0)
                    e = np.abs(sol.y - f.exact(sol.t)) / s ** f.order
                    if not np.all(e <= tol):
                        res.bad("order", "%s step %d: solution %s instead "
                                "of %s (scaled error %s, tolerance %.1e)"
                                % (tag, step, sol.y, f.exact(sol.t), e,
                                   tol))
                        return
                    for t, y in calls:
                        if not abs(y - (t - t0)) <= tol * s:
                            res.bad("abscissa", "%s step %d: stage of y'=1 "
                                    "at t-t0=%r is %r" % (tag, step, t - t0,
                                                          y))
                            return
                    xs = np.linspace(sol.t_old, sol.t, 7)
                    ys = sol.dense_output()(xs)
                    for j, x in enumerate(xs):
                        e = np.abs(ys[:, j] - f.exact(x)) / s ** f.order
                        if not np.all(e <= 2 * tol):
                            res.bad("dense", "%s step %d theta=%d/6: error "
                                    "%s" % (tag, step, j, e))
                            return
                    res.transitions += 1
                    res.states += 9 + n
                res.traces += 1
                res.sig("order", n)
        estimate(m, d, h, res)


def estimate(m, d, h, res):
    """the error estimate vanishes for order two, not for order three"""
    rho = ranges(m, h)[1]
    seen = 0
    for tree in T.trees(1) + T.trees(2) + T.trees(3):
        for timed in (0, 1):
            f = T.TreeODE([tree], 0.0, timed)
            atol = np.full(f.n, 1e9)
            k = T.order(tree)
            atol[-1] = (1e-10 + 10 * EPS * m * m) * h ** k
            sol = mt.ALL["SSV2stab"].make(
                f, 0.0, np.zeros(f.n), 40 * d * h, first_step=h, max_step=h,
                rtol=1e-12 if m < 20 else 1e-3, atol=atol,
                rho_jac=lambda t, y: rho)
            sol.step()
            ok = abs(sol.t - d * h) < 1e-12
            res.transitions += 1
            if k < 3 and not ok:
                res.bad("estimate", "m=%d d=%d: error estimate not zero for "
                        "tree %s" % (m, d, tree))
                return
            seen += k == 3 and not ok
    if m < 20 and not seen:
        res.bad("blind", "m=%d: error estimate vanishes for order three" % m)


def stab(case, res):
    d, m = case["d"], case["m"]
    h = 0.7
    for rho in ranges(m, h):
        n = 6 * m + 20
        z = np.concatenate((np.linspace(0, 1, n),
                            0.5 - 0.5 * np.cos(np.pi * np.arange(n) / (n - 1)),
                            np.geomspace(1e-8, 1, 60)))
        lam = -rho * np.unique(z) * d
        y0 = np.where(np.arange(lam.size) % 2, -1.0, 1.0) * \
            2.0 ** (np.arange(lam.size) % 7)
        sol = mt.ALL["SSV2stab"].make(
            lambda t, y: lam * y, 0.0, y0, 40.0 * d * h, first_step=h,
            max_step=h, rtol=1e-3, atol=1e9, rho_jac=lambda t, y: rho)
        for step in range(2):
            old = sol.y.copy()
            sol.step()
            hh = abs(sol.t - sol.t_old)
            if sol.status != "running" or abs(hh - h) > 1e-9:
                res.bad("step", "m=%d %s h=%r" % (m, sol.status, hh))
                return
            P = sol.y / old
            x = lam * h * d
            tol = 4 * EPS * m * m
            lim = np.where(x > -1.0, 1.0 + x / 2, 0.97) + tol
            k = int(np.argmax(np.abs(P) - lim))
            if not np.all(np.abs(P) <= lim):
                res.bad("unstable", "m=%d d=%d rho*h=%g: component with "
                        "h*lambda=%r is multiplied by %r" %
                        (m, d, rho * h, x[k], P[k]))
                return
            e = np.abs(P - np.exp(x))
            if not np.all((e <= 0.2 * np.abs(x) ** 3 + tol) | (x < -1)):
                res.bad("accuracy", "m=%d d=%d: not second order" % (m, d))
                return
            res.states += lam.size
            res.transitions += 1
        res.traces += 1
        res.sig("stab", m)


def cap(case, res):
    """step size reduced where rounding limits the number of stages"""
    d, k = case["d"], case["k"]
    rtol = 100 * EPS * k * k
    for rho in (10.0, 1e3, 1e5, 1e8):
        n = 300
        lam = -rho * (0.5 - 0.5 * np.cos(np.pi * np.arange(n) / (n - 1))) * d
        calls = [0]

        def fun(t, y):
            calls[0] += 1
            return lam * y
        sol = mt.ALL["SSV2stab"].make(
            fun, 0.0, np.ones(n), 40.0 * d, first_step=1.0, max_step=1.0,
            rtol=rtol, atol=1e9, rho_jac=lambda t, y: rho)
        big = 0
        for step in range(20):
            old = sol.y.copy()
            calls[0] = 0
            sol.step()
            hh = abs(sol.t - sol.t_old)
            if sol.status != "running":
                res.bad("capstatus", "%s %s" % (case, sol.status))
                return
            if not np.all(np.abs(sol.y) <= np.abs(old) * (1 + 1e-12)):
                res.bad("cap", "rtol=%g rho=%g d=%d step %d of size %g with "
                        "%d stages is unstable" % (rtol, rho, d, step, hh,
                                                   calls[0]))
                return
            big = max(big, calls[0])
            res.transitions += 1
        res.states += n
        res.traces += 1
        res.sig("cap", k, big, hh < 1)


B3 = np.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]) / 3.0
VEC = [(1, 1, 1), (1, -1, 1), (0, 0, 1), (1, 0, 0), (1, 1e-3, 0),
       (-3, 2, 1e-6), (0, 0, 0)]


def spec(case, res):
    d = case["d"]
    B = B3 if case["basis"] else np.eye(3)
    A = B @ np.diag(case["sp"]) @ B.T
    for v in VEC:
        for cj in (False, True):
            for inhom in (0, 1):
                g = B @ np.array([1.0, -0.5, 0.25]) * inhom
                y0 = B @ np.array(v, float)
                # the initial slope must show the dominant mode if it is used
                # only once
                fm = np.array(case["sp"]) * v + \
                    np.array([1.0, -0.5, 0.25]) * inhom
                dom = np.array(case["sp"]) == min(case["sp"])
                if cj and np.max(np.abs(fm[dom])) < 0.1 * np.max(np.abs(fm)):
                    continue
                calls = [0]

                def fun(t, y):
                    calls[0] += 1
                    if calls[0] > 60000:
                        raise core.Budget()
                    return d * (A @ y + g)
                te = 6.0
                sol = mt.ALL["SSV2stab"].make(
                    fun, 0.0, y0, d * te, rtol=1e-4, atol=1e-5, const_jac=cj)
                tag = "spectrum %s basis %d y0=%s d=%d const_jac=%s " \
                    "inhomogeneous=%d" % (case["sp"], case["basis"], v, d,
                                          cj, inhom)
                n = 0
                worst = 0.0
                while sol.status == "running" and n < 2000:
                    msg = sol.step()
                    n += 1
                    ref = exact(case["sp"], B, v, inhom, abs(sol.t))
                    worst = max(worst, float(np.max(
                        np.abs(sol.y - ref) / (1e-5 + 1e-4 * np.max(
                            np.abs(ref))))))
                if sol.status != "finished":
                    res.bad("specstatus", "%s: %s after %d steps"
                            % (tag, msg, n))
                    return
                if not worst < 300:
                    res.bad("specerr", "%s: error is %.3g times the "
                            "tolerance" % (tag, worst))
                    return
                lim = 60 + 20 * math.sqrt(-min(case["sp"]))
                if n > lim:
                    res.bad("specsteps", "%s: %d steps: step size limited "
                            "by stability" % (tag, n))
                    return
                res.transitions += n
                res.states += n
                res.traces += 1
                res.sig("spec", int(math.log2(n)), int(math.log10(worst
                                                                  + 1e-9)))


def power(case, res):
    """the estimated spectral radius, judged by the number of stages: dominant
    eigenvalue one, the others r or zero, in the unit scale; the dominant one
    is present in the initial slope"""
    d, r = case["d"], case["r"]
    R = np.array([[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1.0]])
    for rest in ((r, r), (r, 0.0), (r, 0.5 * r)):
        for w in (2.0, 1.0, 0.5):
            for basis in (np.eye(3), R):
                for scale in (30.0, 1e4):
                    for c in (0.0, 1.0):
                        A = -scale * basis @ np.diag((1.0,) + rest) @ basis.T
                        y0 = basis @ np.array([w, 1.0, 1.0])
                        h = 5000.0 / scale
                        calls = []

                        def fun(t, y):
                            calls.append(t)
                            return d * (A @ y + c)
                        sol = mt.ALL["SSV2stab"].make(
                            fun, 0.0, y0, 4 * d * h, rtol=1e-3, atol=1e9,
                            first_step=h)
                        n0 = sol.nfev
                        sol.step()
                        m = sol.nfev - n0
                        # (an unstable step is rejected and reduced)
                        if sol.status != "running" or abs(
                                sol.t) < 0.99 * h or not 0.6531 * (
                                m * m - 1) >= h * scale:
                            res.bad("power", "ratio %g rest %s weight %g "
                                    "scale %g c=%g d=%d: %d stages for "
                                    "h*rho=%g (%s)" % (r, rest, w, scale, c,
                                                       d, m, h * scale,
                                                       sol.status))
                            return
                        res.transitions += 1
                        res.states += 1
                        res.traces += 1
                        res.sig("power", r, m // 10)


def steady(case, res):
    """start in an equilibrium; only defined for positive y"""
    d, k = case["d"], case["k"]
    for cj in (False, True):
        for te in (1.0, 30.0):
            y0 = np.full(case["n"], 2.0)

            def fun(t, y):
                return -d * k * (y - 4.0 / y) * np.where(y > 0, 1, np.nan)
            sol = mt.ALL["SSV2stab"].make(fun, 0.0, y0, d * te, const_jac=cj)
            n = 0
            while sol.status == "running" and n < 200:
                msg = sol.step()
                n += 1
                if not np.all(np.abs(sol.y - 2.0) < 1e-6):
                    res.bad("equilibrium", "%s y=%s" % (case, sol.y))
                    return
            if sol.status != "finished":
                res.bad("steady", "%s const_jac=%s: %s %s after %d steps" % (
                    case, cj, sol.status, msg, n))
                return
            res.transitions += n
            res.states += n
            res.traces += 1
            res.sig("steady", n)


def exact(sp, B, v, inhom, t):
    out = []
    for lam, c, g in zip(sp, v, (1.0, -0.5, 0.25)):
        g = g * inhom
        out.append(c * math.exp(lam * t) + (g * t if lam == 0 else
                                            g * math.expm1(lam * t) / lam))
    return B @ np.array(out)


def vary(case, res):
    """every attempt has enough stages for the radius at its start"""
    d = case["d"]
    g = case["g"]

    def rho(t, y):
        s = t * d
        return float([20 + 300 * s, 3000 / (1 + s * s), 50 + 2000 * (s > 1),
                      2000 * math.sin(3 * s) ** 2 + 1, 10.0 * 4 ** s,
                      1000.0][g])
    jac = []

    def rj(t, y):
        jac.append(t)
        return rho(t, y) if not case["cj"] else 50000.0
    calls = []

    def fun(t, y):
        calls.append(t * d)
        return d * (-rho(t, y) * (y - np.cos(np.array([1.0, 2.0]) * t)) -
                    np.array([1.0, 2.0]) * d * np.sin(np.array([1.0, 2.0])
                                                      * t))
    sol = mt.ALL["SSV2stab"].make(
        fun, 0.0, np.ones(2), 4.0 * d, rtol=1e-4, atol=1e-4,
        rho_jac=rj, const_jac=bool(case["cj"]), first_step=0.3)
    n = 0
    nj0 = len(jac)
    while sol.status == "running" and n < 3000:
        t0 = sol.t * d
        r = rho(sol.t, sol.y) if not case["cj"] else 50000.0
        del calls[:]
        sol.step()
        n += 1
        # attempts: times increase within an attempt
        att, cur = [], []
        for t in calls:
            if cur and t <= cur[-1]:
                att.append(cur)
                cur = []
            cur.append(t)
        att.append(cur)
        for a in att:
            h = a[-1] - t0
            if h * r > 0.6531 * (len(a) ** 2 - 1):
                res.bad("few", "case %s step %d: %d stages for h*rho=%g"
                        % (case, n, len(a), h * r))
                return
            res.sig("vary", len(a) // 4)
        res.transitions += len(att)
        res.states += 1
        e = np.abs(sol.y - np.cos(np.array([1.0, 2.0]) * sol.t))
        if not np.all(e < 0.02):
            res.bad("varyerr", "case %s t=%r error %s" % (case, sol.t, e))
            return
    if sol.status != "finished":
        res.bad("varystatus", "%s %s" % (case, sol.status))
    if case["cj"] and len(jac) - nj0 > 1:
        res.bad("constjac", "%s: constant spectral radius requested %d times"
                % (case, len(jac) - nj0))
    if not case["cj"] and len(jac) - nj0 < n:
        res.bad("rhocalls", "%s: spectral radius not updated every step"
                % case)
    res.traces += 1


MAGS = [1e-3, 0.1, 10.0, 1e4]


def replay(case, res):
    lo = case["blk"] * 5
    plans = [{i: s * a} for i in range(lo, lo + 5) for a in MAGS
             for s in (1, -1)]
    if case["blk"] == 0:
        plans.append({})
    for plan in plans:
        replay1(case, plan, res)


def replay1(case, plan, res):
    d, kind = case["d"], case["kind"]
    ctl = dict(i=0, on=False)
    log = []
    rho = case["rho"]

    def base(t, y):
        s = t * d
        return d * np.array([-1.2 * y[0] + 0.5 * y[1] + 0.3 * np.sin(2 * s),
                             -0.4 * y[0] - 0.5 * y[1] + 0.2 * y[2],
                             0.3 * y[0] * y[1] - (0.9 + rho) * y[2]])

    def fun(t, y):
        f = base(t, y)
        if ctl["on"]:
            for i, m in plan.items():
                if ctl["i"] == i or (kind == "last" and ctl["i"] >= i) or (
                        kind == "burst" and i <= ctl["i"] < i + 9):
                    sg = -1 if kind == "burst" and ctl["i"] % 2 else 1
                    f = f + sg * m * np.array([1.0, 0.3, -0.5])
            ctl["i"] += 1
            if ctl["i"] > 4000:
                raise core.Budget()
            log.append((float(t), np.array(y), f.copy()))
        return f
    y0 = np.array([1.0, -0.5, 0.25])
    rtol, atol = 1e-3, np.array([1e-4, 1e-3, 1e-4])
    sol = mt.ALL["SSV2stab"].make(fun, 0.0, y0, 30.0 * d, rtol=rtol,
                                  atol=atol, first_step=0.3,
                                  rho_jac=lambda t, y: rho + 2.0)
    ctl["on"] = True
    fn = base(0.0, y0)
    tag = "rho=%g d=%d %s plan=%s" % (rho, d, kind, plan)
    nrej = 0
    last = case["blk"] * 5 + 5
    for step in range(25):
        if sol.status != "running" or ctl["i"] > last + 60:
            break
        del log[:]
        t, yn = sol.t, sol.y.copy()
        sol.step()
        att, cur = [], []
        for e in log:
            if cur and not (e[0] - cur[-1][0]) * d > 0:
                att.append(cur)
                cur = []
            cur.append(e)
        att.append(cur)
        if sol.status == "failed":
            break
        for ia, a in enumerate(att):
            m = len(a)
            h = a[-1][0] - t
            res.transitions += 1
            if m < 2:
                res.bad("calls", "%s step %d: attempt with %d calls"
                        % (tag, step, m))
                return
            A, Bc, w0, w1, c = coefs(m)
            Y = [yn, yn + h * c[1] * fn]
            tol = 1e-11 * m * m
            big = np.max(np.abs(yn)) + abs(h) * np.max(np.abs(fn))
            for j in range(1, m + 1):
                # argument of call j is stage j (stage m is the solution)
                tj = t + c[j] * h if j < m else t + h
                tt, yy, ff = a[j - 1]
                if abs(tt - tj) > 1e-10 * (abs(h) + abs(t)):
                    res.bad("stagetime", "%s step %d attempt %d stage %d of "
                            "%d at %r instead of %r" % (tag, step, ia, j, m,
                                                        tt, tj))
                    return
                big = max(big, np.max(np.abs(Y[j])), abs(h) *
                          np.max(np.abs(ff)))
                if not np.all(np.abs(yy - Y[j]) <= tol * big):
                    res.bad("stage", "%s step %d attempt %d stage %d of %d: "
                            "%s instead of %s" % (tag, step, ia, j, m, yy,
                                                  Y[j]))
                    return
                if j == m:
                    break
                k = j + 1
                mu = 2 * w0 * Bc[k] / Bc[k - 1]
                nu = -Bc[k] / Bc[k - 2]
                mus = 2 * w1 * Bc[k] / Bc[k - 1]
                gam = -A[k - 1] * mus
                Y.append((1 - mu - nu) * yn + mu * Y[j] + nu * Y[j - 1] +
                         h * mus * ff + h * gam * fn)
            yy, ff = a[-1][1], a[-1][2]
            est = 0.8 * (yn - yy) + 0.4 * h * (fn + ff)
            wt = atol + rtol * np.maximum(np.abs(yn), np.abs(yy))
            err = float(np.sqrt(np.mean((est / wt) ** 2)))
            acc = ia == len(att) - 1
            if abs(err - 1) > 1e-7 and (err < 1) != acc:
                res.bad("decision", "%s step %d attempt %d with error %r "
                        "was %s" % (tag, step, ia, err,
                                    "accepted" if acc else "rejected"))
                return
            res.sig("replay", m)
        if not (np.array_equal(sol.y, yy) and
                abs(sol.t - a[-1][0]) <= 4 * np.spacing(abs(sol.t))):
            res.bad("final", "%s step %d: last call not at the solution"
                    % (tag, step))
            return
        nrej += len(att) - 1
        fn = ff
        res.states += 1
    res.traces += 1
    res.sig("replay", "rejections", min(nrej, 5))
    if res.sample is None and nrej:
        res.sample = {"run": tag, "rejections": nrej}
