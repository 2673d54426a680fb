"""W01 the size of the first step is that of the published algorithms."""
import itertools
import numpy as np
import core
import methods as mt

ID = "W01"
TECHNIQUE = ("exhaustive enumeration of initial value problems over finite "
             "sets; the first attempted step of the implementation is "
             "compared with a reference model of the published algorithm "
             "(conformance check)")
NOTE = ("The reference model is written from the published Fortran routines "
        "(DHSTRT of H.A. Watts; RKC) and evaluates the problem by itself. "
        "The attempted step is recovered from the times of the right-hand "
        "side calls of the first step.")
RULE = ("All combinations of initial values over {-1,0,2}^n (n = 1, 2, "
        "thorough: 3), linear parts, time dependent parts (also starting "
        "with a zero derivative), a nonlinear term, start time, length of "
        "the interval, maximum step, direction, tolerances (scalar or per "
        "component), real or complex and method; implicit methods with mass "
        "matrix as well. Outcome class = (method, decade of the step "
        "relative to the interval, shape of the problem).")
ASSUMPTIONS = ["compared where the step is less than 0.49 times the interval "
               "and the maximum step and larger than the minimum step (the "
               "limits are the subject of H01 and I01)",
               "the norm is the RMS norm, complex perturbations keep signs "
               "of real and imaginary parts (documented modifications)"]
EPS = 2.0 ** -53


def rms(x):
    return float(np.sqrt(np.mean(np.abs(x) ** 2))) if x.size else 0.0


def sign(a, b):
    """abs(a) with the sign of b"""
    return -abs(a) if np.signbit(b) else abs(a)


def dhstrt(f, a, b, y, yprime, etol, morder):
    small = np.nextafter(EPS, 1.0)
    big = np.sqrt(np.finfo(float).max)
    n = y.size
    if np.isinf(b):
        b = a + sign(max(1.0, abs(a)), b)
    dx = b - a
    relper = small ** 0.375
    # derivative to time
    da = sign(max(min(relper * abs(a), abs(dx)), 100 * small * abs(a)), dx)
    if da == 0.0:
        da = relper * dx
    sf = f(a + da, y)
    delf = rms(sf - yprime)
    dfdxb = delf / abs(da) if delf < big * abs(da) else big
    fbnd = max(rms(sf), rms(yprime))
    # Lipschitz constant
    dely = relper * rms(y)
    if dely == 0.0:
        dely = relper
    dely = sign(dely, dx)
    delf = rms(yprime)
    if delf != 0.0:
        spy, yp = yprime.copy(), yprime.copy()
    else:
        spy, yp = 0 * yprime, 0 * yprime + 1
        delf = rms(yp)
    dfdub = 0.0
    lk = min(n + 1, 3)
    for k in range(1, lk + 1):
        pv = y + dely * (yp / delf)
        yp = f(a + da if k == 2 else a, pv)
        diff = yp - (sf if k == 2 else yprime)
        fbnd = max(fbnd, rms(yp))
        delf = rms(diff)
        if delf >= big * abs(dely):
            dfdub = big
            break
        dfdub = max(dfdub, delf / abs(dely))
        if k == lk:
            break
        if delf == 0.0:
            delf = 1.0
        new = np.empty_like(yp)
        for j in range(n):
            if k == 2:
                dy = y[j] if y[j] != 0 else dely / relper
            else:
                dy = diff[j] if diff[j] != 0 else delf
            if spy[j] == 0:
                spy[j] = yp[j]
            if spy[j] != 0:
                if np.iscomplexobj(y):
                    dy = complex(sign(np.real(dy), spy[j].real),
                                 sign(np.imag(dy), spy[j].imag))
                else:
                    dy = sign(dy, spy[j])
            new[j] = dy
        yp = new
        delf = rms(yp)
    ydpb = dfdxb + dfdub * fbnd
    texp = np.log10(etol)
    tolp = 10 ** (0.5 * (np.sum(texp) / n + min(np.min(texp), big)) /
                  (morder + 1))
    h = abs(dx)
    if ydpb == 0.0 and fbnd == 0.0:
        if tolp < 1.0:
            h = abs(dx) * tolp
    elif ydpb == 0.0:
        if tolp < fbnd * abs(dx):
            h = tolp / fbnd
    else:
        s = np.sqrt(0.5 * ydpb)
        if tolp < s * abs(dx):
            h = tolp / s
    if h * dfdub > 1.0:
        h = 1 / dfdub
    h = max(h, 100 * small * abs(a))
    return h if h else small * abs(b)


def rkc(f, t, y, hmax, d, sprad, wt):
    fn = f(t, y)
    h = hmax
    if sprad * h > 1:
        h = 1 / sprad
    est = h * rms((f(t + d * h, y + d * h * fn) - fn) / wt)
    if 0.1 * h < hmax * np.sqrt(est):
        return 0.1 * h / np.sqrt(est), h
    return hmax, h


LIN = {1: [[[0.0]], [[-1.5]], [[40.0]]],
       2: [[[0.0, 0.0], [0.0, 0.0]], [[-1.0, 0.5], [0.25, -2.0]],
           [[0.0, 30.0], [-30.0, 0.0]], [[0.0, 1.0], [0.0, 0.0]],
           [[-500.0, 0.0], [1.0, -0.1]]],
       3: [[[-1.0, 2.0, 0.0], [0.0, -3.0, 1.0], [0.5, 0.0, -20.0]],
           [[0.0, 0.0, 1.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]]}
TIME = ["none", "const", "ramp", "fast"]
RANGE = [(0.0, 1.0, None), (0.0, 100.0, 0.7), (0.1, 1e-3, None),
         (-3.0, 20.0, None), (1e4, 5.0, None), (2.0, np.inf, None)]
TOL = [(1e-3, 1e-6), (1e-6, [1e-9, 1e-5, 1e-7]), (1e-9, 1e-12)]


def cases(tier):
    th = tier != "quick"
    for name in mt.BASE:
        for n in (1, 2, 3) if th else (1, 2):
            for lin in range(len(LIN[n])):
                for tm in TIME:
                    for tol in range(3) if th else (0, 1):
                        yield dict(m=name, n=n, lin=lin, tm=tm, tol=tol,
                                   nl=(0, 1) if th else (lin % 2,))


def run(case, res):
    m = mt.ALL[case["m"]]
    n = case["n"]
    if m.kind == "rkn" and n % 2:
        n = 2 * n
    vals = (-1.0, 0.0, 2.0) if n < 4 else (0.0, 2.0)
    masses = [None]
    if m.kind == "esdirk" and n > 1:
        masses.append(np.arange(1.0, n + 1))
        masses.append(np.eye(n) + 0.5 * np.eye(n, k=1))
    for y0 in itertools.product(vals, repeat=n):
        for cplx in (0, 1) if m.cplx else (0,):
            for r in RANGE:
                for d in (1, -1):
                    for nl in case["nl"]:
                        for M in masses:
                            one(m, case, np.array(y0), cplx, r, d, nl, M, res)


def one(m, case, y0, cplx, rng, d, nl, M, res):
    n = y0.size
    ssv, rkn = m.kind == "ssv", m.kind == "rkn"
    t0, L, ms = rng
    u = 0.6 - 0.8j if cplx else 1.0
    A = np.array(LIN[case["n"]][case["lin"]])
    if rkn and case["n"] % 2:
        A = np.kron(np.eye(2), A)
    w = {"none": 0.0, "const": 0.0, "ramp": 0.5, "fast": 50.0}[case["tm"]]
    c = np.arange(1, n + 1) % 3 * (case["tm"] != "none") * u

    def f(t, y):
        g = A @ y + nl * 0.3 * y * np.abs(y) + c * np.cos(w * (t - t0)) \
            if w < 1 else A @ y + nl * 0.3 * y * np.abs(y) + \
            c * np.sin(w * (t - t0))
        if rkn:
            h = n // 2
            y = np.asarray(y)
            g[h:] = A[h:, :h] @ y[:h] - y[:h] + (g[h:] - A[h:] @ y)
            g[:h] = y[h:]
            if m.name in ("Mu5Nmb", "MR6NN", "Fi4N", "Fi5N"):
                g[h:] = A[h:, :h] @ y[:h] - y[:h] + c[h:] * np.cos(
                    w * (t - t0)) + nl * 0.3 * y[:h] ** 2
        return g
    y0 = y0 * u
    rtol, atol = TOL[case["tol"]]
    if not np.isscalar(atol):
        atol = (atol * 2)[:n]
    log = [0]

    def fun(t, y):
        log.append(float(t))
        return f(t, y)
    kw = {}
    if ms:
        kw["max_step"] = ms
    if M is not None:
        kw["M"] = M
    if m.kind == "esdirk":
        kw["jac"] = lambda t, y: A * (1 + 0 * u)
    if ssv:
        kw["rho_jac"] = lambda t, y: 20.0
    tag = "%s y0=%s A=%s %s nl=%d t=%r+%r max_step=%s d=%d rtol=%g atol=%s%s"\
        % (m.name, y0.tolist(), A.tolist(), case["tm"], nl, t0, L, ms, d,
           rtol, atol, "" if M is None else " M=%s" % M.tolist())
    tb = t0 + d * L
    etol = np.asarray(atol) + rtol * np.abs(y0)
    ms_ = min(ms or np.inf, abs(tb - t0))
    if ssv:
        if np.isinf(L):
            return
        h, hi = rkc(f, t0, y0, ms_, d, 20.0, etol)
    else:
        def g(t, y):
            r = f(t, y)
            if M is None:
                return r
            return r / M if M.ndim == 1 else np.linalg.solve(M, r)
        order = {"swag": 1}.get(m.kind) or min(m.order, m.secondary)
        h = dhstrt(g, t0, t0 + d * ms_, y0, g(t0, y0), etol, order)
    res.states += 1
    if h < 1e-11 * abs(t0) or h < 1e-100 or \
            not h < 0.49 * min(ms_, L, abs(tb - t0)):
        res.sig(m.name, "limited", case["tm"])
        return
    sol = m.make(fun, t0, y0, tb, rtol=rtol, atol=atol, **kw)
    del log[:]
    sol.step()
    if not log:
        res.bad("nocall:" + m.name, "%s: first step without evaluation" % tag)
        return
    if ssv:
        got = max(abs(t - t0) for t in log[1:])
        if got > 0.9 * hi and abs(log[0] - t0) > 1e-9 * hi and \
                abs(abs(log[0] - t0) / hi - 1) > 1e-6:
            got = abs(log[0] - t0)
        # the number of stages is limited
        mmax = max(int(round(np.sqrt(rtol / (10 * EPS)))), 2)
        if 1 + int(np.sqrt(1.54 * h * 20 + 1)) > mmax:
            return
    elif m.kind == "swag":
        got = abs(log[0] - t0)
    else:
        C = np.asarray(mt.TABLES[m.base]["C"], float)
        k = next(i for i in range(1, C.size) if C[i])
        got = abs(log[k - 1] - t0) / C[k]
    res.transitions += 1
    res.traces += 1
    rel = 1e-5 + 1e-15 * abs(t0) / h * 10
    res.sig(m.name, int(np.log10(h / ms_)) if np.isfinite(ms_) else 0,
            case["tm"], nl)
    if not abs(got / h - 1) < rel:
        res.bad("first:%s" % m.name, "%s: first attempt %r, published "
                "algorithm %r" % (tag, got, h))
        return
    if res.sample is None:
        res.sample = {"run": tag, "first step": got}
