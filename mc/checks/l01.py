"""L01 implicit methods are stable for every stiff linear mode."""
import cmath
import math
import numpy as np
from scipy.sparse import csc_array
import core
import methods as mt

ID = "L01"
TECHNIQUE = ("exhaustive enumeration of a grid of the closed left half plane "
             "(products of step size and eigenvalue) on the real implicit "
             "steps; conformance with the stability function of the published "
             "tables")
NOTE = "R(z) = 1 + z b' (I - z A)^-1 1 of a frozen copy of the tables."
RULE = ("Every implicit method and interpolant x {negative real, imaginary "
        "axis, sectors} with |z| from 1e-4 to 1e10 x {real, complex, real "
        "2x2 blocks, inside a full matrix} x Jacobian {array, sparse array, "
        "function, sparse function} x mass matrix {none, diagonal, full} x "
        "direction x step size x three consecutive steps, and stiff driven "
        "modes with error control. Outcome class = (part, method, form, "
        "damping).")
ASSUMPTIONS = ["stability is decided on the stated grid"]
LSTABLE = {"HS2I", "KC3I", "KC4I", "KC4Ia", "Kv3I"}
ANGLES = [0, 15, 30, 45, 60, 75, 85, 89, 90]


def cases(tier):
    th = tier != "quick"
    hs = [1.0, 0.02] if not th else [1.0, 0.02, 3e-4, 50.0]
    for name in mt.ESDIRK:
        if not th and mt.ALL[name].opts:
            continue
        for jac in ("array", "sparray", "fun", "spfun"):
            for mass in ("none", "diag", "full"):
                for form in ("real", "cplx", "block", "full"):
                    for d in (1, -1):
                        for h in hs:
                            yield dict(part="grid", m=name, jac=jac,
                                       mass=mass, form=form, d=d, h=h)
        for d in (1, -1):
            for e in range(0, 9):
                for jac in ("array", "fun", "none", "each"):
                    for mass in ("none", "diag", "full"):
                        yield dict(part="pr", m=name, d=d, e=e, jac=jac,
                                   mass=mass)


def run(case, res):
    {"grid": grid, "pr": pr}[case["part"]](case, res)


def rfun(name, z):
    t = mt.TABLES[mt.ALL[name].base]
    A = np.array(t["A"])
    s = len(A)
    if abs(z) > 1:
        # y' = z y; stages of (I/z - A) k = 1
        k = np.linalg.solve(np.eye(s) / z - A, np.ones(s))
        return 1 + A[-1] @ k
    k = np.linalg.solve(np.eye(s) - z * A, np.ones(s))
    return 1 + z * (A[-1] @ k)


def rstiff(name, z):
    """product form without cancellation"""
    t = mt.TABLES[mt.ALL[name].base]
    A = np.array(t["A"])
    s = len(A)
    y = [1.0]
    zk = [z * 1.0]          # z * Y
    g = A[1, 1]
    for i in range(1, s):
        psi = 1.0 + sum(A[i, j] * zk[j] for j in range(i))
        # Y = psi / (1 - g z)
        y.append(psi / (1 - g * z))
        zk.append((y[-1] - psi) / g)
    return y[-1]


def points(form):
    mag = np.concatenate(([1e-4, 1e-2], np.geomspace(0.1, 100, 25),
                          [1e3, 1e4, 1e6, 1e8, 1e10]))
    if form == "real":
        return -mag
    return np.array([-r * cmath.exp(1j * s * math.pi * a / 180) if a < 90
                     else 1j * s * r
                     for a in ANGLES for s in (1, -1) for r in mag[::2]])


Q = None


def grid(case, res):
    name, form, d, h = case["m"], case["form"], case["d"], case["h"]
    z = points(form)
    if form == "full":
        # modes inside a full well conditioned system, moderate stiffness
        z = z[np.abs(z) <= 1e4]
    if case["mass"] == "full":
        z = z[np.abs(z) <= 1e6]
    lam = z / (h * d)
    if form in ("real", "cplx"):
        L = np.diag(lam)
    else:
        z = z[z.imag >= 0]
        lam = z / (h * d)
        n = 2 * len(z)
        L = np.zeros((n, n))
        for i, x in enumerate(lam):
            L[2 * i:2 * i + 2, 2 * i:2 * i + 2] = [[x.real, x.imag],
                                                   [-x.imag, x.real]]
    n = len(L)
    B = np.eye(n)
    if form == "full":
        v = np.cos(np.arange(n) * 1.7) + 0.2
        B = np.eye(n) - 2 * np.outer(v, v) / (v @ v)
        L = B @ L @ B.T
    M = None
    Mm = np.eye(n)
    if case["mass"] == "diag":
        M = 2.0 ** (np.arange(n) % 5 - 2) * (-1.0) ** np.arange(n)
        Mm = np.diag(M)
    elif case["mass"] == "full":
        Mm = np.eye(n) + np.diag(np.full(n - 1, 0.25), 1) * \
            (np.arange(n) % 2)[:, None]
        M = Mm
    J = Mm @ L
    if case["jac"].startswith("sp"):
        Js = csc_array(J)
    else:
        Js = J
    jac = Js if case["jac"].endswith("array") else (lambda t, y: Js)
    y0 = np.ones(n) if form == "real" else np.tile([0.6, 0.8], n // 2)
    if form == "cplx":
        y0 = np.ones(n) * (0.6 - 0.8j)
    y0 = B @ y0
    sol = mt.ALL[name].make(lambda t, y: J @ y, 0.0, y0, 40 * h * d,
                            first_step=h, max_step=h, rtol=1e-3, atol=1e14,
                            jac=jac, M=M)
    tag = "%s %s jac=%s M=%s d=%d h=%g" % (name, form, case["jac"],
                                           case["mass"], d, h)

    def modes(y):
        x = B.T @ y
        return x if form in ("real", "cplx") else x[0::2] - 1j * x[1::2]
    R = np.array([rstiff(name, x) for x in z])
    if not np.all(np.abs(R) <= 1 + 1e-12):
        raise AssertionError("table of %s is not A-stable" % name)
    big = np.abs(z)
    if case["mass"] == "full" or form == "full":
        big = np.full(len(z), np.max(big))      # rounding spreads
    tol = (1e-6 if form == "full" else 1e-9) + 100 * np.finfo(float).eps * big
    ref = modes(y0)
    for step in range(3):
        sol.step()
        if sol.status != "running" or abs(sol.t - sol.t_old - h * d) > 1e-9:
            res.bad("status:" + name, "%s step %d %s %r" % (
                tag, step, sol.status, sol.t))
            return
        now = modes(sol.y)
        old = ref
        ref = R * ref
        e = np.abs(now - ref)
        k = int(np.argmax(e - tol))
        if not np.all(e <= tol):
            res.bad("rfun:" + name, "%s step %d: mode z=%r is %r instead of "
                    "%r" % (tag, step, z[k], now[k], ref[k]))
            return
        if not np.all(np.abs(now) <= np.abs(old) + tol):
            k = int(np.argmax(np.abs(now) - np.abs(old)))
            res.bad("amplified:" + name, "%s step %d: mode z=%r grew from %r "
                    "to %r" % (tag, step, z[k], old[k], now[k]))
            return
        stiff = np.abs(z) >= 1e4
        if mt.ALL[name].base in LSTABLE and not np.all(
                np.abs(now[stiff]) <= 100 / np.abs(z[stiff]) + tol[stiff]):
            res.bad("damping:" + name, "%s step %d: stiff modes not damped: "
                    "%s" % (tag, step, now[stiff]))
            return
        res.states += len(z)
        res.transitions += 1
    res.traces += 1
    res.sig("grid", name, form, round(float(np.max(np.abs(R[stiff]))), 3)
            if stiff.any() else "")
    if res.sample is None:
        res.sample = {"run": tag, "modes": len(z)}


def pr(case, res):
    """stiff driven modes: the step size must not be limited by stiffness"""
    name, d, e = case["m"], case["d"], case["e"]
    k = 10.0 ** e
    w = np.array([1.0, 0.5, 0.7])
    lam = -np.array([k, 0.3 * k, 1.0])
    Mm = np.eye(3)
    M = None
    if case["mass"] == "diag":
        M = np.array([2.0, -0.5, 1.0])
        Mm = np.diag(M)
    elif case["mass"] == "full":
        M = Mm = np.array([[2.0, 1, 0], [0, 1, -0.5], [0.25, 0, 1]])

    def phi(s):
        return np.cos(w * s)

    def fun(t, y):
        s = t * d
        return d * (Mm @ (lam * (y - phi(s)) - w * np.sin(w * s)))
    J = d * Mm @ np.diag(lam)
    jac = {"array": J, "fun": lambda t, y: J, "none": None,
           "each": lambda t, y: J}[case["jac"]]
    calls = [0]

    def cfun(t, y):
        calls[0] += 1
        if calls[0] > 40000:
            raise core.Budget()
        return fun(t, y)
    rtol = 1e-4
    off = np.array([0.0, 0.5, -0.25])      # initial transient
    if mt.ALL[name].base not in LSTABLE:
        off[1] = 0.0
    sol = mt.ALL[name].make(cfun, 0.0, phi(0.0) + off, 10.0 * d, rtol=rtol,
                            atol=rtol, jac=jac, M=M, first_step=1e-3,
                            jac_each_step=case["jac"] == "each")
    n = 0
    while sol.status == "running" and n < 3000:
        sol.step()
        n += 1
        s = sol.t * d
        err = np.abs(sol.y - phi(s) - off * np.exp(lam * s))
        if not np.all(err < 200 * rtol):
            res.bad("prerr:" + name, "%s t=%r error %s" % (case, sol.t, err))
            return
    res.transitions += n
    res.states += n
    res.traces += 1
    if sol.status != "finished" or n > 700:
        res.bad("prsteps:" + name, "%s: %s after %d steps" % (
            case, sol.status, n))
    res.sig("pr", name, case["jac"], int(math.log2(n)))
