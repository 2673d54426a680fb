"""M01 differential-algebraic problems are classified and solved."""
import itertools
import numpy as np
from fractions import Fraction
from scipy.linalg import expm
from scipy.sparse import csc_array
import core
import methods as mt

ID = "M01"
TECHNIQUE = ("exhaustive enumeration of all small matrix pencils (mass "
             "matrix, Jacobian) over a set of entries on the real code; exact "
             "rational classification of the index and exact solutions as "
             "oracle")
NOTE = ("The index is decided from the degree of det(s M - A) in rational "
        "arithmetic; solutions with the matrix exponential of the reduced "
        "problem.")
RULE = ("2x2: all singular M with entries in {-1, 0, 1} x all A with entries "
        "in {-1, 0, 1}; 3x3: a set of singular M (diagonal, permuted, rank "
        "one, full) x all A with entries in {0, 1} (quick: at most four "
        "nonzeros); x method "
        "x Jacobian form x direction x initial values x forcing; nonlinear "
        "constraints: problems x methods x initial guesses x forms; the linear "
        "pencils also in complex coordinates (rotated phases, unitary "
        "mixing of equations and unknowns). Outcome "
        "class = (size, rank, index, consistent start, outcome).")
ASSUMPTIONS = ["linear pencils with constant coefficients; error at most 100 "
               "times the tolerance for eigenvalues up to 3"]
NAMES = ["HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I"]
JFORM = ["array", "fun", "none", "sparray", "spfun"]


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    s = 0
    for c in range(n):
        if a[0][c]:
            s += (-1) ** c * a[0][c] * det([r[:c] + r[c + 1:]
                                            for r in a[1:]])
    return s


def rank(a):
    a = [[Fraction(x) for x in r] for r in a]
    rk, n, m = 0, len(a), len(a[0])
    for c in range(m):
        p = next((r for r in range(rk, n) if a[r][c]), None)
        if p is None:
            continue
        a[rk], a[p] = a[p], a[rk]
        for r in range(n):
            if r != rk and a[r][c]:
                f = a[r][c] / a[rk][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[rk])]
        rk += 1
    return rk


def index_one(M, A):
    """degree of det(s M - A) equals the rank of M"""
    n = len(M)
    vals = []
    for s in range(n + 1):
        vals.append(Fraction(det([[s * m - a for m, a in zip(x, y)]
                                  for x, y in zip(M, A)])))
    # degree by repeated differences
    deg, d = -1, vals
    k = 0
    while d:
        if d[0] != 0:
            deg = k
        d = [b - a for a, b in zip(d, d[1:])]
        k += 1
    return deg == rank(M)


def matrices(n, ent):
    for e in itertools.product(ent, repeat=n * n):
        yield [list(e[i * n:(i + 1) * n]) for i in range(n)]


M3 = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 0]], [[0, 0, 0], [0, 2, 0], [0, 0, -1]],
    [[1, 0, 0], [0, 0, 0], [0, 0, 0]], [[0, 1, 0], [0, 0, 1], [0, 0, 0]],
    [[1, 1, 0], [1, 1, 0], [0, 0, 1]], [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
    [[0, 0, 0], [1, 0, 0], [0, 0, 1]], [[1, 2, 3], [4, 5, 6], [7, 8, 9]],
    [[0, 0, 0], [0, 0, 0], [0, -3, 0]], [[1, -1, 0], [0, 1, -1], [-1, 0, 1]],
]


def cases(tier):
    th = tier != "quick"
    ms = [m for m in matrices(2, (-1, 0, 1)) if rank(m) == 1]
    for im, m in enumerate(ms):
        for jf in JFORM:
            for name in NAMES:
                if not th and (im + NAMES.index(name)) % 6 != \
                        JFORM.index(jf) % 6:
                    continue
                yield dict(part="lin", M=m, n=2, jac=jf, m=name,
                           d=1 - 2 * (im % 2) if not th else 0, ent=[-1, 0, 1])
    for im, m in enumerate(M3):
        for jf in JFORM:
            for iname, name in enumerate(NAMES):
                if (im + iname) % (6 if not th else 3) != JFORM.index(jf) % 3:
                    continue
                yield dict(part="lin", M=m, n=3, jac=jf, m=name,
                           d=1 - 2 * (im % 2) if not th else 0, ent=[0, 1],
                           nz=4 if not th else 9)
    # the same pencils in complex coordinates
    for cx in (1, 2):
        for im, m in enumerate(ms):
            for ij, jf in enumerate(JFORM):
                for iname, name in enumerate(NAMES):
                    if (im + iname + ij + cx) % (3 if th else 15):
                        continue
                    yield dict(part="lin", M=m, n=2, jac=jf, m=name, cx=cx,
                               d=1 - 2 * ((im + ij) % 2), ent=[-1, 0, 1])
        for im, m in enumerate(M3):
            for ij, jf in enumerate(JFORM):
                if (im + ij + cx) % (1 if th else 5):
                    continue
                yield dict(part="lin", M=m, n=3, jac=jf,
                           m=NAMES[(im + ij) % 6], cx=cx,
                           d=1 - 2 * (ij % 2), ent=[0, 1],
                           nz=5 if th else 3)
    for name in mt.ESDIRK:
        for jf in ("fun", "none", "spfun"):
            for d in (1, -1):
                yield dict(part="nl", m=name, jac=jf, d=d)


def run(case, res):
    if case["part"] == "nl":
        return nonlinear(case, res)
    for A in matrices(case["n"], case["ent"]):
        if sum(map(bool, sum(A, []))) > case.get("nz", 9):
            continue
        for d in (1, -1) if case["d"] == 0 else (case["d"],):
            linear(case, A, d, res)


def jacobian(jf, J):
    Js = csc_array(J) if jf.startswith("sp") else J
    if jf.endswith("array"):
        return Js
    if jf.endswith("fun"):
        return lambda t, y: Js
    return None


def coordinates(cx, n):
    """unitary matrices P, Q: M, A and y become P M Q*, P A Q* and Q y"""
    if not cx:
        return np.eye(n), np.eye(n)
    phase = np.diag(np.array([1, 1j, -1j])[:n])
    if cx == 1:
        return phase, phase
    mix = np.eye(n, dtype=complex)
    mix[:2, :2] = np.array([[3, 4j], [4j, 3]]) / 5
    mix2 = np.eye(n, dtype=complex)
    mix2[-2:, -2:] = np.array([[1, 1j], [1, -1j]]) / np.sqrt(2)
    return mix @ phase, mix2


def linear(case, A, d, res):
    Mi = case["M"]
    n = case["n"]
    ok = index_one(Mi, A)
    M, An = np.array(Mi, float), np.array(A, float)
    diag = not np.any(M - np.diag(np.diag(M)))
    name, jf = case["m"], case["jac"]
    te = 1.0
    c = np.array([[0.5, -1.0, 0.25][:n], [1.0, 0.5, -0.5][:n]])
    # exact null spaces (well separated for these matrices)
    U, s, Vh = np.linalg.svd(M)
    r = rank(Mi)
    cx = case.get("cx", 0)
    P_, Q_ = coordinates(cx, n)
    Qh = Q_.conj().T
    Mc, Ac = P_ @ M @ Qh, P_ @ An @ Qh
    if not np.any(np.imag(Mc)):
        Mc = np.real(Mc)
    if cx == 1:
        diag = diag and not np.any(Mc - np.diag(np.diag(Mc)))
    elif cx:
        diag = False
    L, N = U[:, r:], Vh[r:].T
    for iv, y0 in enumerate((np.array([1.0, -2.0, 0.5][:n]), None, None)):
        tag = "%s M=%s A=%s d=%d jac=%s start %d" % (name, Mi, A, d, jf, iv)
        if cx:
            tag += " complex %d" % cx

        def g(s):
            return c[0] + c[1] * s
        if y0 is None:
            # consistent start
            y0 = np.array([1.0, -2.0, 0.5][:n])
            if ok:
                y0 = y0 + N @ np.linalg.solve(L.T @ An @ N, -L.T @ (
                    An @ y0 + g(0.0)))
                if iv == 2:
                    # less inconsistent than the relative tolerance
                    y0 = y0 + 5e-5 * N @ np.ones(n - r)
        Mv = np.diag(Mc) if diag and case["jac"] == "fun" else Mc
        if case["jac"] == "spfun":
            Mv = csc_array(Mc)
        calls = [0]

        def fun(t, y):
            calls[0] += 1
            if calls[0] > 30000:
                raise core.Budget()
            return d * (Ac @ y + P_ @ g(t * d))
        rtol = 1e-4
        atol = rtol if iv != 1 else [rtol, rtol / 2, rtol / 4][:n]
        try:
            sol = mt.ALL[name].make(fun, 0.0, Q_ @ y0, te * d, rtol=rtol,
                                    atol=atol, M=Mv,
                                    jac=jacobian(jf, d * Ac))
        except ValueError as e:
            if ok:
                res.bad("refused:" + jf, "%s: index one refused: %s" % (tag,
                                                                       e))
                return
            res.sig(n, r, "refused")
            res.traces += 1
            res.states += 1
            continue
        if not ok and cx and jf == "none":
            # (a rounded numerical Jacobian hides a singular block)
            res.sig(n, r, "inexact")
            continue
        if not ok:
            res.bad("accepted:" + jf, "%s: index is not one, not refused"
                    % tag)
            return
        ys = Qh @ sol.y
        if np.max(np.abs(M @ (ys - y0))) > 1e-9:
            res.bad("initial:" + jf, "%s: differential components changed "
                    "from %s to %s" % (tag, y0, ys))
            return
        # reduced exact problem: y = P z + (N part from the constraint)
        P = Vh[:r].T
        G = np.linalg.inv(L.T @ An @ N)

        def alg(z, s):
            return P @ z - N @ (G @ (L.T @ (An @ (P @ z) + g(s))))
        # S z' = U1' (A y + g)
        U1 = U[:, :r]
        R = np.diag(1 / s[:r]) @ U1.T
        B = R @ An @ (P - N @ G @ L.T @ An @ P)
        h0 = R @ (c[0] - An @ N @ G @ L.T @ c[0])
        h1 = R @ (c[1] - An @ N @ G @ L.T @ c[1])
        big = np.zeros((r + 2, r + 2))
        big[:r, :r] = B
        big[:r, r] = h0
        big[:r, r + 1] = h1
        big[r + 1, r] = 1.0
        lam = max(abs(np.linalg.eigvals(B)))
        z0 = np.concatenate((P.T @ y0, [1.0, 0.0]))
        k = 0
        scale = 1 + np.max(np.abs(y0)) + np.linalg.norm(An, 2) * \
            np.linalg.norm(G, 2)
        cons = np.max(np.abs(L.T @ (An @ ys + g(0.0))))
        if cons > 1e-6 * scale:
            res.bad("inconsistent:" + jf, "%s: initial value %s violates "
                    "the constraint by %.2g" % (tag, ys, cons))
            return
        while sol.status == "running" and k < 600:
            msg = sol.step()
            k += 1
            if sol.status == "failed":
                break
            s_ = sol.t * d
            if lam < 4 and k < 5:
                do = sol.dense_output()
                for th in (0.3, 0.7):
                    sm = d * (sol.t_old + th * (sol.t - sol.t_old))
                    ref = np.asarray(alg((expm(big * sm) @ z0)[:r], sm))
                    e = np.max(np.abs(Qh @ do(sm * d) - ref)) / (
                        scale + np.max(np.abs(ref))) / rtol
                    if not e < 300:
                        res.bad("continuous:" + jf, "%s step %d from %r: "
                                "error inside the step is %.3g times the "
                                "tolerance" % (tag, k, sol.t_old, e))
                        return
            if lam < 4:
                ref = alg((expm(big * s_) @ z0)[:r], s_)
                ref = np.asarray(ref)
                tol = 100 * rtol * (scale + np.max(np.abs(ref)))
                e = np.max(np.abs(Qh @ sol.y - ref))
                if not e < tol:
                    res.bad("solution:" + jf, "%s t=%r: %s instead of %s"
                            % (tag, sol.t, sol.y, ref))
                    return
            cons = np.max(np.abs(L.T @ (An @ (Qh @ sol.y) + g(s_))))
            if not cons < 10 * rtol * (scale + np.max(np.abs(sol.y))) * \
                    (1 + np.linalg.norm(An)):
                res.bad("constraint:" + jf, "%s t=%r: constraint violated "
                        "by %.2g" % (tag, sol.t, cons))
                return
        if sol.status != "finished":
            res.bad("status:" + jf, "%s: %s %s after %d steps" % (
                tag, sol.status, msg, k))
            return
        res.sig(n, r, "solved", iv, int(np.log2(k)))
        res.traces += 1
        res.states += k
        res.transitions += k
        if res.sample is None:
            res.sample = {"run": tag, "steps": k}


def nonlinear(case, res):
    """constraints that are nonlinear in the algebraic component"""
    name, jf, d = case["m"], case["jac"], case["d"]
    # y1' = -y1 + y2, 0 = c(y1, y2); exact: dy1/dt with y2 = solution
    probs = [
        ("cubic", lambda a, b: b ** 3 + b - a, lambda a, b: (-1, 3 * b * b
                                                            + 1)),
        ("root", lambda a, b: b * b - a - 1, lambda a, b: (-1, 2 * b)),
        ("exp", lambda a, b: np.exp(b) - 1 - a, lambda a, b: (-1, np.exp(b))),
        ("product", lambda a, b: (1 + a * a) * b - a,
         lambda a, b: (2 * a * b - 1, 1 + a * a)),
    ]
    mats = [np.diag([1.0, 0.0]), np.array([[2.0, 0.0], [1.0, 0.0]]),
            np.array([[0.0, 0.0], [0.5, 0.0]])]
    for pname, c, dc in probs:
        for im, M in enumerate(mats):
            for y2 in (None, 0.9, 2.0):
                a0 = 1.5
                T = [np.eye(2), np.array([[2.0, 0], [1.0, 1.0]]),
                     np.array([[0, 1.0], [0.5, 0]])][im]

                def fun(t, y):
                    return d * (T @ np.array([-y[0] + 0.5 * y[1],
                                              c(y[0], y[1])]))

                def jac(t, y):
                    p, q = dc(y[0], y[1])
                    J = d * (T @ np.array([[-1.0, 0.5], [p, q]]))
                    return csc_array(J) if jf == "spfun" else J
                b0 = solve(c, dc, a0, 1.0)
                y0 = np.array([a0, b0 if y2 is None else y2])
                rtol = 1e-5
                tag = "%s %s M=%s y0=%s d=%d jac=%s" % (
                    name, pname, M.tolist(), y0, d, jf)
                sol = mt.ALL[name].make(
                    fun, 0.0, y0, 2.0 * d, rtol=rtol, atol=rtol, M=M,
                    jac=None if jf == "none" else jac)
                if abs(sol.y[0] - a0) > 1e-12:
                    res.bad("nlinitial", "%s: y changed to %s" % (tag, sol.y))
                    return
                k = 0
                # reference: small Runge-Kutta steps of the reduced problem
                ts, ra = reference(c, dc, a0, b0)
                while sol.status == "running" and k < 500:
                    sol.step()
                    k += 1
                    a = np.interp(sol.t * d, ts, ra)
                    b = solve(c, dc, sol.y[0], sol.y[1])
                    if not abs(sol.y[0] - a) < 300 * rtol:
                        res.bad("nlsolution", "%s t=%r y=%s reference %r"
                                % (tag, sol.t, sol.y, a))
                        return
                    if not abs(sol.y[1] - b) < 100 * rtol:
                        res.bad("nlconstraint", "%s t=%r y=%s, constraint "
                                "%r" % (tag, sol.t, sol.y, b))
                        return
                if sol.status != "finished":
                    res.bad("nlstatus", "%s %s" % (tag, sol.status))
                    return
                res.traces += 1
                res.states += k
                res.transitions += k
                res.sig("nl", pname, y2 is None, im)


def solve(c, dc, a, b):
    for _ in range(60):
        b = b - c(a, b) / dc(a, b)[1]
    return b


def reference(c, dc, a, b, n=400):
    h = 2.0 / n
    ts, out = [0.0], [a]

    def f(a, b):
        b = solve(c, dc, a, b)
        return -a + 0.5 * b, b
    for i in range(n):
        k1, b = f(a, b)
        k2, b = f(a + h / 2 * k1, b)
        k3, b = f(a + h / 2 * k2, b)
        k4, b = f(a + h * k3, b)
        a = a + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        ts.append((i + 1) * h)
        out.append(a)
    return np.array(ts), np.array(out)
