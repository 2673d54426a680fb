"""G01 the error of the solution follows the tolerance."""
import itertools
import numpy as np
from scipy.linalg import expm
import core
import methods as mt

ID = "G01"
TECHNIQUE = ("exhaustive enumeration of all small linear systems over a set "
             "of entries and a list of nonlinear problems, methods, options, "
             "tolerances and directions on the real code; exact solutions as "
             "oracle at every accepted point and inside every step")
NOTE = ("Linear problems: matrix exponential; nonlinear ones: closed form. "
        "The bound per class of methods is fixed beforehand (about four times "
        "the largest ratio on the unchanged tree), scaled by the exact "
        "amplification of the problem.")
RULE = ("all 2x2 matrices with entries in {-1, 0, 1} (thorough: {-2..2}) with "
        "forcing, stiff and nonlinear problems, components of different "
        "size and very small or large units, x method and option x tolerance "
        "x relative or absolute control x direction x real or "
        "complex. Outcome class = (method, tolerance, decade of the error "
        "ratio).")
ASSUMPTIONS = ["error bounds hold for problems with amplification up to 50 "
               "over the interval"]
TOLS = [1e-3, 1e-5, 1e-7, 1e-9]
LOWTOL = {"SSV2stab": 3, "KC3I": 3, "KC3IC1": 3,
          "Kv3I": 3, "Kv3IC1": 3, "SWAG1": 2, "HS2I": 2, "HS2Ia": 2}
T = 2.0


def tols(name):
    return TOLS[:LOWTOL.get(name, 4)]


# largest allowed error ratio (accepted points, continuous solution): four
# times what the unchanged tree reaches in the thorough tier
BOUND = {
    "BS5": (7.5, 11.2), "BS5free": (7.5, 19), "CFMR7osc": (2, 7),
    "CK5": (4.7, 28), "CKdisc": (6.7, 28), "Me4": (146, 209),
    "Pr7": (0.8, 2.8), "Pr8": (0.02, 0.02), "Pr9": (0.08, 0.2),
    "Ts5": (3.3, 3.6), "Fi4N": (0.4, 0.6), "Fi5N": (1, 5.4),
    "Fi5N2": (1, 0.9), "Fi5N3": (1, 0.9), "MR6NN": (0.02, 0.03),
    "Mu5Nmb": (0.08, 0.08), "Mu5Nmbfree": (0.08, 0.3), "SWAG": (12.5, 12.5),
    "SWAG1": (2.6, 2.6), "SWAG4": (14, 14), "SSV2stab": (270, 270),
    "HS2I": (145, 716), "HS2Ia": (116, 152), "KC3I": (16, 40),
    "KC4I": (29, 140), "KC4Ia": (310, 315), "Kv3I": (3.2, 3400),
}


class Linear:
    """y' = A y + g0 + g1 t; for Nystroem: x'' = K x + D v + g"""

    def __init__(self, A, y0, g=None):
        self.A = np.array(A)
        n = len(self.A)
        self.y0 = np.array(y0)
        self.g = np.zeros((2, n)) if g is None else np.array(g)
        big = np.zeros((n + 2, n + 2), self.A.dtype)
        big[:n, :n] = self.A
        big[:n, n] = self.g[0]
        big[:n, n + 1] = self.g[1]
        big[n + 1, n] = 1.0
        self.big = big
        self.z0 = np.concatenate((self.y0, [1.0, 0.0]))

    def f(self, t, y):
        return self.A @ y + self.g[0] + self.g[1] * t

    def prepare(self, te):
        self.lam, self.V = np.linalg.eig(self.big)
        # amplification over the interval
        n = len(self.y0)
        s = np.linspace(0, te, 9)
        E = [expm(self.A * x) for x in s]
        self.amp = max(np.linalg.norm(e, np.inf) for e in E)
        self.size = max(np.max(np.abs(self.exact(x))) for x in s)

    def exact(self, t):
        return (expm(self.big * t) @ self.z0)[:len(self.y0)]


class Closed:
    def __init__(self, f, exact, amp=4.0):
        self.f, self.exact, self.amp = f, exact, amp
        self.y0 = np.array(exact(0.0))

    def prepare(self, te):
        self.size = max(np.max(np.abs(self.exact(x)))
                        for x in np.linspace(0, te, 9))


def closed():
    return {
        "logistic": Closed(lambda t, y: y * (1 - y),
                           lambda t: np.array([1 / (1 + 3 * np.exp(-t))])),
        "riccati": Closed(lambda t, y: -2 * t * y * y,
                          lambda t: np.array([1 / (1 + t * t)])),
        "tan": Closed(lambda t, y: 0.25 * (1 + y * y),
                      lambda t: np.array([np.tan(t / 4)])),
        "sqrt": Closed(lambda t, y: 1 / (2 * y),
                       lambda t: np.array([np.sqrt(t + 3)])),
        "cos": Closed(lambda t, y: y * np.cos(t),
                      lambda t: np.array([np.exp(np.sin(t))]), 8.0),
        "euler": Closed(lambda t, y: np.array(
            [y[1] * y[2], -y[0] * y[2], -0.51 * y[0] * y[1]]), jacobi, 8.0),
        "late": Closed(lambda t, y: np.array(
            [-y[0] + y[1] ** 2, -0.5 * y[1]]),
            lambda t: np.array([(1 + t) * np.exp(-t), np.exp(-t / 2)])),
        "steep": Closed(lambda t, y: -(y - np.cos(t)) * 1.0 - np.sin(t),
                        lambda t: np.array([np.cos(t)])),
    }


def jacobi(t):
    from scipy.special import ellipj
    sn, cn, dn, _ = ellipj(t, 0.51)
    return np.array([sn, cn, dn])


def closed_n():
    """second order, closed form"""
    return {
        "kepler": Closed(lambda t, y: np.array(
            [y[2], y[3], -y[0] / np.hypot(y[0], y[1]) ** 3,
             -y[1] / np.hypot(y[0], y[1]) ** 3]),
            lambda t: np.array([np.cos(t), np.sin(t), -np.sin(t),
                                np.cos(t)]), 20.0),
        "soft": Closed(lambda t, y: np.array([y[1], -1 / (4 * y[0] ** 3)]),
                       lambda t: np.array([np.sqrt(t + 3),
                                           0.5 / np.sqrt(t + 3)]), 8.0),
        "exp": Closed(lambda t, y: np.array([y[1], y[0] * (
            np.cos(t) ** 2 - np.sin(t))]),
            lambda t: np.array([np.exp(np.sin(t)), np.cos(t)
                                * np.exp(np.sin(t))]), 12.0),
    }


def cases(tier):
    th = tier != "quick"
    ent = (-1, 0, 1) if not th else (-2, -1, 0, 1, 2)
    mats = list(itertools.product(ent, repeat=4))
    for name in mt.ALL:
        if name == "Fi5N1":
            continue             # documented: the interpolant changes y
        for it in range(len(tols(name))):
            for k in range(0, len(mats), 27 if not th else 25):
                for d in (1, -1) if th else ((1,) if (k // 27 + it) % 2
                                             else (-1,)):
                    yield dict(part="lin", m=name, it=it, lo=k, n=27 if not th
                               else 25, ent=list(ent), d=d)
            yield dict(part="closed", m=name, it=it)
            if mt.ALL[name].kind == "esdirk" or name == "SSV2stab":
                yield dict(part="stiff", m=name, it=it)
            yield dict(part="scale", m=name, it=it)


def run(case, res):
    m = mt.ALL[case["m"]]
    tol = TOLS[case["it"]]
    if case["part"] == "lin":
        mats = list(itertools.product(case["ent"], repeat=4))
        for k in range(case["lo"], min(case["lo"] + case["n"], len(mats))):
            a, b, c, e = mats[k]
            A = np.array([[a, b], [c, e]], float)
            cplx = m.cplx and k % 3 == 0
            g = np.array([[0.5, -0.25], [0.25, 0.5]]) * (k % 2)
            y0 = np.array([1.0, -0.5])
            if cplx:
                A = A * np.exp(0.25j)
                y0 = y0 * (1 + 0.5j)
            if m.kind == "rkn":
                # x'' = K x + D v with the row entries
                B = np.zeros((4, 4), A.dtype)
                B[:2, 2:] = np.eye(2)
                B[2:, :2] = A
                if m.base != "MR6NN":
                    B[2, 3] = -0.5
                    B[3, 3] = 0.25
                g = np.concatenate((0 * g, g), axis=1)
                pr = Linear(B, np.concatenate((y0, [0.25, 0.5])), g)
            else:
                pr = Linear(A, y0, g)
            if m.kind == "ssv":
                # for symmetric problems with one dominant eigenvalue (the
                # estimate of the spectral radius is a power iteration)
                ev = np.sort(np.abs(np.linalg.eigvals(A)))
                if b != c or ev[1] - ev[0] < 0.1 * ev[1] and a != e:
                    continue
            te = T * case["d"]
            pr.prepare(te)
            solve(m, pr, te, tol, 1.0, "lin %s" % (mats[k],), res)
    elif case["part"] == "closed":
        for pname, pr in (closed_n() if m.kind == "rkn"
                          else closed()).items():
            if m.kind == "ssv" and pname == "euler":
                continue
            for te in (T, -0.75):
                pr.prepare(te)
                for at in (1.0, 1e-6):
                    solve(m, pr, te, tol, at, pname, res)
    elif case["part"] == "stiff":
        for lam in (-1e2, -1e4):
            for kind in ("pr", "mix"):
                pr = stiff(lam, kind)
                solve(m, pr, T, tol, 1.0, "stiff %g %s" % (lam, kind), res)
    else:
        scale(m, tol, res)
        units(m, tol, res)


def units(m, tol, res):
    """solution and absolute tolerance in very small or very large units
    (with a given first step: its estimate depends on the units)"""
    for A in ([[0, 1], [-1, 0]], [[-1, 1], [1, -2]], [[-0.5, 0], [0, -1]]):
        if m.kind == "ssv" and A[1][0] < 0:
            continue
        for u in (2.0 ** -70, 2.0 ** -40, 2.0 ** 40, 2.0 ** 70):
            B = np.array(A, float)
            y0, g = np.array([1.0, -0.5]), np.array([[0.5, -0.25],
                                                     [0.25, 0.5]])
            if m.kind == "rkn":
                B = np.block([[np.zeros((2, 2)), np.eye(2)],
                              [B, np.zeros((2, 2))]])
                y0 = np.concatenate((y0, [0.25, 0.5]))
                g = np.concatenate((0 * g, g), axis=1)
            for rt in (tol, 1e-13):
                if rt < tol and tol < 1e-7:
                    continue
                pr = Linear(B, y0 * u, g * u)
                pr.prepare(T)
                solve(m, pr, T, rt, u * tol / rt, "units %g %s" % (u, A),
                      res, first_step=0.5 * rt ** 0.2)


def stiff(lam, kind):
    if kind == "pr":
        pr = Closed(lambda t, y: lam * (y - np.cos(t)) - np.sin(t),
                    lambda t: np.array([np.cos(t)]), 1.0)
    else:
        # slow and fast component, coupled
        pr = Closed(lambda t, y: np.array(
            [-y[0] + 0.5, lam * (y[1] - y[0] ** 2) + 2 * y[0] * (
                0.5 - y[0])]),
            lambda t: np.array([0.5 + 0.5 * np.exp(-t),
                                (0.5 + 0.5 * np.exp(-t)) ** 2]), 1.0)
    pr.prepare(T)
    return pr


def scale(m, tol, res):
    """relative and absolute tolerances per component: a solution with
    components of very different size, each controlled by its own"""
    s = np.array([1.0, 1e6, 1e-6, 1e-3])
    for at, rt in ((tol * s, tol), (tol * s, 1e-13), (1e-30, tol),
                   (tol * s * np.array([1, 1e3, 1, 1e3]), 1e-13)):
        A = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0],
                      [0, -1, 0, 0.0]])
        if m.kind == "ssv":
            A = -np.diag([1.0, 0.5, 2.0, 0.25])
        A = A * s[:, None] / s[None, :]
        if m.kind == "rkn":
            # positions and velocities scaled alike
            s2 = np.array([1.0, 1e6, 1.0, 1e6])
            A = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0],
                          [0, -1, 0, 0.0]])
            s = s2
            at = at if np.ndim(at) == 0 else tol * s * (
                np.array([1, 1e3, 1, 1e3]) if at[1] > tol * 1e7 else 1.0)
        if np.ndim(at) == 0 and m.kind == "ssv":
            at = 1e-30
        pr = Linear(A, s * np.array([1.0, 0.5, 0.75, 1.0]))
        pr.prepare(T)
        # decoupled in pairs: amplification one in scaled components
        pr.amp, pr.size = 1.0, None
        if rt < 1e-12 and tol < 1e-7:
            continue
        solve(m, pr, T, rt, at, "scale at=%s" % (at,), res, each=s)


def solve(m, pr, te, rtol, at, tag, res, each=None, **kw):
    tol = rtol
    if each is None:
        atol = at * tol
    else:
        atol = at
    tag = "%s %s rtol=%g atol=%s te=%g" % (m.name, tag, tol, atol, te)
    y0 = pr.y0.copy()
    sol = m.make(pr.f, 0.0, y0, te, rtol=rtol, atol=atol, **kw)
    n = 0
    worst = [0.0, 0.0]
    if each is None:
        unit = pr.amp * (tol * pr.size + atol)
    elif np.ndim(atol) == 0:
        unit = rtol * each
    else:
        unit = np.maximum(atol, rtol * each)
        if np.max(atol / each) > 10 * np.min(atol / each):
            unit = atol * 1.0
            unit = np.where(atol / each > 10 * np.min(atol / each), np.inf,
                            unit)
    limit = 6000
    while sol.status == "running" and n < limit:
        msg = sol.step()
        n += 1
        if sol.status == "failed":
            res.bad("failed:" + m.name, "%s: %s" % (tag, msg))
            return
        e = np.max(np.abs(sol.y - pr.exact(sol.t)) / unit)
        worst[0] = max(worst[0], e)
        if n < 40 or n % 8 == 0:
            do = sol.dense_output()
            for th in (0.25, 0.625):
                t = sol.t_old + th * (sol.t - sol.t_old)
                e = np.max(np.abs(do(t) - pr.exact(t)) / unit)
                worst[1] = max(worst[1], e)
    if sol.status != "finished":
        if n >= limit and tol < 1e-6:
            return
        res.bad("steps:" + m.name, "%s: %d steps to t=%r" % (tag, n, sol.t))
        return
    for k, what in enumerate(("points", "continuous")):
        note(m, what, worst[k], tag)
        if not worst[k] <= bound(m, k, tol):
            res.bad("%s:%s" % (what, m.name), "%s: error is %.3g times the "
                    "tolerance" % (tag, worst[k]))
            return
    res.traces += 1
    res.states += n
    res.transitions += n
    res.sig(m.name, rtol, int(np.floor(np.log10(worst[0] + 1e-6))))
    if res.sample is None:
        res.sample = {"run": tag, "steps": n, "ratio": worst}


def note(m, what, ratio, tag):
    pass


def bound(m, k, tol):
    return BOUND[m.name if m.name in BOUND else m.base][k]
