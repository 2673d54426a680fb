"""Q01 equivariance under exact transformations."""
import numpy as np
import core
import methods as mt

ID = "Q01"
TECHNIQUE = ("exhaustive exploration of a family of problems x all "
             "transformations; the transformed execution of the real solver "
             "is compared state by state with the original one (simulation "
             "relation)")
NOTE = ("Every accepted point and continuous solution of both executions is "
        "compared; the explorer enumerates problems, options and "
        "transformations completely.")
RULE = ("Every method and option x problem (linear, nonlinear, with a pulse at "
        "every position of a grid) x given / computed first step x "
        "transformation {mirrored time, permuted components, duplicated "
        "components, scaled solution (also by 2^-80 and 2^100), scaled time (also by 2^-60 and 2^50), complex form, rotation in "
        "the complex plane, vectorized right-hand side}. Outcome class = "
        "(method, transformation, steps).")
ASSUMPTIONS = ["comparison to 1e-5 relative to the size of the solution",
               "mirrored or scaled time, scaled and complex solutions: with a "
               "given first step (its estimate is not equivariant)"]

# controllers, also with a term of the previous step size
SC = ["G", "S", (0.6, -0.2, 0.25, 0.9), (1.0, -0.5, -0.6, 0.8)]
TR = ["mirror", "perm", "dup", "scale", "tiny", "huge", "tscale", "brief",
      "eons", "complex", "rotate", "vec"]
UNIT = {"scale": 2.0 ** 20, "tiny": 2.0 ** -80, "huge": 2.0 ** 100}
TUNIT = {"tscale": 2.0 ** 5, "brief": 2.0 ** -60, "eons": 2.0 ** 50}


def cases(tier):
    tj = [None, 0.35, 1.3] if tier == "quick" else \
        [None] + list(np.linspace(0.05, 3, 12))
    for name in mt.ALL:
        for tr in TR:
            if tr in ("complex", "rotate") and not mt.ALL[name].cplx:
                continue
            yield dict(m=name, tr=tr, tj=tj)


A3 = np.array([[-1.0, 0.5, 0.0], [-0.4, -0.8, 0.3], [0.2, 0.0, -0.5]])
G3 = np.array([0.3, 0.0, -0.2])


def field(nonlin, tj):
    def f(t, x):                       # x: (3,) or (3, k)
        x = np.asarray(x)
        g = A3 @ x
        if nonlin:
            g = g.copy()
            g[0] = g[0] - 0.2 * x[0] * x[1]
            w = G3 * np.cos(t)
            if tj is not None:
                # a pulse: causes rejected attempts
                w = w + 8 * np.exp(-((abs(t) - tj) / 0.08) ** 2) * \
                    np.array([3.0, -2.0, 5.0])
            g = (g.T + w).T
        return g

    def jac(t, x):
        J = A3.astype(x.dtype)
        if nonlin:
            J[0, 0] -= 0.2 * x[1]
            J[0, 1] -= 0.2 * x[0]
        return J
    return f, jac


class P:
    """a problem: functions of (t, y) with y = x or (x, v)"""

    def __init__(self, second, nonlin, tj, d):
        self.second = second
        self.f, self.jac = field(nonlin, tj)
        self.n = 3
        self.y0 = np.array([1.0, -0.5, 0.25])
        self.atol = np.array([1e-4, 2e-4, 1e-5])
        if second:
            self.y0 = np.concatenate((self.y0, [0.1, 0.3, -0.2]))
            self.atol = np.concatenate((self.atol, [1e-4, 1e-4, 3e-4]))

    def __call__(self, t, y):
        if self.second:
            n = self.n
            return np.concatenate((y[n:], self.f(t, y[:n])))
        return self.f(t, y)


def drive(m, fun, t0, y0, tb, atol, n, kw):
    s = m.make(fun, t0, y0, tb, rtol=1e-3, atol=atol, **kw)
    T, Y, Dn = [s.t], [s.y.copy()], []
    for _ in range(n):
        if s.status != "running":
            break
        s.step()
        if s.status == "failed":
            break
        T.append(s.t)
        Y.append(s.y.copy())
        o = s.dense_output()
        Dn.append(o(s.t_old + (s.t - s.t_old) * np.array([0.3, 0.8])))
    return np.array(T), np.array(Y), np.array(Dn), s.status, s.nfev


def run(case, res):
    m = mt.ALL[case["m"]]
    second = m.kind == "rkn"
    tr = case["tr"]
    for d in (1, -1):
        for tj in case["tj"]:
            for nonlin in (0, 1):
                if tr == "rotate" and nonlin or not nonlin and tj is not None:
                    continue
                for first in (0.2, None):
                    if first is None and tr not in ("perm", "dup", "vec"):
                        continue
                    for ms in (None, 0.45):
                        one(m, second, tr, d, tj, nonlin, first, ms, None,
                            res)
                    if m.kind in ("rk", "rkn", "esdirk") and tr in (
                            "mirror", "tscale", "dup"):
                        for sc in SC:
                            one(m, second, tr, d, tj, nonlin, first, None,
                                sc, res)


def one(m, second, tr, d, tj, nonlin, first, ms, sc, res):
    p = P(second, nonlin, tj, d)
    n = p.n
    kw = {}
    if first:
        kw["first_step"] = first
    if ms:
        kw["max_step"] = ms
    if sc:
        kw["sc_params"] = sc
    if m.kind == "ssv":
        kw["rho_jac"] = lambda t, y: 3.0
    if m.kind == "esdirk" and tr != "vec":
        kw["jac"] = p.jac if nonlin else A3
    tag = "%s %s d=%d tj=%s nonlin=%d first=%s max=%s sc=%s" \
        % (m.name, tr, d, tj, nonlin, first, ms, sc)
    tb = d * 3.0
    N = 40
    T, Y, Dn, st, nfev = drive(m, p, 0.0, p.y0, tb, p.atol, N, kw)

    # transformed problem: z = L y, s = ct t
    k2 = dict(kw)
    N2 = p.y0.size
    L = np.eye(N2)
    ct = 1.0
    if tr == "mirror":
        ct = -1.0
        if second:
            L[n:] *= -1
    elif tr == "perm":
        q = np.array([2, 0, 1])
        L = L[np.r_[q, q + n] if second else q]
    elif tr == "dup":
        q = np.r_[0:n, 0:n]
        L = L[np.r_[q, q + n] if second else q]
    elif tr in UNIT:
        L *= UNIT[tr]
    elif tr in TUNIT:
        ct = TUNIT[tr]
        if second:
            L[n:] /= ct
        for k in ("first_step", "max_step"):
            if k in k2:
                k2[k] = ct * k2[k]
    elif tr == "complex":
        L = L.astype(complex)
    elif tr == "rotate":
        L = L * 1j
    Li = np.linalg.inv(L) if tr != "dup" else np.array(
        [np.eye(len(L))[np.flatnonzero(L[:, i])[0]] for i in range(N2)])

    def g(t, y):
        if y.ndim == 2:
            return np.stack([g(t, y[:, i]) for i in range(y.shape[1])],
                            axis=1)
        return L @ p(t / ct, Li @ y) / ct
    if tr == "vec":
        k2["vectorized"] = True
    if m.kind == "ssv":
        k2["rho_jac"] = lambda t, y: 3.0 / abs(ct)
    if m.kind == "esdirk" and tr != "vec":
        k2["jac"] = (lambda t, y: L @ p.jac(t / ct, Li @ y) @ Li / ct) \
            if nonlin else L @ A3 @ Li / ct
    y0, tb2 = L @ p.y0, ct * tb
    atol = np.abs(L) @ p.atol

    def back(T, Y, Dn):
        return T / ct, Y @ Li.T, Li @ Dn
    T2, Y2, D2, st2, nf2 = drive(m, g, 0.0, y0, tb2, atol, N, k2)
    res.traces += 2
    res.states += len(T)
    res.transitions += len(T) + len(T2)
    T2, Y2, D2 = back(T2, Y2, D2)
    size = 1 + np.max(np.abs(Y))
    key = "%s:%s" % (tr, m.name)
    if st != st2 or len(T) != len(T2):
        res.bad(key, "%s: %d steps, status %s; transformed: %d steps, status "
                "%s" % (tag, len(T) - 1, st, len(T2) - 1, st2))
        return
    tol = 1e-5
    if m.kind == "esdirk" and nonlin and tr in ("perm", "dup", "vec"):
        # rounding may decide about one iteration more or less
        tol = 3e-3
    for i in range(len(T)):
        if not abs(T[i] - T2[i]) <= tol * 3 or \
                not np.max(np.abs(Y[i] - Y2[i])) <= tol * size:
            res.bad(key, "%s: point %d: t=%r y=%s, transformed t=%r y=%s" % (
                tag, i, T[i], Y[i], T2[i], Y2[i]))
            return
        if i and not np.max(np.abs(Dn[i - 1] - D2[i - 1])) <= tol * size:
            res.bad(key, "%s: continuous solution of step %d differs" % (tag,
                                                                         i))
            return
    if nfev != nf2 and m.kind != "esdirk":
        res.bad(key, "%s: nfev %d, transformed %d" % (tag, nfev, nf2))
    res.sig(m.name, tr, min(len(T), 30))
    if res.sample is None:
        res.sample = {"run": tag, "steps": len(T) - 1}
