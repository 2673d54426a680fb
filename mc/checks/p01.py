"""P01 sensitivities agree with the exact derivatives."""
import itertools
import numpy as np
from scipy.integrate import solve_ivp
import extensisq as X
import core
import methods as mt

ID = "P01"
TECHNIQUE = ("exhaustive enumeration of a bounded family of parametrised "
             "systems, goal functions and options on the real code; complex "
             "step derivatives of the exact flow as oracle at every accepted "
             "point")
NOTE = ("The oracle uses the right-hand side, initial state and goal only "
        "(complex step through an independent integrator at 1e-11), not the "
        "variational or adjoint equations.")
RULE = ("system size 1..3 x number of parameters 1..3 x how each parameter "
        "enters (row, term, initial state) x goal function x parameter values "
        "(incl. zero and negative) x direction x function (forward, adjoint "
        "end, adjoint integral) x method x form of tolerances and options. "
        "Outcome class = (function, method, size, parameters, term, goal, "
        "direction).")
ASSUMPTIONS = ["errors at most 40 (100 for SSV2stab, BDF and LSODA) tolerance units for well conditioned "
               "problems on short intervals",
               "Nystroem methods are not supported by these functions"]
RTOL, ATOL = 1e-6, 1e-8
CS = 1e-40
TERMS = ["lin", "one", "time", "square", "cross", "sin"]
GOALS = ["y0", "lastsq", "p_y", "t_y", "cross"]
METH = ["BS5", "CK5", "CKdisc", "Ts5", "Me4", "CFMR7osc", "Pr7", "Pr8", "Pr9",
        "SWAG", "SSV2stab", "HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I",
        "RK45", "BDF", "Radau", "LSODA"]


class Problem:
    """f, initial state and goal; all derivatives by the complex step"""

    def __init__(self, ny, spec, goal):
        # spec: per parameter (row, term, index of y0 or -1)
        self.ny, self.spec, self.goal = ny, spec, goal

    def f(self, t, y, *p):
        ny = self.ny
        y = np.asarray(y)
        out = [-(0.5 + 0.25 * i) * y[i] + 0.3 * y[(i + 1) % ny] * (i + 1)
               * (ny > 1) + 0.1 * (i + 1) for i in range(ny)]
        for k, (row, term, _) in enumerate(self.spec):
            j = (row + k) % ny
            v = {"lin": y[j], "one": 1.0, "time": t, "square": y[j] ** 2 / (1 + y[j] ** 2),
                 "cross": y[row] * y[j] / (1 + y[j] ** 2), "sin": np.sin(2 * t)}[term]
            out[row] = out[row] + 0.5 * p[k] * v
        return np.array(out)

    def y0(self, *p):
        y = [0.8 - 0.3 * i for i in range(self.ny)]
        for k, (_, _, i0) in enumerate(self.spec):
            if i0 >= 0:
                y[i0] = y[i0] + 0.4 * p[k] * (1 + 0.2 * p[k])
        return np.array(y)

    def g(self, t, y, *p):
        y = np.asarray(y)
        v = {"y0": y[0], "lastsq": y[-1] ** 2, "p_y": p[-1] * y[0],
             "t_y": t * y[0] + p[0] ** 2, "cross": y[0] * y[-1] * (1 + p[0])
             }[self.goal]
        return np.array([v])

    # derivatives
    def jac(self, t, y, *p):
        return np.array([self.f(t, y + 1j * CS * e, *p).imag / CS
                         for e in np.eye(self.ny)]).T

    def dfdp(self, t, y, *p):
        p = np.asarray(p)
        return np.array([(self.f(t, y, *(p + 1j * CS * e)) + 0j).imag / CS
                         for e in np.eye(p.size)]).T

    def dgdy(self, t, y, *p):
        return np.array([(self.g(t, y + 1j * CS * e, *p)[0] + 0j).imag / CS
                         for e in np.eye(self.ny)])

    def dgdp(self, t, y, *p):
        p = np.asarray(p)
        return np.array([(self.g(t, y, *(p + 1j * CS * e))[0] + 0j).imag / CS
                         for e in np.eye(p.size)])

    def dy0dp(self, *p):
        p = np.asarray(p)
        return np.array([(self.y0(*(p + 1j * CS * e)) + 0j).imag / CS
                         for e in np.eye(p.size)]).T


class Exact:
    """y(t), dy/dp(t), int_t0^t g and its derivative on a dense solution"""

    def __init__(self, pr, p, t0, te):
        self.pr, self.p = pr, np.asarray(p, float)
        self.sols = []
        for e in np.eye(self.p.size):
            q = self.p + 1j * CS * e

            def rhs(t, z):
                # real and imaginary parts apart, so that both are controlled
                y = z[:pr.ny + 1] + 1j * CS * z[pr.ny + 1:]
                d = np.concatenate((pr.f(t, y[:-1], *q), pr.g(t, y[:-1], *q)))
                d = d + 0j
                return np.concatenate((d.real, d.imag / CS))
            y0 = pr.y0(*q) + 0j
            z0 = np.concatenate((y0.real, [0.0], y0.imag / CS, [0.0]))
            s = solve_ivp(rhs, (t0, te), z0, method="DOP853", rtol=1e-10,
                          atol=1e-12, dense_output=True)
            self.sols.append(s.sol)

    def at(self, t):
        """y, s (ny, np), G, dG"""
        n = self.pr.ny
        zs = [s(t) for s in self.sols]
        return (zs[0][:n], np.array([z[n + 1:-1] for z in zs]).T, zs[0][n],
                np.array([z[-1] for z in zs]))

    def end(self, t):
        """g and dg/dp as a function of the end time t"""
        y, s, _, _ = self.at(t)
        pr = self.pr
        return (pr.g(t, y, *self.p)[0], pr.dgdp(t, y, *self.p)
                + pr.dgdy(t, y, *self.p) @ s)


PVALS = {1: [[0.7], [0.0], [-1.2]],
         2: [[0.7, -0.4], [0.0, 1.1], [-100.0 * 0.01, 0.05]],
         3: [[0.6, -0.3, 0.9], [0.0, 0.5, 0.0]]}
# scalar or vector tolerances and every documented option, one class of runs
OPTIONS = ["plain", "list", "tuple", "array", "dense", "teval", "approx",
           "reuse", "reuselong"]


def specs(tier):
    th = tier != "quick"
    # one parameter: complete
    for ny in (1, 2, 3):
        for row in range(ny):
            for term in TERMS:
                for i0 in range(-1, ny):
                    for goal in GOALS:
                        yield ny, [(row, term, i0)], goal
    # two and three parameters: all pairs of terms on all pairs of rows
    for ny in (1, 2, 3):
        for (r1, t1), (r2, t2) in itertools.product(
                itertools.product(range(ny), TERMS), repeat=2):
            k = r1 + 2 * r2 + TERMS.index(t1) + 3 * TERMS.index(t2)
            goals = GOALS if th else [GOALS[k % 5]]
            for goal in goals:
                yield ny, [(r1, t1, k % (ny + 1) - 1),
                           (r2, t2, (k // 2) % (ny + 1) - 1)], goal
    for ny in (1, 2, 3):
        for k, ts in enumerate(itertools.product(TERMS, repeat=3)):
            if not th and k % 6 != 0:
                continue
            yield ny, [(k % ny, ts[0], k % (ny + 1) - 1),
                       ((k + 1) % ny, ts[1], -1),
                       ((k // 3) % ny, ts[2], (k + 1) % (ny + 1) - 1)], \
                GOALS[k % 5]


def cases(tier):
    th = tier != "quick"
    for i, (ny, spec, goal) in enumerate(specs(tier)):
        pv = PVALS[len(spec)]
        for ip in range(len(pv)) if th else [i % len(pv)]:
            d = 1 - 2 * ((i + ip) % 2)
            # the problems go round the methods: the product of methods and
            # options is complete on its own in part "opt"
            meth = ["BS5", METH[(i // 2) % len(METH)]] if th else \
                [METH[(i // 2) % len(METH)] if i % 3 == 0 else "BS5"]
            # (the stabilised method is for real eigenvalues)
            meth = ["Ts5" if m == "SSV2stab" and ny == 3 else m for m in meth]
            yield dict(part="sys", ny=ny, spec=spec, goal=goal, p=pv[ip],
                       d=d, meth=meth)
    for name in METH:
        for opt in OPTIONS:
            for d in (1, -1):
                yield dict(part="opt", m=name, opt=opt, d=d)
    for fn in ("forward", "end", "int"):
        for npar in (1, 2, 3):
            for d in (1, -1):
                yield dict(part="tol", fn=fn, np=npar, d=d)
    yield dict(part="refuse")


def method(name):
    return mt.ALL[name].cls if name in mt.ALL else name


def kfac(name):
    # (observed at most 15 for SSV2stab, 11 for BDF and 4 for the others)
    return 100.0 if name in ("SSV2stab", "BDF", "LSODA") else 40.0


def tols(name):
    if name in ("SSV2stab", "HS2I", "HS2Ia"):
        return 1e-4, 1e-6
    return RTOL, ATOL


def near(a, b, name, amp):
    rt, at = tols(name)
    return np.max(np.abs(np.asarray(a) - b)) <= kfac(name) * (rt * amp + at)


RAT = {}


def run(case, res):
    if case["part"] == "sys":
        pr = Problem(case["ny"], [tuple(s) for s in case["spec"]],
                     case["goal"])
        t0 = 0.25
        te = t0 + 1.5 * case["d"]
        ex = Exact(pr, case["p"], t0, te)
        for name in case["meth"]:
            for fn in ("forward", "end", "int"):
                check(pr, ex, case["p"], t0, te, name, fn, "plain", res)
        return
    if case["part"] == "opt":
        pr = Problem(2, [(0, "cross", 1), (1, "square", 0), (0, "time", -1)],
                     "cross")
        p = [0.6, -0.3, 0.0]
        t0 = -0.5
        te = t0 + 1.25 * case["d"]
        ex = Exact(pr, p, t0, te)
        for fn in ("forward", "end", "int"):
            check(pr, ex, p, t0, te, case["m"], fn, case["opt"], res)
        return
    if case["part"] == "tol":
        return tolerances(case, res)
    refuse(res)


def common(pr, p, t0, te):
    return (pr.f, (t0, te), pr.y0(*p), pr.jac, pr.dfdp, pr.dy0dp(*p), p)


def check(pr, ex, p, t0, te, name, fn, opt, res):
    tag = "%s %s %s ny=%d spec=%s goal=%s p=%s (%r, %r)" % (
        fn, name, opt, pr.ny, pr.spec, pr.goal, p, t0, te)
    p = np.array(p, float)
    rt, at = tols(name)
    forms = {"list": list, "tuple": tuple, "array": np.array}
    vec = forms.get(opt)
    kw = dict(rtol=rt, method=method(name))
    kw["atol"] = vec([at] * pr.ny) if vec else at
    y, s, G, dG = ex.at(te)
    amp = 1.0 + max(np.max(np.abs(x)) for x in (y, s))
    args = common(pr, p, t0, te)
    if fn == "forward":
        if opt == "dense":
            kw["dense_output"] = True
        if opt == "teval":
            kw["t_eval"] = np.linspace(t0, te, 7)
        if opt == "approx":
            kw["use_approx_jac"] = True
        if opt.startswith("reuse"):
            return
        out = X.sens_forward(*args, **kw)
        if out.sensf.shape != s.shape or out.yf.shape != y.shape:
            res.bad("shape:forward", "%s: shapes %s %s" % (
                tag, out.sensf.shape, out.yf.shape))
            return
        if not near(out.sensf, s, name, amp):
            res.bad("sens:forward", "%s: dy/dp %s instead of %s" % (
                tag, out.sensf.tolist(), s.tolist()))
            return
        if not near(out.yf, y, name, amp):
            res.bad("yf:forward", "%s: y %s instead of %s" % (tag, out.yf, y))
            return
        ts, ys = out.sol.t, out.sol.y.T
        if opt == "dense":
            tt = np.linspace(t0, te, 23)
            ts = np.concatenate((ts, tt))
            ys = np.concatenate((ys, out.sol.sol(tt).T))
        for t, z in zip(ts, ys):
            ye, se, _, _ = ex.at(t)
            if not (near(z[:pr.ny], ye, name, amp) and near(
                    z[pr.ny:], se.T.ravel(), name, amp)):
                res.bad("track:forward", "%s t=%r: %s instead of %s %s" % (
                    tag, t, z.tolist(), ye, se.T.ravel()))
                return
        n = len(out.sol.t)
    else:
        if opt in ("dense", "teval", "approx"):
            return
        if vec:
            kw["atol_adj"] = vec([at] * pr.ny)
            kw["atol_quad"] = vec([at] * p.size)
        else:
            kw["atol_adj"] = kw["atol_quad"] = at
        if opt.startswith("reuse"):
            far = te + (te - t0) * (0.5 if opt == "reuselong" else 0.0)
            skw = dict(jac=pr.jac) if name in ("BDF", "Radau", "LSODA") \
                else {}
            kw["sol_y"] = solve_ivp(pr.f, (t0, far), pr.y0(*p), args=tuple(p),
                                    method=method(name), rtol=rt, atol=at,
                                    dense_output=True, **skw)
        call = X.sens_adjoint_end if fn == "end" else X.sens_adjoint_int
        out = call(*args, pr.g, pr.dgdp, pr.dgdy, **kw)
        if fn == "end":
            g, dg = ex.end(te)
            val = out.gf
        else:
            g, dg = G, dG
            val = out.G
        amp = max(amp, 1.0 + abs(g) + np.max(np.abs(dg)))
        if np.shape(out.sens) != dg.shape:
            res.bad("shape:" + fn, "%s: shape %s" % (tag,
                                                     np.shape(out.sens)))
            return
        if not near(out.sens, dg, name, amp):
            res.bad("sens:" + fn, "%s: dg/dp %s instead of %s" % (
                tag, out.sens.tolist(), dg.tolist()))
            return
        if not near(val, g, name, amp):
            res.bad("value:" + fn, "%s: value %s instead of %s" % (tag, val,
                                                                   g))
            return
        # every accepted point of the backward integration: the products of
        # adjoint and forward sensitivities plus the rest of the integral
        # give the same total
        bw = out.sol_bw
        if bw.t[0] != te or bw.t[-1] != t0:
            res.bad("interval:" + fn, "%s: backward from %r to %r" % (
                tag, bw.t[0], bw.t[-1]))
            return
        for t, z in zip(bw.t, bw.y.T):
            mu, xi = z[:pr.ny], z[pr.ny:pr.ny + p.size]
            _, st, Gt, dGt = ex.at(t)
            if fn == "end":
                part = mu @ st - xi + pr.dgdp(te, y, *p)
                ref = dg
            else:
                part = mu @ st - xi + dGt
                ref = dg
                if not near(Gt - z[-1], G, name, amp):
                    res.bad("track:G", "%s t=%r: %r instead of %r" % (
                        tag, t, Gt - z[-1], G))
                    return
            if not near(part, ref, name, 2 * amp):
                res.bad("track:" + fn, "%s t=%r: %s instead of %s" % (
                    tag, t, part, ref))
                return
        if opt.startswith("reuse") and out.sol_y is not kw["sol_y"]:
            res.bad("reuse:" + fn, "%s: solution not reused" % tag)
        n = len(bw.t)
    res.traces += 1
    res.states += n
    res.transitions += n
    res.sig(fn, name, opt, pr.ny, p.size, pr.goal, te > t0)
    if res.sample is None:
        res.sample = {"run": tag, "points": n}


def tolerances(case, res):
    """the tolerances the solvers get are the documented ones"""
    fn, npar, d = case["fn"], case["np"], case["d"]
    got = []

    class Spy(X.BS5):
        def __init__(self, fun, t0, y0, tb, rtol=None, atol=None, **kw):
            got.append((t0, tb, np.array(y0), rtol, np.array(atol)))
            super().__init__(fun, t0, y0, tb, rtol=rtol, atol=atol, **kw)
    for ny in (1, 2, 3):
        pr = Problem(ny, [(k % ny, TERMS[k], k % ny) for k in range(npar)],
                     "cross")
        for p, form in itertools.product(
                PVALS[npar] + [[-25.0 / 64] * npar], ("s", "v")):
            p = np.array(p)
            at = 1e-5 if form == "s" else np.array([1e-5, 4e-6, 2e-7][:ny])
            av = np.broadcast_to(at, (ny,))
            te = d * 0.25
            args = common(pr, p, 0.0, te)
            got.clear()
            tag = "%s ny=%d p=%s atol=%s" % (fn, ny, p, at)
            if fn == "forward":
                X.sens_forward(*args, rtol=1e-4, atol=at, method=Spy)
                want = [(0.0, te, np.concatenate([av] + [
                    av / (abs(q) or 1.0) for q in p]))]
            else:
                aq = 3e-5 if form == "s" else np.array([3e-5, 5e-6,
                                                        6e-7][:npar])
                aa = 7e-6 if form == "s" else av * 3
                call = (X.sens_adjoint_end if fn == "end"
                        else X.sens_adjoint_int)
                call(*args, pr.g, pr.dgdp, pr.dgdy, method=Spy, rtol=1e-4,
                     atol=at, atol_adj=aa, atol_quad=aq)
                bw = np.concatenate((np.broadcast_to(aa, (ny,)),
                                     np.broadcast_to(aq, (npar,))))
                if fn == "int":
                    bw = np.append(bw, np.min(aq))
                want = [(0.0, te, av), (te, 0.0, bw)]
            res.traces += 1
            res.states += 1
            res.transitions += len(got)
            if len(got) != len(want):
                res.bad("solves:" + fn, "%s: %d integrations" % (tag,
                                                                 len(got)))
                return
            for (t0, tb, y0, rtol, atol), (w0, w1, wa) in zip(got, want):
                if (t0, tb) != (w0, w1) or rtol != 1e-4 or not np.allclose(
                        np.broadcast_to(atol, wa.shape), wa, rtol=1e-12,
                        atol=0):
                    res.bad("tol:" + fn, "%s: solver got t=%r..%r rtol=%r "
                            "atol=%s, documented %s" % (tag, t0, tb, rtol,
                                                        atol, wa))
                    return
            res.sig("tol", fn, ny, npar, form)


def refuse(res):
    """inconsistent input is refused, with all three functions"""
    pr = Problem(2, [(0, "lin", 0), (1, "one", -1), (1, "sin", 1)], "cross")
    p = np.array([0.5, -0.25, 0.3])
    good = dict(fun=pr.f, t_span=(0.0, 0.5), y0=pr.y0(*p), jac=pr.jac,
                dfdp=pr.dfdp, dy0dp=pr.dy0dp(*p), p=p)
    adj = dict(g=pr.g, dgdp=pr.dgdp, dgdy=pr.dgdy)
    nod = solve_ivp(pr.f, (0, 0.5), pr.y0(*p), args=tuple(p))
    bad = [
        ("y0 2d", dict(y0=np.ones((2, 1)))),
        ("y0 int", dict(y0=np.array([1, 2]))),
        ("y0 complex", dict(y0=pr.y0(*p) + 0j)),
        ("dy0dp 1d", dict(dy0dp=np.ones(6))),
        ("dy0dp transposed", dict(dy0dp=np.ones((3, 2)))),
        ("dy0dp few", dict(dy0dp=np.ones((2, 2)))),
        ("fun shape", dict(fun=lambda t, y, *q: np.ones(3))),
        ("fun 2d", dict(fun=lambda t, y, *q: np.ones((2, 1)))),
        ("fun signature", dict(fun=lambda t: np.ones(2))),
        ("jac shape", dict(jac=lambda t, y, *q: np.ones((2, 3)))),
        ("jac rows", dict(jac=lambda t, y, *q: np.ones((3, 2)))),
        ("jac 1d", dict(jac=lambda t, y, *q: np.ones(2))),
        ("dfdp shape", dict(dfdp=lambda t, y, *q: np.ones((2, 2)))),
        ("dfdp transposed", dict(dfdp=lambda t, y, *q: np.ones((3, 2)))),
    ]
    badf = [("atol length", dict(atol=[1e-6] * 3)),
            ("t_eval end", dict(t_eval=[0.0, 0.4]))]
    bada = [
        ("dgdy shape", dict(dgdy=lambda t, y, *q: np.ones(3))),
        ("dgdp shape", dict(dgdp=lambda t, y, *q: np.ones(2))),
        ("g shape", dict(g=lambda t, y, *q: np.ones(2))),
        ("g 0d", dict(g=lambda t, y, *q: np.float64(1.0))),
        ("sol_y without dense output", dict(sol_y=nod)),
        ("p int", dict(p=np.array([1, 2, 3]))),
    ]
    for fname, fn, extra, more in (
            ("forward", X.sens_forward, {}, badf),
            ("end", X.sens_adjoint_end, adj, bada),
            ("int", X.sens_adjoint_int, adj, bada)):
        for label, ch in bad + more:
            try:
                fn(**dict(good, **extra, **{}) | ch)
            except (ValueError, AssertionError, TypeError):
                pass
            else:
                res.bad("refuse:" + fname, "%s: %s is not refused" % (
                    fname, label))
            res.traces += 1
            res.states += 1
            res.transitions += 1
            res.sig("refuse", fname, label)
        # and the good input is accepted, also as lists
        alt = dict(good, y0=list(good["y0"]), p=list(good["p"]),
                   dy0dp=good["dy0dp"].tolist(), **extra)
        a = fn(**good, **extra)
        b = fn(**alt)
        if not np.array_equal(a[0], b[0]):
            res.bad("forms:" + fname, "%s: lists give %s instead of %s" % (
                fname, b[0], a[0]))
