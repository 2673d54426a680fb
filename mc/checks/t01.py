"""T01 the step size follows the documented controller."""
import numpy as np
import core
import methods as mt
from checks import e01

ID = "T01"
TECHNIQUE = ("exhaustive enumeration of controllers, problems, tolerances and "
             "directions with scripted perturbations; each trace of the "
             "implementation is replayed in a reference model that computes "
             "error norms from the recorded evaluations and from them the "
             "next step size (conformance check)")
NOTE = ("Error norms are recomputed from arguments and answers of the "
        "right-hand side and the committed tables, step sizes are the "
        "distances of the accepted points; no attribute of the solver that "
        "takes part in the control is read.")
RULE = ("every method with a selectable controller x {default, predefined, "
        "custom parameters with and without each term} x problem x tolerance "
        "x direction x real/complex x a perturbation (none, or at every "
        "fourth call index of a window, thorough: second) that moves the error "
        "of a step by orders of magnitude. Every step size that no limit "
        "takes part in is compared. Outcome class = (method, controller, "
        "rejections, largest change).")
ASSUMPTIONS = ["the formula is demanded where documented limits do not act: "
               "factors between 0.21 and 3.9, error not at rounding level, "
               "away from the end; within three steps after a rejection the "
               "standard controller is accepted as well",
               "implicit methods: constant Jacobian given as array"]

# as documented
EXPL = {"G": (0.7, -0.4, 0, 0.9), "S": (0.6, -0.2, 0, 0.9),
        "standard": (1, 0, 0, 0.9)}
IMPL = {"G": (2, -1, -1, 0.8), "S": (1.1, -0.7, -1, 0.8),
        "standard": (1, 0, 0, 0.8)}
DEFAULT = {"Me4": "G", "CK5": "G", "Ts5": "G", "BS5": "standard",
           "BS5best": "standard", "CFMR7osc": "G", "Pr7": "S", "Pr8": "G",
           "Pr9": "standard", "Fi4N": "G", "Fi5N": "G", "Fi5N3": "G",
           "Mu5Nmb": "G", "Mu5Nmbunsc": "G", "MR6NN": "G", "HS2I": "G",
           "HS2Ia": "G", "KC3I": "G", "KC4I": "G", "KC4Ia": "G", "Kv3I": "G"}
SETS = [None, "G", "S", "standard", (0.5, 0.0, 0.0, 0.7),
        (0.8, -0.3, 0.25, 0.85), (0.4, 0.3, -0.5, 0.95), (1, -0.2, 0, 0.6)]


def cases(tier):
    th = tier != "quick"
    for name in DEFAULT:
        for k in range(len(SETS)):
            for d in (1, -1):
                for cplx in (0, 1):
                    for tol in ((0, 1) if not th else (0, 1, 2)):
                        if not th and cplx and (tol or d < 0):
                            continue
                        yield dict(m=name, sc=k, d=d, cplx=cplx, tol=tol,
                                   idx=list(range(0, 60, 4 if not th else 2)),
                                   mags=[0.01, 1.0] if not th else
                                   [0.01, 1.0, 30.0])


TOLS = [(1e-3, 1e-5), (1e-5, [1e-6, 1e-8, 1e-7]), (1e-2, 1e-3)]
JL = np.array([[-1.0, 0.6, 0.0], [-0.6, -0.5, 0.2], [0.3, 0.0, -1.5]])


def run(case, res):
    m = mt.ALL[case["m"]]
    plans = [{}] + [{i: a} for i in case["idx"] for a in case["mags"]]
    for plan in plans:
        one(m, case, plan, res)


class Fun:
    def __init__(self, d, cplx, second, plan):
        self.d, self.second, self.plan = d, second, plan
        self.i, self.on, self.log = 0, False, []
        self.u = 0.6 + 0.8j if cplx else 1.0

    def base(self, t, y):
        s = t * self.d
        g = np.array([0.3 * np.sin(2 * s), 0.4 * np.cos(3 * s) * (1 + s / 9),
                      0.2 * np.sin(s * s / 4)]) * self.u
        if self.second:
            return -2.0 * y[:3] - 0.1 * y[:3][::-1] + g
        return self.d * (JL @ y + g)

    def __call__(self, t, y):
        f = self.base(t, y)
        if self.on:
            a = self.plan.get(self.i)
            self.i += 1
            if self.i > 20000:
                raise core.Budget()
            if a is not None:
                f = f + a * self.u * np.array([1.0, 0.3, -0.5])
            self.log.append((float(t), np.array(y), np.array(f)))
        return np.concatenate((y[3:], f)) if self.second else f


def one(m, case, plan, res):
    d = case["d"]
    second = m.kind == "rkn"
    impl = m.kind == "esdirk"
    rtol, atol = TOLS[case["tol"]]
    sc = SETS[case["sc"]]
    fun = Fun(d, case["cplx"], second, plan)
    y0 = np.array([1.0, -0.5, 0.25]) * fun.u
    if second:
        y0 = np.concatenate((y0, y0[::-1] * 0.5))
        if not np.isscalar(atol):
            atol = atol + [1e-6, 1e-7, 1e-6]
    kw = {}
    if sc is not None:
        kw["sc_params"] = sc
    if impl:
        kw["jac"] = d * JL
    else:
        kw["nfev_stiff_detect"] = 0
    sol = m.make(fun, 0.0, y0, 100.0 * d, rtol=rtol, atol=atol, **kw)
    fun.on = True
    atol = np.asarray(atol, float)
    name = sc if sc is not None else DEFAULT[m.name]
    par = (IMPL if impl else EXPL).get(name, name)
    tag = "%s sc_params=%s d=%d cplx=%d tol=%d plan=%s" % (
        m.name, sc, d, case["cplx"], case["tol"], plan)
    kexp = -1.0 / (min(m.order, m.secondary) + 1)
    ref = Impl(m, rtol, atol, d) if impl else Err(m, rtol, atol, d)
    f = fun.base(0.0, y0)
    hist = []              # (h, error norm, noise, rejections)
    calm = 0               # steps without limits up to now
    smooth = 0             # steps without rejections up to now
    top, used, nrej = 0.0, 0, 0
    last = (max(plan) if plan else 0) + 200
    for step in range(22):
        if sol.status != "running" or fun.i > last or abs(sol.t) > 90:
            break
        fun.log = []
        t, y = sol.t, np.array(sol.y)
        sol.step()
        if sol.status == "failed":
            break
        h = abs(sol.t - t)
        if used >= 0 and len(hist) >= 2:
            # step size proposed by the previous step
            (ho, eo, no, _), (hp, ep, np_, rp) = hist[-2:]
            b1, b2, a, g = par
            fac = g ** (b1 + b2) * ep ** (kexp * b1) * eo ** (kexp * b2) * \
                (hp / ho) ** -a
            std = g * ep ** kexp
            noise = 1e-7 + 2 * (np_ / ep + no / eo)
            hh = h
            att = ref.first(t, fun.log)
            if att:
                hh = att
            r = hh / hp
            if noise < 1e-2 and 0.21 < fac < 3.9 and \
                    0.21 < std < 3.9:
                used += 1
                top = max(top, abs(np.log(fac)))
                res.transitions += 1
                ok = [fac]
                if smooth < 3 or calm < 3:
                    # (the standard controller may be used to restart)
                    ok = [fac, std]
                    if rp:
                        ok = [min(1.0, x) for x in ok]
                if min(abs(r / x - 1) for x in ok) > noise:
                    res.bad("factor:" + m.name, "%s step %d: size %r after "
                            "%r and %r (error norms %r, %r): factor %r, "
                            "documented %r" % (tag, step, hh, hp, ho, ep, eo,
                                               r, fac))
                    return
            quiet = 0.21 < fac < 3.9 and 0.21 < std < 3.9 and 1e-7 < ep
        else:
            # the first steps may grow faster
            quiet = bool(hist) and h < 3.9 * hist[-1][0]
        out = ref.norms(t, y, f, fun.log, sol)
        if out is None:
            break
        e, noise, rej, f = out
        nrej += rej
        hist.append((h, max(e, 1e-300), noise, rej))
        calm = calm + 1 if quiet and e > 1e-7 else 0
        smooth = smooth + 1 if not rej else 0
        res.states += 1
    res.traces += 1
    res.sig(m.name, case["sc"], min(nrej, 3), round(top))
    if res.sample is None and used > 3:
        res.sample = {"run": tag, "factors compared": used}


class Err(e01.Ref):
    """error norms of the explicit methods"""

    def first(self, t, log):
        if not log:
            return None
        return abs(log[0][0] - t) / self.C[1]

    def norms(self, t, y, f, log, sol):
        hist, bad, f = self.step(t, y, f, log, sol)
        if bad or f is None or not hist:
            return None
        h = sol.t - t
        K = [self.f0] + [x[2] for x in log]
        # stages of the last attempt
        n = self.s - 1 + (1 if self.fsal else 0)
        K = K[:1] + [x[2] for x in (log if self.fsal else log[:-1])][-n:]
        e = self.wrms(self.err(h, K), y, sol.y)
        big = max(np.max(np.abs(h * np.array(K))), np.max(np.abs(y)))
        noise = 1e-14 * big / np.min(self.atol + self.rtol * np.abs(y))
        return e, noise, len(hist) - 1, f

    def step(self, t, y, f, log, sol):
        self.f0 = f
        return super().step(t, y, f, log, sol)


class Impl:
    """error norms of the implicit methods for a linear problem"""

    def __init__(self, m, rtol, atol, d):
        t = mt.TABLES[m.base]
        self.A, self.C, self.E = (np.array(t[k]) for k in "ACE")
        self.g = float(t["d"])
        self.m, self.rtol, self.atol, self.J = m, rtol, atol, d * JL
        self.k0 = None

    def first(self, t, log):
        if len(log) < len(self.C) - 1:
            return None
        return abs(log[len(self.C) - 2][0] - t) / self.C[-1]

    def norms(self, t, y, f, log, sol):
        ns = len(self.C)
        if not log or len(log) % (ns - 1):
            return None
        a = log[-(ns - 1):]
        h = a[-1][0] - t
        K = [f if self.k0 is None else self.k0]
        W = np.linalg.inv(np.eye(3) - h * self.g * self.J)
        for s in range(1, ns):
            tt, yp, ff = a[s - 1]
            psi = y + h * (self.A[s, :s] @ np.array(K))
            zp = (yp - psi) / self.g
            z = zp + W @ (h * ff - zp)
            K.append(z / h)
        est = h * (self.E @ np.array(K))
        if self.m.base in ("HS2I", "HS2Ia"):
            est = W @ est
        wt = self.atol + self.rtol * np.maximum(np.abs(y), np.abs(sol.y))
        e = float(np.sqrt(np.mean(np.abs(est / wt) ** 2)))
        self.k0 = ff + self.J @ (sol.y - yp)
        big = max(np.max(np.abs(h * np.array(K))), np.max(np.abs(y)))
        return e, 1e-13 * big / np.min(wt), len(log) // (ns - 1) - 1, 0
