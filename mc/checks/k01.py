"""K01 the stiffness diagnosis observes and does not interfere."""
import warnings
import numpy as np
import core
import methods as mt

ID = "K01"
TECHNIQUE = ("exhaustive exploration of diagnosis settings, problems and "
             "environment answers during the diagnosis; the execution with "
             "diagnosis must be a stuttering refinement of the one without "
             "(on-line matching of every call), plus an exhaustive grid of "
             "spectra for the verdict")
NOTE = ("Calls of the diagnosis are recognised because they do not match the "
        "next call of the reference execution; the environment may answer "
        "them arbitrarily.")
RULE = ("(1) every explicit Runge-Kutta(-Nystrom) method x direction x "
        "real/complex x problems (regular, degenerate, many rejections) x all "
        "frequencies of a grid x answers to the diagnosis calls (true, nan, "
        "inf, huge, constant, zero, alternating; from every call index of the "
        "diagnosis on); (2) dominant eigenvalue at every angle of a grid x "
        "tolerance x direction x real/complex form: warned if stiff, silent "
        "if not; (3) constant steps at fractions of the limit of stability "
        "(computed from the coefficients of the method): silent well within, "
        "warned at the boundary. Outcome class = (method, problem, frequency, "
        "number of diagnosis calls).")
ASSUMPTIONS = ["a verdict is demanded only where the documentation of the "
               "stability arc of the method claims validity (angle within 0.8 "
               "of tanang and 60 degrees; Nystrom and multistep methods: real "
               "dominant eigenvalue)"]

NAMES = [n for n in mt.RK + mt.RKN if n != "CKdisc"]
SDS = [1, 2, 7, 20, 45, 200, 5000]
FAULTS = ["true", "nan", "inf", "huge", "const", "zero", "alt", "tiny"]


def cases(tier):
    for name in NAMES:
        for d in (1, -1):
            for cplx in (0, 1):
                for prob in PROBS:
                    yield dict(part="sim", m=name, d=d, cplx=cplx, prob=prob,
                               n=45 if tier == "quick" else 60,
                               sds=SDS[::2] if tier == "quick" else SDS,
                               starts=[0, 2] if tier == "quick" else
                               list(range(0, 8)))
    deg = [0, 35, 60, 75] if tier == "quick" else list(range(0, 81, 5))
    for name in NAMES + ["SWAG"]:
        for d in (1, -1):
            for cplx in (0, 1):
                for tol in ((1e-2,) if tier == "quick" else (1e-1, 1e-2,
                                                             1e-4)):
                    yield dict(part="stiff", m=name, d=d, cplx=cplx, tol=tol,
                               deg=deg)
                yield dict(part="mild", m=name, d=d, cplx=cplx, tol=1e-6,
                           deg=deg + [90, 120, 180])
                if name in NAMES and name != "MR6NN":
                    yield dict(part="limited", m=name, d=d, cplx=cplx,
                               deg=deg, steps=130 if tier == "quick" else 400)


# problems: dimension, acceleration / right-hand side in time s = d * t, y0
def _lin(A):
    A = np.array(A)
    return lambda s, x: A @ x


def _pulses(s, x):
    w = sum(np.exp(-((s - c) / 0.02) ** 2) for c in (0.3, 0.9, 1.4, 2.2, 3.1))
    return np.array([-x[0] + 0.5 * x[1] + 40 * w, -0.5 * x[1] - 25 * w])


def _jumps(s, x):
    return np.array([np.sign(np.sin(9 * s)) * 3 - x[0], x[0] - x[1]])


PROBS = {
    "stiff": (_lin([[-60.0, 1.0], [0, -0.5]]), [1.0, 1.0]),
    "spin": (_lin([[-20.0, 40.0], [-40.0, -20.0]]), [1.0, 0.0]),
    "osc": (_lin([[0, 6.0], [-6.0, 0]]), [1.0, 0.0]),
    "nil": (_lin([[0, 1.0], [0, 0.0]]), [1.0, 0.5]),
    "zero": (_lin([[-1.0, 0], [0, -2.0]]), [0.0, 0.0]),
    "half": (_lin([[-1.0, 0], [0, -2.0]]), [1.0, 0.0]),
    "const": (lambda s, x: np.array([1.0, -2.0]), [1.0, -1.0]),
    "one": (lambda s, x: -30 * x, [1.0]),
    "pulse": (_pulses, [1.0, -1.0]),
    "jump": (_jumps, [1.0, -1.0]),
}


class Env:
    """answers by a deterministic problem; in the second pass calls that do
    not match the recorded sequence are diagnosis calls"""

    def __init__(self, base, d, second, ref=None, fault="true", start=0):
        self.base, self.d, self.second = base, d, second
        self.ref, self.fault, self.start = ref, fault, start
        self.log = []
        self.p = 0
        self.extra = 0
        self.n = 0
        self.last = None

    def __call__(self, t, y):
        self.n += 1
        if self.n > 200000:
            raise core.Budget()
        y = np.asarray(y)
        h = y.size // 2
        f = self.base(self.d * t, y[:h] if self.second else y)
        if not self.second:
            f = f * self.d
        f = np.asarray(f, y.dtype)
        if self.ref is None:
            self.log.append((t, y.copy()))
        elif self.p < len(self.ref) and t == self.ref[self.p][0] and \
                np.array_equal(y, self.ref[self.p][1]):
            self.p += 1
            self.last = f
        else:
            f = self.deviate(f)
            self.extra += 1
        if self.second:
            return np.concatenate((y[h:], f))
        return f

    def deviate(self, f):
        if self.extra < self.start:
            return f
        k = self.fault
        if k == "nan":
            return np.full_like(f, np.nan)
        if k == "inf":
            return np.full_like(f, np.inf)
        if k == "huge":
            return np.full_like(f, 1e250)
        if k == "const":
            return self.last
        if k == "zero":
            return np.zeros_like(f)
        if k == "tiny":
            return f * 1e-200
        if k == "alt":
            return f * (-1) ** self.extra * 3
        return f


def drive(m, env, y0, d, sd, n):
    tr = []
    sol = m.make(env, 0.0, np.array(y0), d * 4.0, rtol=1e-4, atol=1e-6,
                 nfev_stiff_detect=sd)
    for i in range(n):
        if sol.status != "running":
            break
        sol.step()
        tr.append((sol.t, sol.y.copy(), sol.status))
        if i % 7 == 3:
            z = sol.dense_output()(0.3 * sol.t + 0.7 * sol.t_old)
            tr.append((0, z, ""))
    return tr, sol.nfev


def run(case, res):
    m = mt.ALL[case["m"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["part"] == "sim":
            sim(m, case, res)
        elif case["part"] == "limited":
            limited(m, case, res)
        else:
            verdict(m, case, res)


def sim(m, case, res):
    second = m.kind == "rkn"
    d = case["d"]
    base, x0 = PROBS[case["prob"]]
    y0 = np.array(x0)
    if second:
        y0 = np.concatenate((y0, 0.5 * y0[::-1]))
    if case["cplx"]:
        y0 = y0 * (0.8 + 0.6j)
    ref = Env(base, d, second)
    tr0, nfev0 = drive(m, ref, y0, d, 0, case["n"])
    # without diagnosis no evaluation is spent on it: N01 counts these
    for sd in case["sds"]:
        for fault in FAULTS:
            for start in (case["starts"] if fault != "true" else [0]):
                env = Env(base, d, second, ref.log, fault, start)
                tag = "%s %s d=%d cplx=%d nfev_stiff_detect=%d answers=%s " \
                    "from %d" % (m.name, case["prob"], d, case["cplx"], sd,
                                 fault, start)
                try:
                    tr, nfev = drive(m, env, y0, d, sd, case["n"])
                except Exception as e:
                    res.bad("exc:" + m.name, "%s: %s: %s" % (
                        tag, type(e).__name__, e))
                    return
                res.transitions += len(tr)
                res.traces += 1
                same = len(tr) == len(tr0) and all(
                    a[0] == b[0] and a[2] == b[2]
                    and np.array_equal(a[1], b[1]) for a, b in zip(tr, tr0))
                if not same or env.p != len(ref.log):
                    k = next((i for i, (a, b) in enumerate(zip(tr, tr0))
                              if a[0] != b[0]
                              or not np.array_equal(a[1], b[1])), -1)
                    res.bad("differs:" + m.name, "%s: result differs from the "
                            "one without diagnosis at output %d (%d outputs, "
                            "%d)" % (tag, k, len(tr), len(tr0)))
                    return
                if nfev != nfev0 + env.extra:
                    res.bad("nfev:" + m.name, "%s: nfev %d instead of %d" % (
                        tag, nfev, nfev0 + env.extra))
                    return
                res.states += len(tr)
                res.sig(m.name, case["prob"], sd, env.extra > 0)
                if env.extra == 0:
                    break
                if res.sample is None and fault == "nan":
                    res.sample = {"run": tag, "calls": env.n,
                                  "of the diagnosis": env.extra}
            if env.extra == 0:
                break


def system(m, lam, d, slow):
    """linear problem with a dominant eigenvalue (pair) lam in time d*t and a
    smooth solution; second order form for the Nystrom methods"""
    mag = abs(lam)
    if m.kind == "rkn":
        K = np.array([mag ** 2, 1.0])
        D = np.array([-2 * lam.real, 1.5])
        if lam.imag == 0:
            # roots -mag and -mag / 8
            K[0], D[0] = mag ** 2 / 8, -(lam.real * 9 / 8)

        def f(t, y):
            x, v = y[:2], y[2:]
            c, s = np.cos(t), np.sin(t)
            return np.concatenate((v, -K * (x - c) - D * d * (v + s) - c))
        return f, np.array([1.0, 0.5, 0.0, 0.0])
    if lam.imag:
        A = np.array([[lam.real, lam.imag, 0], [-lam.imag, lam.real, 0],
                      [0.1, 0, slow]])
    else:
        A = np.array([[lam.real, 1.0, 0], [0, -0.5 * mag / 250, 0],
                      [0.1, 0, slow]])

    def f(t, y):
        g = np.array([np.cos(t), np.sin(t), 1.0])
        gp = np.array([-np.sin(t), np.cos(t), 0.0])
        return d * (A @ (y - g)) + gp
    return f, np.array([1.0, 0.0, 0.5])


def limit(m, lam):
    """largest r for which steps r / |lam| are stable, from the coefficients"""
    c = m.cls
    s = len(c.B)
    A, b, e = np.array(c.A, float)[:s, :s], np.array(c.B, float), np.ones(s)
    u = lam / abs(lam)
    if m.kind == "rkn":
        Ap = 0 * A if c.Ap is NotImplemented else np.array(c.Ap)[:s, :s]
        bp, C = np.array(c.Bp, float), np.array(c.C, float)[:s]
        K, D = (1.0, -2 * u.real) if u.imag else (1 / 8, 9 / 8)

        def rad(h):
            M = np.eye(s) + h * h * K * A + h * D * Ap
            R = np.zeros((2, 2))
            for j, (x, v) in enumerate(((1, 0), (0, 1))):
                k = np.linalg.solve(M, -K * (x * e + C * h * v) - D * v * e)
                R[:, j] = x + h * v + h * h * (b @ k), v + h * (bp @ k)
            return np.abs(np.linalg.eigvals(R)).max()
    else:
        def rad(h):
            return abs(1 + h * u * (b @ np.linalg.solve(
                np.eye(s) - h * u * A, e)))
    h = 0.02
    while rad(h) <= 1 + 1e-9:
        h += 0.02
    return h


def limited(m, case, res):
    """constant steps, a fraction of the limit of stability: silent well
    within the region of stability, warned at its boundary"""
    d = case["d"]
    rkn = m.kind == "rkn"
    for deg in case["deg"]:
        a = np.radians(deg)
        if np.tan(a) > 0.8 * m.cls.tanang:
            continue
        lam = 1000 * complex(-np.cos(a), 0 if deg == 0 else np.sin(a))
        r = limit(m, lam)
        for frac in (0.2, 0.55, 0.8, 0.98):
            warned = frac > 0.9
            if warned and deg > (20 if rkn else 60):
                continue
            # the Nystrom methods document a rectangle within the region
            if rkn and not warned and frac > (0.6 if deg else 0.25):
                continue
            f, y0 = system(m, lam, d, -0.5)
            if case["cplx"]:
                y0 = y0 * (1 + 0j)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                sol = m.make(f, 0.0, y0, d * 60.0, rtol=1e-2, atol=1e-2,
                             nfev_stiff_detect=400, max_step=frac * r / 1000)
                n = 0
                while sol.status == "running" and n < case["steps"]:
                    sol.step()
                    n += 1
            msgs = [str(x.message) for x in w if "tiff" in str(x.message)
                    or "roots" in str(x.message)]
            if warned != bool(msgs):
                res.bad("limited:" + m.name, "%s dominant eigenvalue %s "
                        "(direction %d, cplx %d), steps at %g of the limit of "
                        "stability: %s" % (m.name, lam, d, case["cplx"], frac,
                                           msgs[:1] or "no warning"))
                return
            res.transitions += n
            res.states += 1
            res.traces += 1
            res.sig(m.name, "limited", deg, frac, bool(msgs))


def verdict(m, case, res):
    d = case["d"]
    stiff = case["part"] == "stiff"
    tan = getattr(m.cls, "tanang", 1.0)
    for deg in case["deg"]:
        a = np.radians(deg)
        if m.kind == "rkn":
            if m.base == "MR6NN":
                return       # no diagnosis
            if stiff and deg:
                continue
            if not stiff and deg > 90:
                continue
        elif m.kind == "rk" and stiff and (np.tan(a) > 0.8 * tan or
                                             deg > 60):
            continue
        elif m.kind == "swag" and stiff and (
                deg or case["tol"] != 1e-2):
            continue
        mag = 1000.0 if stiff else 1.5
        lam = mag * complex(-np.cos(a), 0 if deg in (0, 180) else np.sin(a))
        f, y0 = system(m, lam, d, -0.5)
        if case["cplx"]:
            y0 = y0 * (1 + 0j)
        L = 2.0 if stiff else (20.0 if deg > 90 else 40.0)
        kw = {} if m.kind == "swag" else dict(nfev_stiff_detect=150)
        tol = case["tol"]
        if m.base == "Mu5Nmb" and stiff and tol < 1e-2:
            continue
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            sol = m.make(f, 0.0, y0, d * L, rtol=tol, atol=tol * 1e-3, **kw)
            n = 0
            while sol.status == "running" and n < (450 if stiff else 700):
                sol.step()
                n += 1
        msgs = [str(x.message) for x in w if "tiff" in str(x.message)
                or "roots" in str(x.message)]
        tag = "%s dominant eigenvalue %s (direction %d, cplx %d, tol %g), %d " \
            "steps" % (m.name, lam, d, case["cplx"], tol, n)
        if stiff and not msgs:
            res.bad("silent:" + m.name, tag + ": no warning")
            return
        if not stiff and msgs:
            res.bad("false:" + m.name, "%s: warned %r" % (tag, msgs[0]))
            return
        res.transitions += n
        res.states += 1
        res.traces += 1
        res.sig(m.name, case["part"], deg, len(msgs))
        if res.sample is None:
            res.sample = {"run": tag, "warnings": msgs[:1]}
