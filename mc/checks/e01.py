"""E01 every attempt of the explicit Runge-Kutta(-Nystrom) methods is the
published formula and is accepted exactly when it passes its error test."""
import numpy as np
import core
import methods as mt

ID = "E01"
TECHNIQUE = ("exhaustive exploration of scripted right-hand side answers; each "
             "trace of the implementation is replayed call by call in a "
             "reference model of the step (conformance check)")
NOTE = ("The reference model uses a committed snapshot of the published "
        "tables (validated by O01/O02); decisions whose error norm is within "
        "1e-9 of the threshold are left open.")
RULE = ("All scripts with one deviating answer (thorough: two): every call "
        "index of the first three steps x geometric ladder of magnitudes that "
        "crosses the acceptance threshold of every method x component "
        "patterns (real, complex) x scalar/vector tolerance x direction. "
        "For "
        "the variable order method also a product of ladders of the answers "
        "of one attempt. Every call, accepted solution and accept/reject decision is compared "
        "with the model. Outcome class = (method, decisions of the run).")
ASSUMPTIONS = ["finite answers (non-finite ones: F01)",
               "comparison up to relative rounding of 1e-10"]

TAB = {k: {kk: (np.array(vv) if isinstance(vv, list) and
                kk not in ("C_fallback", "B_fallback", "E_fallback")
                else vv) for kk, vv in v.items()}
       for k, v in mt.TABLES.items()}

NAMES = ["Me4", "CK5", "Ts5", "BS5", "BS5best", "CFMR7osc", "Pr7", "Pr8",
         "Pr9", "CKdisc", "Fi4N", "Fi5N", "Fi5N3", "Mu5Nmb", "Mu5Nmbfree",
         "Mu5Nmbunsc", "MR6NN"]
PAT = [[1, 0, 0], [0, 1, 0], [0.2, -0.3, 1.0]]
TOLS = [(1e-3, [1e-3, 1e-6, 1e-5]), (1e-2, 1e-4), (1e-2, 1e-2)]
Y0 = np.array([1.0, 0.0, -0.25])


def cases(tier):
    nm = 24 if tier == "quick" else 48
    lo, hi = -5.0, 4.0
    for name in NAMES:
        s = nstages(name)
        for tol in (0, 1):
            for d in (1, -1):
                for pat in range(len(PAT)):
                    for cplx in (0, 1):
                        if tier == "quick" and (cplx or tol) and pat != 2:
                            continue
                        yield dict(m=name, tol=tol, d=d, pat=pat, cplx=cplx,
                                   idx=list(range(3 * s)), idx2=[None],
                                   mag=[lo, hi, nm])
                if tier == "thorough":
                    for i in range(0, 2 * s):
                        yield dict(m=name, tol=tol, d=d, pat=2, cplx=0,
                                   idx=[i],
                                   idx2=list(range(i + 1, i + 1 + 2 * s)),
                                   mag=[-2.0, 3.0, 10])


    # the variable order method: answers of the first attempt from which its
    # assessments and its fallback solutions pass or fail independently
    nd = 9 if tier == "quick" else 17
    lad = [0.0] + [s * 0.02 * 1.8 ** k for k in range(nd) for s in (1, -1)]
    for d in (1, -1):
        for cplx in (0, 1):
            for d2 in lad:
                yield dict(m="CKdisc", disc=1, d=d, cplx=cplx, d2=d2, tol=2,
                           pat=0, d3=lad)


def nstages(name):
    t = TAB[mt.ALL[name].base]
    return int(t["n_stages"])


class Kick:
    def __init__(self, y0, d, plan, vec, second):
        self.i = 0
        self.on = False
        self.d = d
        self.plan, self.vec = plan, vec
        self.second = second
        self.log = []

    def base(self, t, x):
        return np.array([-x[0] + 0.5 * x[1], x[2] + 0.3 * t, x[0] * 0.4])

    def __call__(self, t, y):
        if self.second:
            n = y.size // 2
            f = self.base(t, y[:n])
        else:
            f = self.base(t, y)
        f = f * self.d
        if self.on:
            m = self.plan.get(self.i)
            self.i += 1
            if m is not None:
                f = f + m * self.vec
            if self.i > 3000:
                raise core.Budget()
            self.log.append((float(t), np.array(y), f.copy()))
        if self.second:
            return np.concatenate((y[n:], f))
        return f


class Fixed:
    """the answers of the first calls are given"""

    def __init__(self, d, answers):
        self.d, self.answers = d, answers
        self.on, self.i, self.log = False, 0, []

    def base(self, t, x):
        return np.full_like(x, 1.0)

    def __call__(self, t, y):
        f = self.base(t, y) * self.d
        if self.on:
            if self.i < len(self.answers):
                f = f * self.answers[self.i]
            self.i += 1
            if self.i > 3000:
                raise core.Budget()
            self.log.append((float(t), np.array(y), f.copy()))
        return f


def disc(m, case, res):
    B = np.array(TAB["CKdisc"]["B_all"])
    E = B[3] - B[2]
    d2 = case["d2"]
    for d3 in case["d3"]:
        for q in (0.0, 0.9, -0.9, 30.0, -3e3):
            # second answer: the second assessment has this error (in units
            # of the tolerance, roughly)
            d1 = (0.015 * q - E[2] * d2 - E[3] * d3) / E[1]
            for d4, d5 in ((0.0, 0.0), (0.0, 100.0), (1e4, -1e4), (3.0, 0)):
                ans = [1 + d1, 1 + d2, 1 + d3, 1 + d4, 1 + d5]
                k = Fixed(case["d"], ans)
                y0 = np.zeros(1, complex if case["cplx"] else float)
                one(m, case, {i: a for i, a in enumerate(ans)}, None, res,
                    k, y0)


def run(case, res):
    m = mt.ALL[case["m"]]
    if "disc" in case:
        return disc(m, case, res)
    lo, hi, nm = case["mag"]
    mags = [10 ** (lo + (hi - lo) * k / (nm - 1)) for k in range(nm)]
    vec = np.array(PAT[case["pat"]])
    if case["cplx"]:
        vec = vec * (0.6 + 0.8j)
    for i in case["idx"]:
        for j in case["idx2"]:
            for a in mags:
                for b in (mags if j is not None else [None]):
                    plan = {i: a}
                    if j is not None:
                        plan[j] = -b
                    one(m, case, plan, vec, res)


def near(a, b, size):
    return np.all(np.abs(a - b) <= 1e-10 * size)


def spread(t, h, c):
    """h is inferred from the time of the first stage, which is rounded"""
    return 8 * np.spacing(abs(t) + abs(h)) / c


def one(m, case, plan, vec, res, k=None, y0=None):
    rkn = m.kind == "rkn"
    d = case["d"]
    rtol, atol = TOLS[case["tol"]]
    first = 0.25
    if k is not None:
        first = 1.0
    else:
        y0 = Y0.astype(complex) * (1 + 0.5j) if case["cplx"] else Y0.copy()
    if rkn:
        y0 = np.concatenate((y0, y0[::-1] * 0.5))
        if not np.isscalar(atol):
            atol = list(atol) + [1e-5, 1e-2, 1e-4]
    k = k or Kick(y0, d, plan, vec, rkn)
    kw = dict(rtol=rtol, atol=atol, first_step=first)
    if m.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    sol = m.make(k, 0.0, y0, 40.0 * d, **kw)
    atol = np.asarray(atol, float)
    k.on = True
    tag = "%s tol=%d d=%d pat=%d cplx=%d plan=%s" % (
        m.name, case["tol"], d, case["pat"], case["cplx"],
        {i: round(v, 6) for i, v in plan.items()})
    ref = Ref(m, rtol, atol, d)
    f = k.base(0.0, y0[:y0.size // 2] if rkn else y0) * d
    hist = ""
    for step in range(3):
        k.log = []
        t, y = sol.t, np.array(sol.y)
        sol.step()
        out = ref.step(t, y, f, k.log, sol)
        hist += out[0]
        res.transitions += len(out[0])
        if out[1]:
            res.bad("%s:%s" % (out[1], m.name), "%s step %d: %s" % (
                tag, step, out[2]))
            return
        f = out[2]
        if f is None:
            break
        res.states += 1
    res.traces += 1
    res.sig(m.name, hist[:6])
    if res.sample is None and len(hist) > 3:
        res.sample = {"run": tag, "decisions (a accept, r reject, p reject "
                      "by early test)": hist}


class Ref:
    """Reference model of one step."""

    def __init__(self, m, rtol, atol, d):
        self.m, self.rtol, self.atol, self.d = m, rtol, atol, d
        self.T = TAB[m.base]
        self.s = int(self.T["n_stages"])
        self.rkn = m.kind == "rkn"
        T = self.T
        if m.name == "CKdisc":
            return
        self.C = T["C"]
        self.E = T["E"]
        fs = self.E[-1] != 0
        if self.rkn:
            self.A, self.B = T["A"], T["B"]
            self.Ap = T.get("Ap", np.zeros_like(self.A))
            self.Bp, self.Ep = T["Bp"], T["Ep"]
            fs = fs or self.Ep[-1] != 0
            if m.base == "Mu5Nmb" and m.name != "Mu5Nmbunsc":
                self.E, self.Ep = 0.75 * self.E, 0.75 * self.Ep
        else:
            self.A, self.B = T["A"], T["B"]
        self.fsal = bool(fs)

    def wrms(self, e, y, yn):
        x = e / (self.atol + self.rtol * np.maximum(np.abs(y), np.abs(yn)))
        return float(np.sqrt(np.mean(np.abs(x) ** 2)))

    def stage(self, t, y, h, K, i):
        K = np.array(K)
        if self.rkn:
            n = y.size // 2
            u = y[:n] + self.C[i] * h * y[n:] + h * h * (self.A[i, :i] @ K)
            v = y[n:] + h * (self.Ap[i, :i] @ K)
            return t + self.C[i] * h, np.concatenate((u, v))
        return t + self.C[i] * h, y + h * (self.A[i, :i] @ K)

    def end(self, y, h, K):
        K = np.array(K[:self.s])
        if self.rkn:
            n = y.size // 2
            return np.concatenate((y[:n] + h * y[n:] + h * h * (self.B @ K),
                                   y[n:] + h * (self.Bp @ K)))
        return y + h * (self.B @ K)

    def err(self, h, K):
        q = self.s + self.fsal
        K = np.array(K[:q])
        if self.rkn:
            return np.concatenate((h * h * (self.E[:q] @ K),
                                   h * (self.Ep[:q] @ K)))
        return h * (self.E[:q] @ K)

    def step(self, t, y, f, log, sol):
        """-> (decisions, violation class or None, message | next f)"""
        if self.m.name == "CKdisc":
            return self.step_disc(t, y, f, log, sol)
        p, hist, s = 0, "", self.s
        failed = sol.status == "failed"
        while True:
            if p >= len(log):
                if failed:
                    return hist, None, None
                return hist, "nocalls", "calls end before an accepted attempt"
            h = (log[p][0] - t) / self.C[1]
            if not h * self.d > 0:
                return hist, "stage", "first stage at %r from %r" % (
                    log[p][0], t)
            if spread(t, h, self.C[1]) > 1e-10 * abs(h):
                return hist, None, None
            K = [f]
            size = np.max(np.abs(y)) + abs(h) * np.max(np.abs(f)) + abs(t) + \
                abs(h)
            pre = {"BS5": s - 1, "CFMR7osc": s - 1}.get(self.m.base)
            rejected = False
            for i in range(1, s):
                if pre == i:
                    e = self.pre(y, h, K)
                    if abs(e - 1) < 1e-9 * (1 + size * 1e3):
                        return hist, None, None
                    if e > 1:
                        hist += "p"
                        rejected = True
                        break
                if p >= len(log):
                    return (hist, None, None) if failed else (
                        hist, "nocalls", "attempt with missing stages")
                ts, ys = self.stage(t, y, h, K, i)
                tl, yl, fl = log[p]
                p += 1
                size += abs(h) * np.max(np.abs(fl))
                if not near(ts, tl, abs(t) + abs(h)) or not near(ys, yl, size):
                    return hist, "stage", (
                        "stage %d of an attempt with h=%r: evaluated at t=%r "
                        "y=%s instead of t=%r y=%s (decisions so far %s)"
                        % (i, h, tl, yl, ts, ys, hist))
                K.append(fl)
            if rejected:
                continue
            yn = self.end(y, h, K)
            tn = t + h
            if self.fsal:
                if p >= len(log):
                    return (hist, None, None) if failed else (
                        hist, "nocalls", "no evaluation of the last stage")
                tl, yl, fl = log[p]
                p += 1
                if not near(tn, tl, abs(t) + abs(h)) or \
                        not near(yn, yl, size):
                    return hist, "fsal", "last stage at %r %s, not %r %s" % (
                        tl, yl, tn, yn)
                K.append(fl)
            e = self.wrms(self.err(h, K), y, yn)
            if abs(e - 1) < 1e-9 * (1 + size * 1e3):
                return hist, None, None
            done = p + (0 if self.fsal else 1) == len(log)
            if e > 1:
                hist += "r"
                if not failed and p == len(log):
                    return hist, "accepted", (
                        "attempt h=%r with error norm %r accepted" % (h, e))
                if not failed and done and near(log[-1][0], sol.t, abs(h)) \
                        and near(sol.t, tn, 1 + abs(t)):
                    return hist, "accepted", (
                        "attempt h=%r with error norm %r accepted" % (h, e))
                continue
            hist += "a"
            if failed or not done or not near(sol.t, tn, abs(t) + abs(h)):
                return hist, "rejected", (
                    "attempt h=%r with error norm %r not accepted; t=%r, %d "
                    "of %d calls" % (h, e, sol.t, p, len(log)))
            if not self.fsal:
                tl, yl, fl = log[p]
                if not near(tn, tl, abs(t) + abs(h)) or \
                        not near(yn, yl, size):
                    return hist, "final", "final evaluation at %r %s" % (tl,
                                                                        yl)
            if not near(sol.y, yn, size):
                return hist, "solution", "y=%s instead of %s (h=%r)" % (
                    sol.y, yn, h)
            if not np.array_equal(sol.y, log[-1][1]):
                return hist, "final", "derivative not taken at the solution"
            return hist, None, log[-1][2]

    def pre(self, y, h, K):
        K = np.array(K)
        if self.m.base == "BS5":
            b, e = self.T["B_scale_pre"], self.T["E_pre"]
        else:
            b, e = self.A[8, :8], self.E[:8]
        return self.wrms(h * (e @ K), y, y + h * (b @ K))

    def step_disc(self, t, y, f, log, sol):
        """variable order method: sound acceptance"""
        T = self.T
        A, C = np.array(T["A"]), np.array(T["C"])
        if sol.status == "failed":
            return "", None, None
        if not log:
            return "", "nocalls", "no calls"
        body, last = log[:-1], log[-1]
        hist, p = "", 0
        self.C, self.A = C, A
        att = []
        while p < len(body):
            h = (body[p][0] - t) / C[1]
            if not h * self.d > 0:
                return hist, "stage", "first stage at %r from %r" % (
                    body[p][0], t)
            if spread(t, h, C[1]) > 1e-10 * abs(h):
                return hist, None, None
            K = [f]
            size = np.max(np.abs(y)) + abs(h) * np.max(np.abs(f)) + abs(h) + \
                abs(t)
            for i in range(1, 6):
                if p >= len(body):
                    break
                ts, ys = self.stage(t, y, h, K, i)
                tl, yl, fl = body[p]
                if not near(ts, tl, abs(t) + abs(h)) or not near(ys, yl, size):
                    break
                p += 1
                size += abs(h) * np.max(np.abs(fl))
                K.append(fl)
            if len(K) not in (2, 4, 6):
                return hist, "stage", "attempt h=%r with %d stages (%s)" % (
                    h, len(K), hist)
            att.append((h, K, size))
            hist += str(len(K))
            if len(K) == 6 and p < len(body):
                c = self.cand(y, h, K)[0]
                if c[2] < 1 - 1e-9:
                    return hist, "rejected", (
                        "fifth order solution with error norm %r not accepted"
                        % c[2])
        h, K, size = att[-1]
        cs = self.cand(y, h, K)
        hit = False
        for frac, yn, e, o in cs:
            if near(sol.t, t + frac * h, abs(t) + abs(h)) and \
                    near(sol.y, yn, size):
                hit = True
                hist += "ABC"[o]
                if e > 1 + 1e-9:
                    return hist, "accepted", (
                        "solution of kind %d with error norm %r accepted"
                        % (o, e))
                break
        if not hit:
            return hist, "solution", (
                "t=%r y=%s is none of the embedded solutions %s" % (
                    sol.t, sol.y, [(t + c[0] * h, c[1], c[2]) for c in cs]))
        if len(K) == 6 and cs[0][2] < 1 - 1e-9 and o != 0:
            return hist, "rejected", "fifth order solution not used"
        if last[0] != sol.t or not np.array_equal(last[1], sol.y):
            return hist, "final", "derivative not taken at the solution"
        return hist, None, last[2]

    def cand(self, y, h, K):
        T = self.T
        K = np.array(K)
        out = []
        if len(K) == 6:
            yn = y + h * (np.array(T["B"]) @ K[:6])
            e = h * (np.array(T["E"])[:6] @ K[:6])
            out.append((1.0, yn, self.wrms(e, y, yn), 0))
        if len(K) >= 4:
            yn = y + h * (np.array(T["B_fallback"][1])[:4] @ K[:4])
            e = h * (np.array(T["E_fallback"][1])[:4] @ K[:4])
            out.append((float(T["C_fallback"][1]), yn,
                        self.wrms(e, y, yn), 1))
        yn = y + h * (np.array(T["B_fallback"][0])[:2] @ K[:2])
        e = h * (np.array(T["E_fallback"][0])[:2] @ K[:2])
        out.append((float(T["C_fallback"][0]), yn, self.wrms(e, y, yn), 2))
        return out
