"""A01 every step of the multistep method is a variable-step Adams formula."""
import numpy as np
import core
import methods as mt

ID = "A01"
TECHNIQUE = ("exhaustive exploration of scripted right-hand side answers "
             "(accept/reject, step-size and order histories); each trace of "
             "the implementation is replayed in a history-based reference "
             "model of the Adams formulas (conformance check)")
NOTE = ("The reference integrates Lagrange polynomials through the derivative "
        "values of the accepted points from scratch at each step; it has no "
        "recurrences and no memory of rejected attempts.")
RULE = ("All scripts with one deviation (thorough: two) at every call index of "
        "the run x magnitudes from order changes to repeated rejections, "
        "transient or lasting x maximum orders x maximum / first step x "
        "direction x real/complex. Every evaluated point, accepted solution, "
        "accept/reject decision and continuous solution is compared. Outcome "
        "class = (maximum order, orders of the run, rejections).")
ASSUMPTIONS = ["decisions within 1e-6 of the threshold are left open",
               "comparison up to relative rounding of 1e-9 of the terms"]

MAGS = [1e-4, 3e-3, 0.1, 3.0, 100.0, 1e4]
GX, GW = np.polynomial.legendre.leggauss(10)
GX, GW = 0.5 * (GX + 1), 0.5 * GW


def cases(tier):
    ncall = 44 if tier == "quick" else 60
    for kmax in ((1, 2, 3, 5, 12) if tier == "quick"
                 else range(1, 13)):
        for d in (1, -1):
            for cplx in (0, 1):
                for ms in (None, 0.3, "fs"):
                    for kind in ("once", "last", "burst"):
                        if tier == "quick" and ((cplx and ms) or
                                                (d < 0 and ms)):
                            continue
                        if cplx and ms == 0.3:
                            continue
                        yield dict(k=kmax, d=d, cplx=cplx, ms=ms, kind=kind,
                                   idx=ncall, two=0)
                if tier != "quick" and cplx == (kmax % 2):
                    for i in range(0, 36, 3):
                        yield dict(k=kmax, d=d, cplx=cplx, ms=None,
                                   kind="once", idx=i, two=1)


class Env:
    def __init__(self, d, plan, kind):
        self.d, self.plan, self.kind = d, plan, kind
        self.i = 0
        self.on = False
        self.log = []

    def base(self, t, y):
        s = t * self.d
        return self.d * np.array([
            -1.2 * y[0] + 0.5 * y[1] + 0.3 * np.sin(2 * s),
            -0.4 * y[0] - 0.5 * y[1] + 0.2 * y[2],
            0.3 * y[0] * y[1] - 0.9 * y[2]])

    def __call__(self, t, y):
        f = self.base(t, y)
        if self.on:
            for i, m in self.plan.items():
                if self.i == i or (self.kind == "last" and self.i >= i) or (
                        self.kind == "burst" and i <= self.i < i + 9):
                    sg = -1 if self.kind == "burst" and self.i % 2 else 1
                    f = f + sg * m * np.array([1.0, 0.3, -0.5])
            self.i += 1
            if self.i > 3000:
                raise core.Budget()
            self.log.append((float(t), np.array(y), f.copy()))
        return f


def lagr(ts, x):
    """values of the Lagrange polynomials of the nodes ts at the points x"""
    L = np.ones((len(ts), len(x)))
    for j in range(len(ts)):
        for i in range(len(ts)):
            if i != j:
                L[j] *= (x - ts[i]) / (ts[j] - ts[i])
    return L


def weights(ts, a, b):
    """integrals of the Lagrange polynomials from a to b"""
    return lagr(ts, a + (b - a) * GX) @ GW * (b - a)


def run(case, res):
    if case["two"]:
        i = case["idx"]
        plans = [{i: a, j: -b} for j in range(i + 1, i + 18)
                 for a in MAGS[1:5] for b in MAGS[1:5]]
    else:
        plans = [{}] + [{i: a} for i in range(case["idx"]) for a in MAGS]
        if case["kind"] != "once":
            plans = plans[1::2]
    for plan in plans:
        one(case, plan, res)


def one(case, plan, res):
    d, kmax = case["d"], case["k"]
    env = Env(d, plan, case["kind"])
    y0 = np.array([1.0, -0.5, 0.25])
    if case["cplx"]:
        y0 = y0 * (0.8 - 0.6j)
    kw = {}
    if case["ms"] == "fs":
        kw["first_step"] = 0.2
    elif case["ms"]:
        kw["max_step"] = case["ms"]
    rtol, atol = 1e-4, np.array([1e-6, 1e-5, 1e-6])
    sol = mt.ALL["SWAG"].make(env, 0.0, y0, 8.0 * d, k_max=kmax, rtol=rtol,
                              atol=atol, **kw)
    env.on = True
    tag = "k_max=%d d=%d cplx=%d step limit=%s %s plan=%s" % (
        kmax, d, case["cplx"], case["ms"], case["kind"], plan)
    T, F = [0.0], [env.base(0.0, y0)]      # accepted points, newest last
    klast, hist, nrej = 0, "", 0
    last = case["idx"] if not case["two"] else case["idx"] + 30
    for step in range(60):
        if sol.status != "running" or (plan and env.i > last + 25):
            break
        env.log = []
        t, y = sol.t, np.array(sol.y)
        sol.step()
        if sol.status == "failed":
            break
        if not env.log:
            break               # extrapolated to the end
        out = model(case, env.log, T, F, t, y, sol, rtol, atol, klast)
        if isinstance(out, str):
            key, msg = out.split("|", 1)
            res.bad(key + ":k%d" % kmax, "%s step %d (orders so far %s): %s"
                    % (tag, step, hist, msg))
            return
        ks, nr, Tn, Fn = out
        nrej += nr
        res.transitions += nr + 1
        res.states += 1
        if ks is None:
            return
        if step % 3 == 0 or nr:
            msg = dense(sol, ks, Tn, Fn, t, y)
            if msg:
                res.bad("dense:k%d" % kmax, "%s step %d (orders so far %s): "
                        "%s" % (tag, step, hist, msg))
                return
        T, F = Tn[-14:], Fn[-14:]
        klast = ks[0]
        hist += "%x" % klast
    res.traces += 1
    res.sig(kmax, max(hist or "0"), min(nrej, 6), case["kind"])
    if res.sample is None and nrej:
        res.sample = {"run": tag, "orders of the steps": hist,
                      "rejections": nrej}


def norm(x):
    return float(np.sqrt(np.mean(np.abs(x) ** 2)))


def model(case, log, T, F, t, y, sol, rtol, atol, klast):
    """replay of the calls of one step -> possible orders, rejections, new
    history, or a message"""
    kmax = case["k"]
    nr = 0
    kcap = min(kmax, len(T), klast + 1)
    body, final = log[:-1], log[-1]
    if len(body) < 1:
        return "calls|only %d calls" % len(log)
    for a, (tp, p, fp) in enumerate(body):
        acc = a == len(body) - 1
        h = tp - t
        if not h * case["d"] > 0:
            return "time|attempt at %r from %r" % (tp, t)
        ok, decided, best = [], False, None
        for k in range(kcap, 0, -1):
            ts, fs = np.array(T[-k:]), np.array(F[-k:])
            w = weights(ts, t, tp)
            ref = y + w @ fs
            size = np.abs(y) + np.abs(w) @ np.abs(fs)
            e = float(np.max(np.abs(p - ref) / (np.max(size) + 1e-30)))
            if best is None or e < best[0]:
                best = (e, k)
            if e > 1e-9:
                continue
            tc = np.append(ts, tp)
            fc = np.concatenate((fs, [fp]))
            wc = weights(tc, t, tp)
            yc = y + wc @ fc
            wl = weights(tc[1:], t, tp)
            yl = y + wl @ fc[1:]
            sz = np.max(size) + np.max(np.abs(wc) @ np.abs(fc))
            wt = atol + rtol * 0.5 * (np.abs(p) + np.abs(y))
            err = norm((yc - yl) / wt)
            loose = 1e-6 + 1e-9 * sz / np.min(wt)
            if abs(err - 1) < loose:
                ok.append((k, None, err))
            elif (err < 1) == acc:
                if acc:
                    ec = float(np.max(np.abs(yc - sol.y)) / sz)
                    if ec > 1e-9:
                        best = (ec, k)
                        continue
                ok.append((k, True, err))
            else:
                best = (e, k, err)
        if not ok:
            if best and len(best) == 3:
                return "%s|attempt of order %d with error %r was %s" % (
                    "decision", best[1], best[2],
                    "accepted" if acc else "rejected")
            return "formula|attempt %d, h=%r: %s is no Adams formula of " \
                "order <= %d (nearest: order %d, relative difference %.2e)" % (
                    a, h, "solution" if acc else "predictor", kcap,
                    best[1], best[0])
        if not acc:
            nr += 1
    ks = [o[0] for o in ok]
    if final[0] != sol.t or not np.array_equal(final[1], sol.y):
        return "final|derivative taken at %r, not at the solution" % final[0]
    if abs(tp - sol.t) > 4 * np.spacing(abs(tp)):
        return "time|accepted time %r, attempt %r" % (sol.t, tp)
    if any(o[1] is None for o in ok):
        ks = None
    return ks, nr, T + [sol.t], F + [final[2]]


def dense(sol, ks, T, F, t, y):
    itp = sol.dense_output()
    x = sol.t
    th = np.array([0.0, 0.13, 0.37, 0.5, 0.81, 1.0])
    xs = t + th * (x - t)
    xs[-1] = x
    out = itp(xs)
    best = None
    for k in ks:
        ts, fs = np.array(T[-k - 1:]), np.array(F[-k - 1:])

        def omega(s):
            r = np.ones_like(s)
            for c in ts:
                r = r * (s - c) / (x - t)
            return r
        wo = omega(t + (x - t) * GX) @ GW * (x - t)
        base = weights(ts, t, x)
        c = (sol.y - y - base @ fs) / wo
        e = 0.0
        size = np.max(np.abs(y)) + np.max(np.abs(base) @ np.abs(fs)) + \
            np.max(np.abs(sol.y))
        for j, s in enumerate(xs):
            w = weights(ts, t, s)
            ref = y + w @ fs + c * (omega(t + (s - t) * GX) @ GW * (s - t))
            e = max(e, float(np.max(np.abs(out[:, j] - ref))) / size)
        if best is None or e < best[0]:
            best = (e, k)
    if best[0] > 1e-8:
        return "continuous solution differs from the polynomial of order " \
            "%d by %.2e (relative)" % (best[1], best[0])
    return None
