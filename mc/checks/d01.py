"""D01 contract of the continuous solutions."""
import numpy as np
import core
import methods as mt

ID = "D01"
TECHNIQUE = ("exhaustive exploration of bounded histories (all positions of a "
             "discontinuity, step limits, directions, types) with a contract "
             "monitor on the continuous solution of every accepted step")
NOTE = ("End values, interval, smoothness at the joints (derivatives by exact "
        "polynomial differentiation) and agreement of all forms of evaluation.")
RULE = ("Every method and interpolant x direction x real/complex x dimension x "
        "position of a jump in the right-hand side (so that every step of the "
        "run is hit, with rejections) x step limits x end exactly 1..3 ulp "
        "behind an accepted point. All steps of each run are checked. "
        "Outcome class = (method, smoothness class, rejections).")
ASSUMPTIONS = ["joints compared to 1e-11 (values) and 1e-8 (derivatives) "
               "relative to the size of the data of the step"]

C0 = {"KC3I", "KC4I", "KC4Ia", "Kv3I"}          # documented C0 interpolants
N = 14
_x = 0.5 - 0.5 * np.cos(np.pi * np.arange(N) / (N - 1))
_c = np.ones(N)
_c[0] = _c[-1] = 2
_c *= (-1) ** np.arange(N)
_X = np.tile(_x, (N, 1)).T
D = (_c[:, None] / _c[None, :]) / (_X - _X.T + np.eye(N))
D -= np.diag(D.sum(1))


def cases(tier):
    tj = list(np.linspace(0.05, 4.0, 7 if tier == "quick" else 25))
    for name in mt.ALL:
        for d in (1, -1):
            for cplx in ((0, 1) if mt.ALL[name].cplx else (0,)):
                for n in (2,) if tier == "quick" else (1, 2, 4):
                    for lim in ((None, None), (0.4, None), (None, 0.6),
                                (0.37, 0.01))[::2 if tier == "quick" and cplx
                                              else 1]:
                        yield dict(m=name, d=d, cplx=cplx, n=n, lim=lim,
                                   tj=[1e9] + tj)


class F:
    def __init__(self, n, d, tj, second, mag, cplx):
        self.n, self.d, self.tj, self.second, self.mag = n, d, tj, second, mag
        self.z = 1 + 0.5j if cplx else 1.0
        self.big = 0.0
        self.calls = 0

    def base(self, s, x, v=None):
        i = np.arange(self.n)
        f = -(0.5 + 0.5 * i) * x + 0.3 * self.z * np.sin(2 * s + i)
        f[0] -= 0.05 * x[0] * abs(x[0])
        if s >= self.tj:
            f = f + self.mag * self.z * (1 + 0.1 * i)
        return f

    def __call__(self, t, y):
        self.calls += 1
        if self.calls > 200000:
            raise core.Budget()
        s = self.d * t
        if self.second:
            f = np.concatenate((y[self.n:], self.base(s, y[:self.n])))
        else:
            f = self.d * self.base(s, y)
        self.big = max(self.big, np.max(np.abs(f)))
        return f


def run(case, res):
    for tj in case["tj"]:
        for mag in (0.5, 20.0) if tj < 1e8 else (0.5,):
            ts = one(case, tj, mag, 4.3, res)
        if ts and tj > 1e8:
            # the end of the interval just behind an accepted point
            for k in (1, 2, 3):
                for t1 in ts[1:4]:
                    tb = t1
                    for _ in range(k):
                        tb = np.nextafter(tb, 10)
                    one(case, tj, mag, tb, res)


def one(case, tj, mag, T, res):
    m = mt.ALL[case["m"]]
    d, n = case["d"], case["n"]
    second = m.kind == "rkn"
    y0 = np.array([1.0, -0.5, 0.25, 2.0])[:n]
    if second:
        y0 = np.concatenate((y0, [0.2, 0.3, -0.1, 0.5][:n]))
    if case["cplx"]:
        y0 = y0 * (0.6 + 0.8j)
    f = F(n, d, tj, second, mag, case["cplx"])
    kw = {}
    ms, fs = case["lim"]
    if ms:
        kw["max_step"] = ms
    if fs and fs < T:
        kw["first_step"] = fs
    tag = "%s d=%d cplx=%d n=%d lim=%s tj=%r mag=%r T=%r" % (
        m.name, d, case["cplx"], n, case["lim"], tj, mag, T)
    s = m.make(f, 0.0, y0, d * T, rtol=1e-3, atol=1e-4, **kw)
    prev = None
    ts = [0.0]
    rej = 0
    olds = []
    for i in range(60):
        if s.status != "running":
            break
        t0, ya = s.t, np.array(s.y)
        c0 = f.calls
        f.big = np.max(np.abs(f(s.t, s.y)))
        s.step()
        if s.status == "failed":
            break
        rej += f.calls - c0 > 25
        yb = np.array(s.y)
        o = s.dense_output()
        t1 = s.t
        res.states += 1
        h = t1 - t0
        if m.name == "Fi5N1":
            yb = np.array(s.y)        # documented: replaces the end value
        size = max(np.max(np.abs(ya)), np.max(np.abs(yb))) + \
            abs(h) * f.big + 1e-300
        if {o.t_old, o.t} != {t0, t1} or o.t_min != min(t0, t1) or \
                o.t_max != max(t0, t1):
            res.bad("span:" + m.name, "%s: step %r..%r, continuous solution "
                    "%r..%r" % (tag, t0, t1, o.t_old, o.t))
            return ts
        va, vb = o(t0), o(t1)
        if va.shape != ya.shape or va.dtype != ya.dtype:
            res.bad("shape:" + m.name, "%s: %s %s" % (tag, va.shape, va.dtype))
            return ts
        for w, v, y in (("start", va, ya), ("end", vb, yb)):
            # (velocities of Hermite interpolants: differences of positions)
            if not np.max(np.abs(v - y)) <= 1e-11 * size + (
                    2e-13 * size / abs(h) if second else 0):
                res.bad("%s:%s" % (w, m.name), "%s: step %d %r..%r value %s "
                        "instead of %s" % (tag, i, t0, t1, v, y))
                return ts
        # forms of evaluation
        q = t0 + h * np.array([0.0, 0.3, 1.0, 0.71, 0.3, 0.05])
        q[2] = t1
        V = o(q)
        if V.shape != (y0.size, q.size):
            res.bad("shape:" + m.name, "%s: array result %s" % (tag, V.shape))
            return ts
        for j, x in enumerate(q):
            for y in (o(x), o(float(x)), o(np.array([x]))[:, 0],
                      o(q[::-1])[:, q.size - 1 - j]):
                if not np.max(np.abs(y - V[:, j])) <= 1e-13 * size:
                    res.bad("form:" + m.name, "%s: step %d, value at %r "
                            "depends on the form of the argument" % (tag, i,
                                                                     x))
                    return ts
        # smoothness at the joints, by polynomial differentiation inside the
        # first and last 40 % of the step
        if abs(h) > 1e-9 * (1 + abs(t0)):
            va = (o(t0 + 0.4 * h * _x) @ D.T)[:, 0] / (0.4 * h)
            vb = (o(t0 + h * (0.6 + 0.4 * _x)) @ D.T)[:, -1] / (0.4 * h)
            tol = (1e-8 + 1e-11 / abs(h)) * size / abs(h)
            if prev is not None and m.name not in C0:
                tt = max(tol, prev[1])
                if not np.max(np.abs(va - prev[0])) <= tt:
                    res.bad("c1:" + m.name, "%s: step %d: slope %s at %r, "
                            "%s before" % (tag, i, va, t0, prev[0]))
                    return ts
            if m.kind != "esdirk" and m.name != "Fi5N1":
                fa, fb = f(t0, ya), f(t1, yb)
                if (tj < min(d * t0, d * t1) or tj > max(d * t0, d * t1)) \
                        and not (np.max(np.abs(va - fa)) <= tol and
                                 np.max(np.abs(vb - fb)) <= tol):
                    res.bad("slope:" + m.name, "%s: step %d: slopes %s %s, "
                            "derivatives %s %s" % (tag, i, va, vb, fa, fb))
                    return ts
            prev = (vb, tol)
            if second and m.name not in ("Fi5N2",):
                W = o(t0 + h * _x)
                dp = (W[:n] @ D.T) / h - W[n:]
                if not np.max(np.abs(dp)) <= tol:
                    res.bad("vel:" + m.name, "%s: step %d: velocity is not "
                            "the derivative of the position" % (tag, i))
                    return ts
        else:
            prev = None
        res.transitions += 1
        ts.append(d * t1)
        olds.append((o, q, V))
    for o, q, V in olds:
        if not np.array_equal(o(q), V):
            res.bad("old:" + m.name, tag + ": continuous solution changed")
            break
    res.traces += 1
    res.sig(m.name, "C0" if m.name in C0 else "C1", min(rej, 3))
    if res.sample is None and rej:
        res.sample = {"run": tag, "steps": len(ts) - 1}
    return ts
