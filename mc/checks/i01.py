"""I01 interval contract."""
import numpy as np
import core
import methods as mt
from envs import Script

ID = "I01"
TECHNIQUE = ("explicit exploration of the real step loop over a complete grid "
             "of intervals, directions, step limits and methods")
NOTE = ("Every run of the grid is executed to its end on the real classes; "
        "floating point corner cases outside the grid are not covered.")
RULE = ("Complete grid of start times x interval lengths (chosen so that the "
        "difference end - start rounds) x direction x maximum step x first "
        "step x right-hand side for every method; every run is executed to "
        "its end. Outcome class = (method, number of steps, exact end). Right-"
        "hand sides: decay, slow decay, zero, constant, and jumps at a grid "
        "of positions. Infinite end times: 30 (60) steps, compared with the "
        "run to a far end time when the first step is given.")
ASSUMPTIONS = ["right-hand side times may miss the interval by 4 ulp",
               "stage abscissae of the published tableau (class attribute C) "
               "may lie beyond the step (KC4I: 1.04)",
               "intervals and maximum steps longer than 1e-8 times the "
               "largest time (the documented minimum step is relative)"]

T0 = [0.0, 0.1, -0.1, 1 / 3, -1 / 3, -1.0, 7.3, -1000.7, 1e6 / 7]
LEN = [0.1, 1 / 3, 1.0, np.pi, 13.7]
LEN_T = LEN + [1e-3, 1e-5 / 3, 250.1, 0.7, 2 / 3]
T0_T = T0 + [1e-9, -1e-3, 2 / 3, -np.e, 1e4 + 1 / 3, -123456.789]


def steps(tier):
    a = [(None, None), (0.1, None), (1 / 3, None), (0.999, None),
         (None, 1.0), (None, 0.995), (None, 0.001), (0.26, 0.5),
         (1 / 7, 1 / 7), (7.0, None)]
    if tier == "thorough":
        a += [(1.0, None), (0.5, None), (0.9, None), (0.92, 0.95),
              (None, 0.92), (None, 0.5), (None, 1 / 3), (0.07, 0.03),
              (0.503, 0.25), (0.0101, None), (1.5, None), (40.0, 0.3)]
    return a


def cases(tier):
    t0s, lens = (T0, LEN) if tier == "quick" else (T0_T, LEN_T)
    for name in mt.BASE + ["BS5best", "SWAG4", "SWAG1"]:
        for t0 in t0s:
            yield dict(m=name, t0=t0, lens=lens, steps=steps(tier),
                       rhs=["decay", "zero", "const", "slow"])
        # jumps of the right-hand side at a grid of positions
        nj = 24 if tier == "quick" else 96
        for t0 in (0.0, -1 / 3, 7.3):
            yield dict(m=name, t0=t0, lens=[1.0, np.pi], steps=[(None, None)],
                       rhs=["jump:%d:%d" % (i, nj) for i in range(nj)])
    # pairs of unrelated end points: t0 + (tb - t0) rounds in both directions
    ends = [x * s for x in (0.1, 0.7, 1 / 3, 1e-3, 2.3, 17.1)
            for s in (1, -1)]
    if tier == "thorough":
        ends += [x * s for x in (1e-6 / 3, 0.123456789, 5 / 7, 999.9)
                 for s in (1, -1)]
    for name in mt.BASE:
        for t0 in ends:
            yield dict(m=name, t0=t0, ends=ends,
                       steps=[(None, 1.0), (None, None)],
                       rhs=["zero", "decay"])
    # no end time: the integration is stepped by hand
    for name in mt.BASE + ["BS5best", "SWAG4", "SWAG1"]:
        yield dict(m=name, part="unbounded", n=30 if tier == "quick" else 60,
                   t0s=[0.0, 0.1, -1.0, 7.3, -1000.7] if tier == "quick"
                   else T0_T)


def rhs(name, L, kind, t0=0.0, d=1):
    if name.startswith("jump"):
        i, n = map(int, name.split(":")[1:])
        tj = (i + 0.5) / n * L

        def f(t, y):
            p = [0.2, -1.0, 30.0][i % 3] if d * (t - t0) < tj else 1.0
            a = np.array([p, np.cos(3 * (t - t0) / L)]) / L
            if kind == "rkn":
                return np.concatenate((y[2:], a / L))
            return a
        return f, np.array([1.0, 0.3] * (1 + (kind == "rkn")))
    if kind == "rkn":
        k = {"decay": 1.0, "slow": 0.03, "zero": 0.0, "const": 0.0}[name] / L
        c = 1.0 / L ** 2 if name == "const" else 0.0

        def f(t, y):
            return np.array([y[1], -k * k * y[0] + c])
        return f, np.array([1.0, 0.0])
    if name == "slow":
        return (lambda t, y: -y / (30 * L)), np.array([1.0, 0.3])
    if name == "decay":
        return (lambda t, y: -y / L), np.array([1.0, 0.3])
    if name == "zero":
        return (lambda t, y: np.zeros_like(y)), np.array([1.0, 0.3])
    return (lambda t, y: np.full_like(y, 1 / L)), np.array([1.0, 0.3])


def unbounded(name, t0, d, r, L, ms, fs, nmax, res):
    """infinite end time: well defined and the same as a far end time"""
    m = mt.ALL[name]
    f, y0 = rhs(r, L, m.kind, t0, d)
    if r == "decay" and m.kind != "rkn":
        f0 = f

        def f(t, y):
            return f0(t, y) + np.array([np.cos(t / L), 0.0]) / L
    kw = {}
    if ms is not None:
        kw["max_step"] = ms * L
    if fs is not None:
        kw["first_step"] = fs * L
    tag = "%s/%s/%r->%rinf/L=%r/max=%s/first=%s" % (name, r, t0, d, L, ms, fs)
    sols, funs = [], []
    for tb in (d * np.inf, t0 + d * 1e9 * L):
        fun = Script(f, budget=100000)
        funs.append(fun)
        sols.append(m.make(fun, t0, y0, tb, rtol=1e-3, atol=1e-6, **kw))
        if fs is None or m.kind == "ssv":
            break
    sol, fun = sols[0], funs[0]
    for n in range(nmax):
        prev = sol.t
        msg = sol.step()
        res.transitions += 1
        if sol.status != "running":
            res.bad("ufail:" + tag, "%s at %r: %s" % (sol.status, sol.t, msg))
            return
        if not (d * (sol.t - prev) > 0 and np.isfinite(sol.t)
                and sol.t_old == prev and np.all(np.isfinite(sol.y))):
            res.bad("uorder:" + tag, "step from %r to %r" % (prev, sol.t))
            return
        if not (np.isfinite(fun.tmin) and np.isfinite(fun.tmax)
                and d * ((fun.tmin if d > 0 else fun.tmax) - t0)
                >= -4 * np.spacing(abs(t0))):
            res.bad("uoutside:" + tag, "right-hand side evaluated in "
                    "[%r, %r]" % (fun.tmin, fun.tmax))
            return
        if len(sols) > 1 and abs(sol.t - t0) < 1e8 * L:
            sols[1].step()
            if sols[1].t != sol.t or not np.array_equal(sols[1].y, sol.y):
                res.bad("ufar:" + tag, "step %d: t=%r y=%s, with a far end "
                        "t=%r y=%s" % (n, sol.t, sol.y, sols[1].t, sols[1].y))
                return
    res.traces += 1
    res.states += nmax
    res.sig("unbounded", name, r, d, len(sols))


def run(case, res):
    if case.get("part"):
        for t0 in case["t0s"]:
            for d in (1, -1):
                for r in ("decay", "slow", "zero", "const"):
                    for L in (1e-2, 1.0, 30.0):
                        if L < 1e-4 * abs(t0):
                            continue
                        for ms, fs in ((None, None), (None, 0.1), (0.5, None),
                                       (0.3, 0.3)):
                            unbounded(case["m"], t0, d, r, L, ms, fs,
                                      case["n"], res)
        return
    for r in case["rhs"]:
        if "ends" in case:
            spans = [(case["t0"], tb) for tb in case["ends"]
                     if tb != case["t0"]]
        else:
            spans = [(case["t0"], case["t0"] + s * L)
                     for L in case["lens"] for s in (1, -1)]
        for t0, tb in spans:
            for ms, fs in case["steps"]:
                one(case["m"], r, t0, tb, ms, fs, res)


def one(name, r, t0, tb, ms, fs, res):
    m = mt.ALL[name]
    L = abs(tb - t0)
    if L * (ms or 1) < 1e-8 * max(abs(t0), abs(tb)):
        return
    f, y0 = rhs(r, L, m.kind, t0, np.sign(tb - t0))
    fun = Script(f, budget=100000)
    kw = {}
    if ms is not None:
        kw["max_step"] = ms * L
    if fs is not None:
        kw["first_step"] = fs * L
    tag = "%s/%s/%r->%r/max=%s/first=%s" % (name, r, t0, tb, ms, fs)
    ulp = np.spacing(max(abs(t0), abs(tb)))
    lo, hi = min(t0, tb) - 4 * ulp, max(t0, tb) + 4 * ulp
    d = np.sign(tb - t0)
    # one published tableau has an abscissa beyond the step (1.04)
    over = max(0.0, float(np.max(getattr(m.cls, "C", 0.0))) - 1) * 1.0001 * L
    lo, hi = (lo, hi + over) if d > 0 else (lo - over, hi)
    sol = m.make(fun, t0, y0, tb, rtol=1e-3, atol=1e-6, **kw)
    n = 0
    prev = sol.t
    while sol.status == "running":
        msg = sol.step()
        n += 1
        res.transitions += 1
        if sol.status == "failed":
            res.bad("fail:" + tag, "failed at %r: %s" % (sol.t, msg))
            return
        if not d * (sol.t - prev) > 0:
            res.bad("order:" + tag, "%r -> %r" % (prev, sol.t))
            return
        if sol.t_old != prev:
            res.bad("told:" + tag, "t_old %r, previous %r"
                    % (sol.t_old, prev))
        if d * (sol.t - tb) > 0:
            res.bad("past:" + tag, "t=%r past the end" % sol.t)
        prev = sol.t
        if n > 5000:
            res.bad("slow:" + tag, "more than 5000 steps, t=%r" % sol.t)
            return
    res.traces += 1
    res.states += n
    if sol.t != tb:
        res.bad("end:" + tag, "ended at %r instead of %r" % (sol.t, tb))
    if fun.tmin < lo or fun.tmax > hi:
        res.bad("outside:" + tag, "right-hand side evaluated in [%r, %r]"
                % (fun.tmin, fun.tmax))
    res.sig(name, r.split(":")[0], min(n, 40), sol.t == tb)
    if res.sample is None:
        res.sample = {"run": tag, "steps": n, "calls": fun.n}
