"""S01 solver instances are independent of each other and of the past."""
import inspect
import itertools
import sys
import numpy as np
import core
import methods as mt
from iso import isolated

ID = "S01"
TECHNIQUE = ("exhaustive exploration of all interleavings of the operations of "
             "two solver instances up to a depth, and of all ordered pairs of "
             "methods as history, on the real classes")
NOTE = ("References are computed in a pristine forked process; results are "
        "compared bit by bit, class and module data before and after.")
RULE = ("(1) every ordered pair (history, method) of the catalogue, histories "
        "= constructed / stepped with continuous solution / failed / run to "
        "the end / run in complex arithmetic; (2) all interleavings of "
        "[construct, step, dense, step, dense, step] of two instances for all "
        "pairs of variants of one class and neighbours of another one; (3) a "
        "complete run of one method inside the right-hand side of another "
        "one at several calls, all ordered pairs. Outcome class = (part, "
        "method, equal).")
ASSUMPTIONS = ["integer counters of the modules are not results"]

OPTS = {   # further option sets, used as histories
    "SSV2stab": [dict(rho_jac=lambda t, y: 3.0)],
}
SC = ["G", "standard", (0.8, -0.3, 0.1, 0.7)]


def cases(tier):
    names = list(mt.ALL)
    for name in names:
        yield dict(part="hist", m=name)
    for name in names:
        yield dict(part="nest", m=name, calls=[1, 4, 9] if tier == "quick"
                   else [0, 1, 2, 3, 4, 5, 7, 9, 12, 15, 20, 26])
    for i, a in enumerate(names):
        same = [b for b in names[i if tier == "quick" else 0:]
                if mt.ALL[b].base == mt.ALL[a].base]
        other = names[(i + 3) % len(names)]
        kind = [b for b in names if mt.ALL[b].kind == mt.ALL[a].kind]
        pairs = same + [other] + (kind if tier != "quick" else [])
        for b in dict.fromkeys(pairs):
            yield dict(part="inter", m=a, b=b)


def fun_of(m, p):
    second = m.kind == "rkn"
    w = 1.0 + 0.5 * p

    def acc(t, x):
        f = np.array([-x[0] * w + 0.5 * x[1] + 0.2 * np.sin(t + p),
                      -0.8 * x[1] + 0.1 * x[0] * x[0]])
        if t > 0.6:
            f = f + 3.0 + p
        return f

    def fun(t, y):
        if second:
            return np.concatenate((y[2:], acc(t, y[:2])))
        return acc(t, y)
    y0 = np.array([1.0, -0.5 + p])
    if second:
        y0 = np.concatenate((y0, [0.1, 0.4]))
    return fun, y0


def build(name, p, fun=None, cplx=False, **kw):
    m = mt.ALL[name]
    f, y0 = fun_of(m, p)
    if cplx:
        y0 = y0 * (0.8 + 0.6j)
    kw.setdefault("rtol", 1e-3 * (1 + p))
    kw.setdefault("atol", 1e-4)
    kw.setdefault("max_step", 1.0)
    return m.make(fun or f, 0.0, y0, 6.0, **kw)


def op(state, what, name, p, fun=None):
    """one operation on a solver held in state; returns an observation"""
    if what == "new":
        state["s"] = build(name, p, fun)
        return None
    s = state["s"]
    if s.status != "running" and what == "step":
        return ("end", s.status)
    if what == "step":
        s.step()
        return (s.t, s.y.tobytes(), s.status, s.nfev)
    o = s.dense_output()
    return o(s.t_old + (s.t - s.t_old) * np.array([0.2, 0.6, 1.0])).tobytes()


SEQ = ["new", "step", "dense", "step", "dense"]


def alone(name, p, seq):
    st = {}
    return [op(st, w, name, p) for w in seq]


def inter(a, b, seq, orders):
    out = []
    for order in orders:
        sa, sb = {}, {}
        ia = ib = 0
        oa, ob = [], []
        for k in order:
            if k == 0:
                oa.append(op(sa, seq[ia], a, 0.0))
                ia += 1
            else:
                ob.append(op(sb, seq[ib], b, 0.25))
                ib += 1
        out.append((oa, ob))
    return out


def orders(n):
    for c in itertools.combinations(range(2 * n), n):
        o = [1] * (2 * n)
        for i in c:
            o[i] = 0
        yield tuple(o)


def data():
    """values of the data of all modules and classes of the package"""
    out = {}
    for mn, mod in list(sys.modules.items()):
        if mn.split(".")[0] != "extensisq" or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if inspect.isclass(v) and v.__module__.startswith("extensisq"):
                for kk, vv in list(vars(v).items()):
                    put(out, "%s.%s" % (v.__name__, kk), vv)
            else:
                put(out, "%s:%s" % (mn, k), v)
    return out


def put(out, key, v):
    if isinstance(v, np.ndarray):
        if v.ndim == 0 and v.dtype.kind in "iu":
            return                         # a counter
        out[key] = (v.shape, str(v.dtype), v.tobytes())
    elif isinstance(v, (bool, int, float, complex, str, tuple)):
        out[key] = repr(v)


def histories(name):
    """operations of the past, executed one after the other"""
    m = mt.ALL[name]

    def constructed():
        for o in [{}] + OPTS.get(name, []):
            build(name, 0.7, **o)
        if m.kind in ("rk", "rkn", "esdirk"):
            for sc in SC:
                build(name, 0.7, sc_params=sc)

    def stepped():
        s = build(name, 0.7)
        for _ in range(4):
            s.step()
            s.dense_output()

    def failed():
        def bad(t, y, f=fun_of(m, 0.7)[0]):
            g = f(t, y)
            if t > 0.3:
                g = np.array(g)
                g[-1] = np.nan
            return g
        s = build(name, 0.7, fun=bad)
        for _ in range(60):
            if s.status == "running":
                try:
                    s.step()
                except Exception:
                    break

    def ended():
        s = build(name, 0.7, rtol=1e-2)
        for _ in range(200):
            if s.status == "running":
                s.step()

    def cplx():
        if m.cplx:
            s = build(name, 0.7, cplx=True)
            for _ in range(3):
                s.step()
                s.dense_output()
    return [constructed, stepped, failed, ended, cplx]


def with_history(hname, which, name):
    d0 = data()
    hs = histories(hname)
    for i in ([which] if which is not None else range(len(hs))):
        hs[i]()
    out = alone(name, 0.0, SEQ)
    d1 = data()
    changed = [k for k in d0 if k in d1 and d0[k] != d1[k]]
    return out, changed


def nested(name, inner, calls):
    m = mt.ALL[name]
    out = []
    for c in calls:
        f, y0 = fun_of(m, 0.0)
        n = [0]
        got = []

        def fun(t, y):
            if n[0] == c:
                n[0] += 1
                got.append(alone(inner, 0.25, SEQ))
            n[0] += 1
            return f(t, y)
        st = {}
        out.append(([op(st, w, name, 0.0, fun) for w in SEQ], got))
    return out


def ok(res, r, key, tag):
    if r[0] == "ok":
        return True
    res.bad("exc:" + key, tag + "\n" + r[1])
    return False


def run(case, res):
    name = case["m"]
    r = isolated(alone, name, 0.0, SEQ)
    if not ok(res, r, name, "alone"):
        return
    ref = r[1]
    if case["part"] == "hist":
        for h in mt.ALL:
            for which in (None, 0, 1, 2, 3, 4) if mt.ALL[h].base == \
                    mt.ALL[name].base else (None,):
                q = isolated(with_history, h, which, name)
                res.traces += 1
                res.transitions += len(SEQ)
                if not ok(res, q, name, "%s after %s" % (name, h)):
                    return
                out, changed = q[1]
                if changed:
                    res.bad("data:" + h, "running %s (history %s) and %s "
                            "changed %s" % (h, which, name, changed))
                if out != ref:
                    res.bad("hist:%s" % name, "results of %s differ after "
                            "%s (history %s)" % (name, h, which))
                    return
                res.states += 1
        res.sig("hist", name, "equal")
    elif case["part"] == "inter":
        b = case["b"]
        r = isolated(alone, b, 0.25, SEQ)
        if not ok(res, r, b, "alone"):
            return
        refb = r[1]
        ods = list(orders(len(SEQ)))
        q = isolated(inter, name, b, SEQ, ods)
        if not ok(res, q, name, "interleaved with " + b):
            return
        for o, (oa, ob) in zip(ods, q[1]):
            res.traces += 1
            res.transitions += len(o)
            res.states += len(o)
            if oa != ref or ob != refb:
                who = name if oa != ref else b
                res.bad("inter:%s" % who, "%s and %s interleaved as %s: "
                        "results of %s differ from those alone" % (
                            name, b, "".join(map(str, o)), who))
                return
        res.sig("inter", name, b)
    else:
        for inner in mt.ALL:
            r = isolated(alone, inner, 0.25, SEQ)
            q = isolated(nested, name, inner, case["calls"])
            if not ok(res, q, name, "nested " + inner) or \
                    not ok(res, r, inner, "alone"):
                return
            for c, (out, got) in zip(case["calls"], q[1]):
                res.traces += 1
                res.transitions += 2 * len(SEQ)
                res.states += 1
                # counting wrapper: nfev is the same
                if out != ref or any(g != r[1] for g in got):
                    res.bad("nest:%s" % name, "%s run inside call %d of the "
                            "right-hand side of %s: results differ (outer "
                            "equal: %s)" % (inner, c, name, out == ref))
                    return
        res.sig("nest", name, "equal")
    if res.sample is None:
        res.sample = {"executions": res.traces}
