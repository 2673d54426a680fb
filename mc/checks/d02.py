"""D02 handed-out results are immutable, observation is passive."""
import itertools
import warnings
import numpy as np
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array
import core
import methods as mt

ID = "D02"
TECHNIQUE = ("exhaustive exploration of all interleavings of step and "
             "dense-output operations up to a depth on the real classes, with "
             "bitwise comparison against the run without observation")
NOTE = ("The reference is the same real class without observation; every "
        "handed-out array and continuous solution is compared bit by bit at "
        "the end of every history.")
RULE = ("All sequences of operations {step, request 0/1/2 continuous "
        "solutions} up to the depth x every method and interpolant x right-"
        "hand sides (smooth, jump with rejections, returning its argument or "
        "a stored array) x direction; and solve_ivp with all combinations of "
        "dense_output, t_eval, events; arrays returned by the right-hand "
        "side are kept and compared after runs with and without the most "
        "frequent stiffness tests. Outcome class = (method, rhs, number "
        "of steps).")
ASSUMPTIONS = ["interpolant 1 of Fi5N replaces the end value (documented); it "
               "is only checked for immutability of older results"]


def cases(tier):
    depth = 5 if tier == "quick" else 8
    for name in mt.ALL:
        for d in (1, -1):
            for rhs in ("smooth", "jump", "self", "stored"):
                for cplx in ((0, 1) if mt.ALL[name].cplx and (
                        rhs == "jump" or tier != "quick") else (0,)):
                    yield dict(kind="ops", m=name, d=d, rhs=rhs, cplx=cplx,
                               depth=depth)
        yield dict(kind="ivp", m=name)
        yield dict(kind="returned", m=name, n=60 if tier == "quick" else 200)
        if mt.ALL[name].kind == "esdirk":
            yield dict(kind="arrays", m=name)


def rhs(kind, second, d, cplx):
    z = 1 + 0.5j if cplx else 1.0

    def acc(t, x):
        f = np.array([-x[0] + 0.5 * x[1] + 0.2 * z * np.sin(t),
                      -0.8 * x[1] + 0.1 * x[0] * x[0]])
        if kind == "jump" and d * t > 0.7:
            f = f + 8.0 * z
        return f
    stored = np.array([0.5, -0.25]) * z

    def fun(t, y):
        if second:
            x = y[:2]
            a = {"smooth": acc, "jump": acc, "self": lambda t, x: x,
                 "stored": lambda t, x: stored}[kind](t, x)
            return np.concatenate((y[2:], a))
        if kind == "self":
            return y
        if kind == "stored":
            return stored
        return acc(t, y)
    return fun, stored


def start(name, d, kind, cplx, **kw):
    m = mt.ALL[name]
    second = m.kind == "rkn"
    fun, stored = rhs(kind, second, d, cplx)
    y0 = np.array([1.0, -0.5])
    if second:
        y0 = np.concatenate((y0, [0.1, 0.4]))
    if cplx:
        y0 = y0 * (0.8 + 0.6j)
    atol = np.full(y0.size, 1e-4)
    s = m.make(fun, 0.0, y0, d * 8.0, rtol=1e-3, atol=atol, max_step=0.9,
               **kw)
    return s, y0, stored, atol


def run(case, res):
    if case["kind"] == "ops":
        ops(case, res)
    elif case["kind"] == "ivp":
        ivp(case, res)
    elif case["kind"] == "returned":
        returned(case, res)
    else:
        arrays(case, res)


def ops(case, res):
    name, d, kind, cplx = case["m"], case["d"], case["rhs"], case["cplx"]
    tag = "%s d=%d rhs=%s cplx=%d" % (name, d, kind, cplx)
    s, y0, stored, atol = start(name, d, kind, cplx)
    ref = []
    dref = []
    while len(ref) < case["depth"] + 2 and s.status == "running":
        s.step()
        if s.status == "failed":
            break
        ref.append((s.t, s.y.copy()))
    depth = min(case["depth"], len(ref))
    u = np.array([0.0, 0.25, 0.5, 0.9, 1.0])
    base = None
    for plan in itertools.product((0, 1, 2), repeat=depth):
        if max(plan) == 2 and plan.count(2) > 1:
            continue
        s, y0, stored, atol = start(name, d, kind, cplx)
        keep0 = (y0.copy(), stored.copy(), atol.copy())
        hold = []
        for i, (k, (t, y)) in enumerate(zip(plan, ref)):
            told = s.t
            s.step()
            res.transitions += 1
            if name != "Fi5N1" and (s.t != t or not np.array_equal(s.y, y)):
                res.bad("passive:" + name, "%s plan %s: step %d at t=%r y=%s, "
                        "without observation t=%r y=%s" % (
                            tag, plan, i, s.t, s.y, t, y))
                return
            hold.append((s.y, s.y.copy(), "solution", i))
            for _ in range(k):
                o = s.dense_output()
                q = told + u * (s.t - told)
                hold.append(((o, q), o(q), "continuous solution", i))
            if name == "Fi5N1" and k:
                # documented: the end value was replaced just now
                hold[-k - 1] = (s.y, s.y.copy(), "solution", i)
        # go on for a while
        for t, y in ref[len(plan):]:
            s.step()
            if name != "Fi5N1" and (s.t != t or not np.array_equal(s.y, y)):
                res.bad("passive:" + name, "%s plan %s: later step at %r, "
                        "without observation %r" % (tag, plan, s.t, t))
                return
        vals = {}
        for obj, val, what, i in hold:
            now = obj[0](obj[1]) if isinstance(obj, tuple) else obj
            if not np.array_equal(now, val):
                res.bad("immutable:" + name, "%s plan %s: %s of step %d "
                        "changed by %g" % (tag, plan, what, i,
                                           np.max(np.abs(now - val))))
                return
            if isinstance(obj, tuple):
                if i in vals and not np.array_equal(vals[i], val):
                    res.bad("repeat:" + name, "%s plan %s: second request of "
                            "step %d differs" % (tag, plan, i))
                    return
                vals[i] = val
        if name != "Fi5N1":
            base = base or {}
            for i, v in vals.items():
                if i in base and not np.array_equal(base[i], v):
                    res.bad("history:" + name, "%s plan %s: continuous "
                            "solution of step %d depends on earlier requests"
                            % (tag, plan, i))
                    return
                base.setdefault(i, v)
        for a, b, w in zip((y0, stored, atol), keep0,
                           ("y0", "stored derivative", "atol")):
            if not np.array_equal(a, b):
                res.bad("input:" + name, "%s plan %s: %s of the user was "
                        "modified" % (tag, plan, w))
                return
        res.states += len(hold)
        res.traces += 1
    res.sig(name, kind, len(ref))
    if res.sample is None:
        res.sample = {"run": tag, "operation plans": res.traces}


def returned(case, res):
    """arrays returned by the right-hand side keep their values, with the
    most frequent stiffness tests"""
    name = case["m"]
    m = mt.ALL[name]
    freqs = (0, 1, 60, 5000) if m.kind in ("rk", "rkn") and \
        name != "CKdisc" else (None,)
    for kind, d, cplx, fr in itertools.product(
            ("smooth", "jump", "self", "stored"), (1, -1),
            (0, 1) if m.cplx else (0,), freqs):
        fun, stored = rhs(kind, m.kind == "rkn", d, cplx)
        kept = []

        def keep(t, y):
            f = fun(t, y)
            if f is not y:
                kept.append((f, f.copy()))
            return f
        y0 = np.array([1.0, -0.5])
        if m.kind == "rkn":
            y0 = np.concatenate((y0, [0.1, 0.4]))
        if cplx:
            y0 = y0 * (0.8 + 0.6j)
        kw = {} if fr is None else {"nfev_stiff_detect": fr}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = m.make(keep, 0.0, y0, d * 1e4, rtol=1e-3, atol=1e-4,
                       max_step=0.3, **kw)
            for i in range(case["n"]):
                if s.status != "running":
                    break
                s.step()
                if s.status != "failed" and i % 7 == 0:
                    s.dense_output()
                res.transitions += 1
        for i, (a, b) in enumerate(kept):
            if not np.array_equal(a, b, equal_nan=True):
                res.bad("returned:" + name, "%s rhs=%s d=%d cplx=%d stiffness "
                        "test %s: array returned at call %d was modified from "
                        "%s to %s" % (name, kind, d, cplx, fr, i, b, a))
                return
        res.states += len(kept)
        res.traces += 1
        res.sig("returned", name, kind)


def ivp(case, res):
    name = case["m"]
    if name == "Fi5N1":
        return
    m = mt.ALL[name]
    second = m.kind == "rkn"
    for kind in ("smooth", "jump"):
        for d in (1, -1):
            fun, _ = rhs(kind, second, d, False)
            y0 = [1.0, -0.5] + ([0.1, 0.4] if second else [])

            def ev(t, y):
                return y[0] - 0.6

            def ev2(t, y):
                return y[1] + 0.3
            out = []
            for dense in (False, True):
                for te in (None, d * np.linspace(0.1, 2.9, 7)):
                    for e in (None, ev, [ev, ev2]):
                        r = solve_ivp(fun, (0.0, d * 3.0), y0, method=m.cls,
                                      dense_output=dense, t_eval=te, events=e,
                                      rtol=1e-3, atol=1e-4, **m.opts)
                        res.traces += 1
                        out.append((dense, te is not None, e is not None, r))
            r0 = out[0][3]
            ref = None
            for dense, te, e, r in out:
                if name == "SSV2stab" and not r0.success:
                    # power iteration at a complex pair of eigenvalues: a
                    # reported limitation of the method
                    continue
                if not r.success:
                    res.bad("ivp:" + name, "%s %s %s %s" % (
                        name, kind, d, r.message))
                    return
                if not te:
                    if not (np.array_equal(r.t, r0.t) and
                            np.array_equal(r.y, r0.y)):
                        res.bad("ivp:" + name, "%s rhs=%s d=%d dense=%s "
                                "events=%s changes the accepted points"
                                % (name, kind, d, dense, e))
                        return
                else:
                    if ref is None:
                        ref = r.y
                    if not np.array_equal(ref, r.y):
                        res.bad("ivp:" + name, "%s rhs=%s d=%d dense=%s "
                                "events=%s changes the output points"
                                % (name, kind, d, dense, e))
                        return
                if dense:
                    v = r.sol(r0.t)
                    if not np.allclose(v, r0.y, rtol=1e-11, atol=1e-10):
                        res.bad("ivpsol:" + name, "%s rhs=%s d=%d: sol does "
                                "not match the accepted points: %g" % (
                                    name, kind, d, np.max(np.abs(v - r0.y))))
                        return
                    if te and not np.allclose(r.sol(r.t), r.y, rtol=1e-11,
                                              atol=1e-10):
                        res.bad("ivpsol:" + name, "t_eval and sol differ")
                        return
                res.states += r.t.size
                res.transitions += 1


def arrays(case, res):
    """matrices of the user are not modified by the implicit methods"""
    name = case["m"]
    m = mt.ALL[name]
    J = np.array([[-2.0, 0.5], [0.0, -0.3]])
    Jn = np.array([[-2.0, 0.5, 0], [0.0, -0.3, 0], [1.0, 1, -1]])
    for dae in (0, 1):
        Jd = Jn if dae else J
        ms = [None] if not dae else []
        if dae:
            Md = np.diag([1.0, 2.0, 0.0])
            ms += [Md, np.diag(Md).copy(), csc_array(Md)]
            y0 = np.array([1.0, 0.5, 1.5])
        else:
            ms += [np.array([[2.0, 0], [1, 1]]), np.array([2.0, 1.0]),
                   csc_array(np.array([[2.0, 0], [1, 1]]))]
            y0 = np.array([1.0, 0.5])
        # column-major storage too: libraries overwrite it in place
        ms += [np.asfortranarray(M) for M in ms if getattr(M, "ndim", 1) == 2
               and isinstance(M, np.ndarray)]
        Jf, Js = np.asfortranarray(Jd), csc_array(Jd)
        for M in ms:
            for jac in (Jd, Jf, Js, lambda t, y: Jd, lambda t, y: Jf,
                        lambda t, y: Js, None):
                for je in (False, True):
                    Mk = None if M is None else M.copy()
                    Jk = jac.copy() if not callable(jac) and jac is not None \
                        else None
                    Jd0, Jf0, Js0 = Jd.copy(), Jf.copy(), Js.copy()
                    y0k = y0.copy()
                    s = m.make(lambda t, y: Jd0 @ y, 0.0, y0, 2.0, jac=jac,
                               M=M, jac_each_step=je, rtol=1e-3)
                    for _ in range(6):
                        if s.status == "running":
                            s.step()
                            if s.status != "failed":
                                s.dense_output()
                    res.traces += 1
                    res.states += 1
                    res.transitions += 6
                    for w, a, b in (("M", M, Mk), ("jac", jac, Jk),
                                    ("y0", y0, y0k), ("jac value", Jd, Jd0),
                                    ("jac value", Jf, Jf0),
                                    ("jac value", Js, Js0)):
                        if b is None:
                            continue
                        if hasattr(a, "toarray"):
                            a, b = a.toarray(), b.toarray()
                        if not np.array_equal(a, b):
                            res.bad("input:" + name, "%s: %s of the user was "
                                    "modified" % (name, w))
                            return
