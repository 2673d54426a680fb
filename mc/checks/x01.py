"""X01 invalid input is refused and every valid form is accepted."""
import itertools
import warnings
import numpy as np
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array, csr_array, coo_array
import core
import methods as mt

ID = "X01"
TECHNIQUE = ("exhaustive enumeration of all combinations of one invalid or "
             "alternative form per argument with every method and option on "
             "the real code, bitwise comparison with the plain form")
NOTE = ("Refusal means an exception of the constructor before any step; "
        "acceptance means the same accepted points and continuous solution, "
        "bit for bit, as the plain form.")
RULE = ("method and option x direction x every listed alternative or invalid "
        "form of every argument; pairs of alternative forms; all small linear "
        "systems and initial values for the structure test of the Nystroem "
        "methods. Outcome class = (method, form, outcome).")
ASSUMPTIONS = ["structure of second order problems can only be recognised "
               "near the initial point",
               "tolerances that are NaN need not be refused, but may not give "
               "a successful integration"]
N = 4
ERR = (ValueError, TypeError, AssertionError)


def base(t, y):
    """second order, velocity independent, real or complex"""
    return np.array([y[2], y[3], -y[0] + 0.25 * y[1], -2 * y[1] + 0.5 * t])


def heat(t, y):
    """real negative eigenvalues"""
    return np.array([y[1] - 2 * y[0], y[0] - 2 * y[1] + y[2],
                     y[1] - 2 * y[2] + y[3], y[2] - 2 * y[3] + 0.5 * t])


JAC = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0.25, 0, 0],
                [0, -2, 0, 0]])
Y0 = [1, 2, 0, 1]


class Sub(np.ndarray):
    pass


def ro(x):
    x = np.array(x, float)
    x.flags.writeable = False
    return x


# alternative forms: name -> function of the keyword dictionary -> (alternative,
# plain); keys fun t0 y0 tb are the positional arguments
def alternatives(m):
    A = {}
    base = rhs_of(m)

    def a(name, alt, plain=None):
        A[name] = (alt, plain or {})
    a("y0 list", dict(y0=list(Y0)))
    a("y0 float list", dict(y0=[float(v) for v in Y0]))
    a("y0 tuple", dict(y0=tuple(Y0)))
    a("y0 int array", dict(y0=np.array(Y0)))
    a("y0 int8 array", dict(y0=np.array(Y0, np.int8)))
    a("y0 float32", dict(y0=np.array(Y0, np.float32)))
    a("y0 strided", dict(y0=np.array([Y0, Y0], float).T[:, 1]))
    a("y0 reversed view", dict(y0=np.array(Y0[::-1], float)[::-1]))
    a("y0 read only", dict(y0=ro(Y0)))
    a("y0 subclass", dict(y0=np.array(Y0, float).view(Sub)))
    a("times float", dict(times=float))
    a("times numpy", dict(times=np.float64))
    a("times numpy int", dict(times=np.int64))
    for form, conv in (("list", list), ("tuple", tuple), ("array", np.array),
                       ("read only", ro)):
        a("atol " + form, dict(atol=conv([1e-4] * N)))
    a("atol numpy", dict(atol=np.float64(1e-4)))
    a("atol 0-d", dict(atol=np.array(1e-4)))
    a("atol int", dict(atol=1), dict(atol=1.0))
    a("atol int list", dict(atol=[1] * N), dict(atol=1.0))
    a("atol zero", dict(atol=0.0), dict(atol=1e-170))
    a("atol int zero", dict(atol=0), dict(atol=1e-170))
    a("rtol numpy", dict(rtol=np.float64(1e-4)))
    a("rtol large", dict(rtol=5.0), dict(rtol=0.1))
    a("rtol inf", dict(rtol=np.inf), dict(rtol=0.1))
    if m.name not in ("SSV2stab", "SWAG1", "HS2I", "HS2Ia"):
        a("rtol zero", dict(rtol=0.0, atol=1e-6, short=1),
          dict(rtol=10 * np.finfo(float).epsneg, atol=1e-6, short=1))
    a("first_step numpy", dict(first_step=np.float64(0.25)),
      dict(first_step=0.25))
    a("first_step int", dict(first_step=1), dict(first_step=1.0))
    a("first_step whole", dict(first_step=2), dict(first_step=2.0))
    a("first_step None", dict(first_step=None))
    a("max_step int", dict(max_step=1), dict(max_step=1.0))
    a("max_step numpy", dict(max_step=np.float64(0.125)),
      dict(max_step=0.125))
    a("max_step inf", dict(max_step=np.inf))
    a("max_step huge", dict(max_step=1e300))
    a("defaults", dict(rtol=1e-3, atol=1e-6, max_step=np.inf,
                       first_step=None, vectorized=False), dict(rtol=None,
                                                                atol=None))
    a("extraneous", dict(lband=1, min_step=0.0, foo="bar"))
    a("fun list", dict(fun=lambda t, y: base(t, y).tolist()))
    a("fun tuple", dict(fun=lambda t, y: tuple(base(t, y))))
    a("fun strided", dict(fun=lambda t, y: np.array(
        [base(t, y)] * 2).T[:, 0]))
    a("fun read only", dict(fun=lambda t, y: freeze(base(t, y))))
    a("fun subclass", dict(fun=lambda t, y: base(t, y).view(Sub)))
    a("fun method", dict(fun=Obj(base).rhs))
    a("fun object", dict(fun=Obj(base)))
    if m.kind == "swag":
        if m.name == "SWAG":
            a("k_max default", dict(k_max=12))
    if m.kind == "ssv":
        a("const_jac default", dict(const_jac=False, rho_jac=None))
        a("rho_jac numpy", dict(rho_jac=lambda t, y: np.float64(2.5)),
          dict(rho_jac=lambda t, y: 2.5))
    if m.kind in ("rk", "rkn"):
        a("support", dict(support_complex=True))
        if m.name != "CKdisc":
            a("nfev_stiff_detect default", dict(nfev_stiff_detect=5000))
            a("sc standard", dict(sc_params=(1, 0, 0, 0.9)),
              dict(sc_params="standard"))
            a("sc G", dict(sc_params=(0.7, -0.4, 0, 0.9)),
              dict(sc_params="G"))
            a("sc S", dict(sc_params=(0.6, -0.2, 0, 0.9)),
              dict(sc_params="S"))
            a("sc float", dict(sc_params=(1.0, 0.0, 0.0, 0.9)),
              dict(sc_params="standard"))
    if m.kind == "esdirk":
        a("sc standard", dict(sc_params=(1, 0, 0, 0.8)),
          dict(sc_params="standard"))
        a("sc G", dict(sc_params=(2., -1., -1., 0.8)), dict(sc_params="G"))
        a("jac list", dict(jac=JAC.tolist()), dict(jac=JAC))
        a("jac int", dict(jac=(4 * JAC).astype(int), scale4=1),
          dict(jac=4 * JAC, scale4=1))
        a("jac fun list", dict(jac=lambda t, y: JAC.tolist()),
          dict(jac=lambda t, y: JAC))
        a("jac csr", dict(jac=csr_array(JAC)), dict(jac=csc_array(JAC)))
        a("jac coo", dict(jac=coo_array(JAC)), dict(jac=csc_array(JAC)))
        a("jac fun csr", dict(jac=lambda t, y: csr_array(JAC)),
          dict(jac=lambda t, y: csc_array(JAC)))
        a("jac fun coo", dict(jac=lambda t, y: coo_array(JAC)),
          dict(jac=lambda t, y: csc_array(JAC)))
        a("jac read only", dict(jac=ro(JAC)), dict(jac=JAC))
        a("jac fun read only", dict(jac=lambda t, y: ro(JAC)),
          dict(jac=lambda t, y: JAC.copy()))
        a("sparsity csr", dict(jac_sparsity=csr_array(JAC != 0)),
          dict(jac_sparsity=csc_array(JAC != 0)))
        a("sparsity coo", dict(jac_sparsity=coo_array(JAC != 0)),
          dict(jac_sparsity=csc_array(JAC != 0)))
        a("sparsity int", dict(jac_sparsity=csc_array((JAC != 0) * 3)),
          dict(jac_sparsity=csc_array(JAC != 0)))
        M = np.diag([1.0, 2.0, 1.0, 4.0])
        F = M + np.diag([0.5, 0, 0], 1)
        a("M list", dict(M=F.tolist()), dict(M=F))
        a("M int", dict(M=M.astype(int)), dict(M=M))
        a("M int vector", dict(M=[1, 2, 1, 4]),
          dict(M=np.array([1.0, 2.0, 1.0, 4.0])))
        a("M tuple vector", dict(M=(1, 2, 1, 4)),
          dict(M=np.array([1.0, 2.0, 1.0, 4.0])))
        a("M csr", dict(M=csr_array(F)), dict(M=csc_array(F)))
        a("M coo", dict(M=coo_array(F)), dict(M=csc_array(F)))
        a("M read only", dict(M=ro(F)), dict(M=F))
        a("M None", dict(M=None))
        a("each step", dict(jac_each_step=False))
    dflt = {"BS5": "low", "Fi5N": 0, "Mu5Nmb": "better", "KC3I": "C0",
            "KC4I": "C0", "KC4Ia": "C0", "Kv3I": "C0"}
    if m.name in dflt:
        a("interpolant default", dict(interpolant=dflt[m.name]))
    if m.name == "Mu5Nmb":
        a("scale_embedded default", dict(scale_embedded=True))
    return A


def freeze(x):
    x.flags.writeable = False
    return x


class Obj:
    def __init__(self, base):
        self.base = base

    def rhs(self, t, y):
        return self.base(t, y)

    __call__ = rhs


def rhs_of(m):
    return heat if m.kind == "ssv" else base


def invalid(m):
    V = {}
    for name, v in (("negative", -1e-3), ("int", 1), ("string", "a"),
                    ("list", [1e-3] * N), ("array", np.full(N, 1e-3)),
                    ("complex", 1e-3 + 0j), ("0-d", np.array(1e-3))):
        V["rtol " + name] = dict(rtol=v)
    for name, v in (("negative", -1e-3), ("short", [1e-3] * (N - 1)),
                    ("long", [1e-3] * (N + 1)), ("one", [1e-3]),
                    ("empty", []), ("2-d", np.full((N, 1), 1e-3)),
                    ("one negative", [1e-3] * (N - 1) + [-1e-9]),
                    ("string", "a")):
        V["atol " + name] = dict(atol=v)
    for name, v in (("zero", 0.0), ("negative", -0.1), ("int zero", 0),
                    ("too long", 2.5), ("inf", np.inf)):
        V["first_step " + name] = dict(first_step=v)
    for name, v in (("zero", 0.0), ("negative", -0.1), ("-inf", -np.inf)):
        V["max_step " + name] = dict(max_step=v)
    for name, v in (("2-d", [Y0]), ("column", [[v] for v in Y0]), ("0-d", 1.0),
                    ("nan", [1, 2, np.nan, 1]), ("inf", [1, 2, np.inf, 1]),
                    ("string", ["a", "b", "c", "d"])):
        V["y0 " + name] = dict(y0=v)
    V["fun long"] = dict(fun=lambda t, y: np.append(base(t, y), 1.0))
    V["fun short"] = dict(fun=lambda t, y: base(t, y)[:-1])
    V["fun 2-d"] = dict(fun=lambda t, y: np.array([base(t, y)] * 2).T)
    V["fun not callable"] = dict(fun=base(0, np.array(Y0, float)))
    if m.kind == "ssv":
        V["complex"] = dict(y0=np.array(Y0) + 0j)
        for v in (1, 0, None, "no"):
            V["const_jac %r" % (v,)] = dict(const_jac=v)
        for v in (1.0, "a", [1.0]):
            V["rho_jac %r" % (v,)] = dict(rho_jac=v)
        for v in (-1.0, 0.0, 1, None, np.ones(N)):
            V["rho_jac returns %s" % (v,)] = dict(rho_jac=lambda t, y: v) \
                if False else dict(rho_jac=Const(v))
    if m.kind == "swag":
        for v in (0, 13, -1, 2.0, "a", None):
            V["k_max %r" % (v,)] = dict(k_max=v)
    if m.kind in ("rk", "rkn", "esdirk") and m.name != "CKdisc":
        for name, v in (("string", "X"), ("list", [1, 0, 0, 0.9]),
                        ("short", (1, 0, 0)), ("long", (1, 0, 0, 0.9, 1)),
                        ("number", 0.9)):
            V["sc_params " + name] = dict(sc_params=v)
    if m.kind in ("rk", "rkn") and m.name != "CKdisc":
        for v in (-1, 100.0, "a", None):
            V["nfev_stiff_detect %r" % (v,)] = dict(nfev_stiff_detect=v)
    if m.base in ("BS5", "Fi5N", "Mu5Nmb", "KC3I", "KC4I", "KC4Ia", "Kv3I"):
        for v in ("worst", 7, -1, "c0", "", 0.5):
            V["interpolant %r" % (v,)] = dict(interpolant=v)
    if m.kind == "esdirk":
        for name, J in (("small", JAC[:2, :2]), ("wide", np.ones((N, N + 1))),
                        ("1-d", np.ones(N)), ("big", np.ones((N + 1, N + 1))),
                        ("3-d", np.ones((1, N, N)))):
            V["jac " + name] = dict(jac=J)
            V["jac fun " + name] = dict(jac=Const(J))
            if J.ndim == 2:
                V["jac sparse " + name] = dict(jac=csc_array(J))
                V["jac fun sparse " + name] = dict(jac=Const(csc_array(J)))
        V["jac string"] = dict(jac="2-point")
        for name, M in (("small", np.eye(2)), ("wide", np.ones((N, N + 1))),
                        ("big", np.eye(N + 1)), ("vector", np.ones(N + 1)),
                        ("vector short", np.ones(N - 1)), ("one", [1.0]),
                        ("3-d", np.ones((1, N, N))), ("0-d", 2.0)):
            V["M " + name] = dict(M=M)
            if np.ndim(M) == 2:
                V["M sparse " + name] = dict(M=csc_array(M))
        V["sparsity small"] = dict(jac_sparsity=np.ones((2, 2)))
        V["sparsity big"] = dict(jac_sparsity=np.ones((N + 1, N + 1)))
        V["sparsity 1-d"] = dict(jac_sparsity=np.ones(N))
    return V


class Const:
    def __init__(self, v):
        self.v = v

    def __call__(self, t, y):
        return self.v


def cases(tier):
    th = tier != "quick"
    for name in mt.ALL:
        for d in (1, -1):
            yield dict(part="alt", m=name, d=d, cplx=0)
            if mt.ALL[name].cplx:
                yield dict(part="alt", m=name, d=d, cplx=1)
            yield dict(part="bad", m=name, d=d)
            yield dict(part="ivp", m=name, d=d)
            if th:
                for k in range(8):
                    yield dict(part="pairs", m=name, d=d, k=k)
    for name in mt.RKN:
        for xv in itertools.product((-1.0, 0.0, 1.0, 0.5, -3.0), repeat=2):
            yield dict(part="struct", m=name, xv=xv)
        yield dict(part="struct2", m=name)


def build(m, d, kw, cplx=0):
    kw = dict(kw)
    fun = kw.pop("fun", rhs_of(m))
    if kw.pop("scale4", 0):
        def fun(t, y):
            return 4 * (JAC @ y)
    t0, tb = (0, 2) if not kw.pop("short", 0) else (0, 0.01)
    conv = kw.pop("times", None)
    if conv:
        t0, tb = conv(t0), conv(tb)
    y0 = kw.pop("y0", np.array(Y0, float))
    if cplx:
        y0 = np.asarray(y0) + 1j * np.array([0, 1, 1, 0.5])
    kw.setdefault("rtol", 1e-4)
    kw.setdefault("atol", 1e-4)
    for k in ("rtol", "atol"):
        if kw[k] is None:
            del kw[k]
    if d < 0:
        f0 = fun
        t0, tb = tb, t0
        fun = f0
    return m.make(fun, t0, y0, tb, **kw)


def record(sol, limit=4000):
    ts, ys, ds = [sol.t], [np.array(sol.y)], []
    n = 0
    while sol.status == "running" and n < limit:
        sol.step()
        n += 1
        if sol.status == "failed":
            break
        ts.append(sol.t)
        ys.append(np.array(sol.y))
        do = sol.dense_output()
        th = sol.t_old + (sol.t - sol.t_old) * 0.375
        ds.append(np.array(do(th)))
    return sol.status, np.array(ts), np.array(ys), np.array(ds)


def same(a, b):
    return a[0] == b[0] and all(np.array_equal(x, y)
                                for x, y in zip(a[1:], b[1:]))


def run(case, res):
    m = mt.ALL[case["m"]]
    if case["part"].startswith("struct"):
        return structure(case, m, res)
    d = case["d"]
    if case["part"] == "bad":
        return bad(case, m, d, res)
    if case["part"] == "ivp":
        return ivp(case, m, d, res)
    alts = alternatives(m)
    cache = {}

    def plain(p, cplx):
        key = repr(sorted((k, str(v)) for k, v in p.items()))
        if key not in cache:
            cache[key] = record(build(m, d, p, cplx))
        return cache[key]
    if case["part"] == "alt":
        for name, (alt, p) in alts.items():
            if case["cplx"] and name == "y0 float32":
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = record(build(m, d, alt, case["cplx"]))
            if name == "extraneous" and not any(
                    "foo" in str(x.message) for x in w):
                res.bad("nowarning", "%s: no warning for an unknown argument"
                        % m.name)
            ref = plain(p, case["cplx"])
            compare(case, m, name, got, ref, res)
    else:
        names = [n for n in alts if not alts[n][1]]
        pairs = list(itertools.combinations(names, 2))[case["k"]::8]
        for n1, n2 in pairs:
            a1, a2 = alts[n1][0], alts[n2][0]
            if set(a1) & set(a2):
                continue
            got = record(build(m, d, {**a1, **a2}))
            compare(case, m, n1 + " & " + n2, got, plain({}, 0), res)


def compare(case, m, name, got, ref, res):
    if ref[0] != "finished":
        res.bad("ref:" + m.name, "%s %s: plain form %s" % (m.name, name,
                                                          ref[0]))
        return
    if not same(got, ref):
        k = next((i for i in range(min(len(got[1]), len(ref[1])))
                  if got[1][i] != ref[1][i]
                  or not np.array_equal(got[2][i], ref[2][i])), None)
        res.bad("form:%s:%s" % (m.kind, name), "%s %s d=%d: not the same "
                "result as the plain form; status %s, %s; first difference "
                "at point %s" % (m.name, name, case["d"], got[0], ref[0], k))
    res.traces += 2
    res.states += len(got[1])
    res.transitions += len(got[1]) - 1
    res.sig(m.name, name, case.get("cplx", 0))
    if res.sample is None:
        res.sample = {"method": m.name, "form": name, "steps": len(got[1])}


def bad(case, m, d, res):
    for name, kw in invalid(m).items():
        res.traces += 1
        res.states += 1
        res.transitions += 1
        try:
            build(m, d, kw)
        except ERR:
            res.sig(m.name, name, "refused")
            continue
        except Exception as e:
            res.sig(m.name, name, type(e).__name__)
            res.bad("error:%s:%s" % (m.kind, name), "%s %s d=%d: %r is not a "
                    "clear refusal" % (m.name, name, d, e))
            continue
        res.bad("accepted:%s:%s" % (m.kind, name), "%s d=%d: %s is accepted"
                % (m.name, d, name))
    # NaN as a tolerance may not lead to a success
    for kw in (dict(rtol=np.nan), dict(atol=np.nan), dict(atol=[np.nan] * N),
               dict(atol=[1e-3, np.nan, 1e-3, 1e-3])):
        try:
            sol = build(m, d, kw)
            out = record(sol)
        except ERR:
            res.sig(m.name, "nan", "refused")
            continue
        res.sig(m.name, "nan", out[0])
        if out[0] == "finished":
            res.bad("nan:" + m.kind, "%s d=%d %s: integration succeeds" % (
                m.name, d, kw))
    # an empty interval is finished without a step
    sol = m.make(rhs_of(m), 1.0, np.array(Y0, float), 1.0)
    msg = sol.step()
    if sol.status != "finished" or sol.t != 1.0 or not np.array_equal(
            sol.y, np.array(Y0, float)):
        res.bad("empty:" + m.kind, "%s: empty interval: %s %s" % (
            m.name, sol.status, msg))


def ivp(case, m, d, res):
    """solve_ivp returns what the steps of the class returned"""
    span = (0, 2)[::d]
    base = rhs_of(m)
    y0 = np.array(Y0, float)
    ref = record(m.make(base, span[0], y0, span[1], rtol=1e-5, atol=1e-6))
    kw = dict(method=m.cls, rtol=1e-5, atol=1e-6, **m.opts)
    te = np.linspace(span[0], span[1], 9)
    tl = [te[0], te[3], te[3] + 1e-9 * d, te[8]]

    def args_fun(t, y, a, b, base=base):
        return base(t, y) * a + b

    def ev(t, y):
        return y[0]
    runs = {
        "plain": solve_ivp(base, span, y0, **kw),
        "dense": solve_ivp(base, span, y0, dense_output=True, **kw),
        "args": solve_ivp(args_fun, span, y0, args=(1.0, 0.0), **kw),
        "list": solve_ivp(base, list(span), list(Y0), **kw),
        "events": solve_ivp(base, span, y0, events=ev, **kw),
        "t_eval": solve_ivp(base, span, y0, t_eval=te, **kw),
        "t_eval list": solve_ivp(base, span, y0, t_eval=tl, **kw),
        "t_eval end": solve_ivp(base, span, y0, t_eval=[span[1]], **kw),
        "t_eval none": solve_ivp(base, span, y0, t_eval=[], **kw),
    }
    modifies = m.name == "Fi5N1"          # documented
    for name, out in runs.items():
        res.traces += 1
        res.states += len(out.t)
        res.transitions += len(ref[1]) - 1
        res.sig(m.name, "ivp", name)
        out.t = np.asarray(out.t)
        if not out.success or out.status != 0:
            res.bad("ivp:" + name, "%s %s: %s" % (m.name, name, out.message))
            continue
        if name.startswith("t_eval"):
            want = {"t_eval": te, "t_eval list": np.array(tl), "t_eval end":
                    np.array(span[1:]), "t_eval none": np.array([])}[name]
            if not np.array_equal(out.t, want):
                res.bad("ivp:" + name, "%s: times %s" % (m.name, out.t))
                continue
            if not modifies:
                full = runs["dense"].sol
                if want.size and not np.allclose(
                        out.y, full(want), rtol=1e-12, atol=1e-13):
                    res.bad("ivp:" + name, "%s: values differ from the "
                            "continuous solution" % m.name)
                end = {"t_eval none": None}.get(name, out.y[:, -1]
                                                if want.size else None)
                if end is not None and np.max(np.abs(
                        end - ref[2][-1])) > 1e-10:
                    res.bad("ivp:" + name, "%s: end value differs" % m.name)
            continue
        if modifies:
            continue
        if not (np.array_equal(out.t, ref[1])
                and np.array_equal(out.y.T, ref[2])):
            res.bad("ivp:" + name, "%s d=%d %s: accepted points differ from "
                    "those of the class" % (m.name, d, name))
        if name == "dense":
            tm = 0.5 * (out.t[1:] + out.t[:-1])
            tt = np.concatenate((out.t, tm))
            one = np.array([out.sol(t) for t in tt]).T
            # (the solution object groups by step)
            if not np.allclose(out.sol(tt), one, rtol=1e-12, atol=1e-13):
                res.bad("ivp:dense array", "%s d=%d: array of times" % (
                    m.name, d))
        if name == "events":
            full = runs["dense"].sol
            for t, y in zip(out.t_events[0], out.y_events[0]):
                if not modifies and abs(full(t)[0]) > 1e-9:
                    res.bad("ivp:events", "%s d=%d: event at %r with value "
                            "%r" % (m.name, d, t, full(t)[0]))
            sg = np.sign(ref[2][:, 0])
            if len(out.t_events[0]) != np.count_nonzero(sg[1:] != sg[:-1]):
                res.bad("ivp:events", "%s d=%d: %d events" % (
                    m.name, d, len(out.t_events[0])))


def structure(case, m, res):
    """all 2x2 systems: accepted exactly if they are visibly of second order
    (and independent of the velocity for the method that needs that)"""
    ent = (-1.0, 0.0, 1.0, 2.0)
    if case["part"] == "struct":
        x, v = case["xv"]
        systems = [(np.array(b).reshape(2, 2), np.array([x, v]))
                   for b in itertools.product(ent, repeat=4)]
    else:
        # two positions: a wrong row in either place
        systems = []
        y0s = [[1.0, -1.0, -1.0, -1.0], [0.0, 0.0, 0.0, 0.0],
               [2.0, 1.0, 1.0, -1.0], [-1.0, -1.0, -1.0, -1.0],
               [1.0, 1.0, 1.0, 1.0]]
        rows = [r for r in itertools.product((-1.0, 0.0, 1.0), repeat=4)]
        good = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0],
                         [0, -1, 0, 0.0]])
        for k, r in itertools.product(range(4), rows):
            B = good.copy()
            B[k] = r
            for y0 in y0s:
                systems.append((B, np.array(y0)))
    for B, y0 in systems:
        n = y0.size // 2
        # visible: the first half of the derivative is v for any v
        ok = np.array_equal(B[:n, n:], np.eye(n)) and \
            np.all(B[:n, :n] @ y0[:n] == 0)
        seen = True
        if n == 2:
            # two wrong entries may cancel on the tested line v + eps
            seen = visible(B, y0)
        if m.base == "MR6NN":
            dep = np.any(B[n:, n:] != 0)
            if dep and n == 2 and np.all(np.abs(
                    B[n:, n:] @ (1 + np.abs(y0[n:]))) < 1e-3):
                seen = False if ok else seen
            ok = ok and not dep
        try:
            m.make(lambda t, y: B @ y, 0.0, y0, 1.0)
            acc = True
        except AssertionError:
            acc = False
        res.traces += 1
        res.states += 1
        res.transitions += 1
        res.sig(m.name, ok, acc)
        if acc != ok and seen:
            res.bad("struct:%d" % ok, "%s y0=%s B=%s: %s" % (
                m.name, y0, B.tolist(), "refused" if ok else
                "not a second order problem for this method, but accepted"))


def visible(B, y0):
    n = y0.size // 2
    if np.any(B[:n, :n]) and not np.any(B[:n, :n] @ y0[:n]):
        return False              # hidden by cancelling positions
    out = False
    for dv in (0.0, 1e-3):
        v = y0[n:] + dv * (1 + np.abs(y0[n:]))
        y = np.concatenate((y0[:n], v))
        out = out or not np.allclose((B @ y)[:n], v, rtol=0, atol=1e-9)
    return out
