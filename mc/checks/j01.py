"""J01 how an implicit problem is described does not change its solution."""
import numpy as np
from scipy.sparse import csc_array, csr_array, coo_array, dia_array, csr_matrix
import core
import methods as mt

ID = "J01"
TECHNIQUE = ("exhaustive enumeration of the configuration space of the "
             "implicit methods (forms of Jacobian, sparsity, mass matrix, "
             "reuse) on the real code; manufactured exact solution and "
             "equivalent descriptions as oracle")
NOTE = ("All descriptions of one group are mathematically the same problem; "
        "they must give the same solution, number of steps and evaluations.")
RULE = ("Every implicit method x {linear, nonlinear} problem of four "
        "components x direction x real/complex x all forms of the Jacobian "
        "(function or array; dense, list, csc, csr, coo; finite differences "
        "without and with sparsity structure) x all forms of the mass matrix "
        "(none, vector, list, dense, csc, csr, dia) x Jacobian each step x "
        "vectorized. Outcome class = (problem, Jacobian form, mass form, "
        "digits).")
ASSUMPTIONS = ["error at most 60 times the tolerance (growing with rtol^(-1/3) below "
               "1e-4); number of steps and "
               "evaluations of equivalent descriptions equal within 10 "
               "percent plus 3"]
NAMES = ["HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I"]
JN = ["fun", "fun:list", "fun:csc", "fun:csr", "fun:coo", "none",
      "none:ones", "none:list", "none:csc", "array", "array:list",
      "array:csc", "array:csr", "array:mat"]
MN = ["none", "I:vec", "I:list", "I:full", "I:csc", "I:dia",
      "D:vec", "D:full", "D:csc", "D:csr", "D:dia",
      "A:full", "A:list", "A:csc", "A:csr",
      "s:full", "s:csc", "b:full", "b:list",
      "P:full", "P:csc", "L:full", "L:csc", "U:full", "U:csr"]


def cases(tier):
    rts = (1e-4,) if tier == "quick" else (1e-3, 1e-4, 1e-6)
    for name in NAMES:
        for lin in (1, 0):
            for d in (1, -1):
                for cplx in (0, 1):
                    for rt in rts:
                        for grp in "IDAPLUsb":
                            yield dict(m=name, lin=lin, d=d, cplx=cplx,
                                       rt=rt, grp=grp,
                                       th=int(tier != "quick"))


A0 = np.array([[-1.0, 0.5, 0, 0], [0, -30.0, 2, 0], [0, 0, -2, 1.5],
               [0.2, 0, -1, -0.5]])
S0 = (A0 != 0).astype(int)
W = np.array([1.0, 0.7, 0.5, 1.3])
C = np.array([0.1, 0.5, 0.3, 0.2])


def form(kind, X):
    """a matrix in this form"""
    return {"": lambda: X, "full": lambda: X, "list": X.tolist,
            "ones": lambda: X, "csc": lambda: csc_array(X),
            "csr": lambda: csr_array(X), "coo": lambda: coo_array(X),
            "dia": lambda: dia_array(X), "mat": lambda: csr_matrix(X)}[kind]()


def run(case, res):
    d, lin = case["d"], case["lin"]
    u = np.array([0.6 - 0.8j, 1j, 1, -0.8 + 0.6j]) if case["cplx"] \
        else np.ones(4)

    def phi(s):
        return u * np.cos(W * s + C)

    def dphi(s):
        return -u * W * np.sin(W * s + C)

    def f(t, y):
        p, q = phi(t * d), dphi(t * d)
        if y.ndim == 2:
            p, q = p[:, None], q[:, None]
        e = y - p
        r = A0 @ e + q
        if not lin:
            # (keeps the sparsity structure)
            r[0] = r[0] - 0.5 * (y[0] * y[1] - p[0] * p[1])
            r[2] = r[2] + 0.3 * (y[2] * y[3] - p[2] * p[3])
            r[3] = r[3] - (y[3] ** 2 - p[3] ** 2)
        return d * r

    def j(t, y):
        J = np.array(A0, y.dtype)
        if not lin:
            J[0, 0] -= 0.5 * y[1]
            J[0, 1] -= 0.5 * y[0]
            J[2, 2] += 0.3 * y[3]
            J[2, 3] += 0.3 * y[2]
            J[3, 3] -= 2 * y[3]
        return d * J
    te = 2.5
    y0 = phi(0.0)
    out = {}
    for mass in MN:
        grp = mass[0]
        if mass == "none":
            grp = "I"
        if grp != case["grp"]:
            continue
        Ma = np.array([[2.0, 1, 0, 0], [0, 1, -0.5, 0],
                       [0.25, 0, 1, 0], [0, 0, 0.5, -1]])
        Mm = {"I": np.eye(4), "D": np.diag([2.0, -0.5, 1.0, 0.25]),
              "A": Ma,
              # the same in small and large units
              "s": 1e-9 * Ma, "b": 1e9 * Ma,
              "L": np.eye(4) + np.diag([0.5, -1.0, 0.25], -1),
              "U": np.eye(4) + np.diag([0.5, -1.0, 0.25], 1),
              "P": np.eye(4)[[2, 0, 3, 1]] * 1.5}[grp]
        if mass == "none":
            M = None
        else:
            k = mass.split(":")[1]
            if k == "vec":
                M = np.diag(Mm)
            elif k == "list" and grp == "I":
                M = np.diag(Mm).tolist()
            else:
                M = form(k, Mm)
        for jn in JN:
            if jn.startswith("array") and not lin:
                continue
            for each in (False, True):
                for vec in (False, True):
                    if vec and jn not in ("none", "none:csc", "fun"):
                        continue
                    if each and (jn.startswith("array") or (
                            not case["th"] and jn not in (
                                "fun", "fun:csr", "none", "none:csc"))):
                        continue
                    one(case, res, out, f, j, y0, te, phi, Mm, M, mass, jn,
                        each, vec)
    compare(case, res, out)


def one(case, res, out, f, j, y0, te, phi, Mm, M, mass, jn, each, vec):
    d = case["d"]
    kind = jn.split(":")[1] if ":" in jn else ""
    kw = {}
    if jn.startswith("fun"):
        kw["jac"] = lambda t, y: form(kind, Mm @ j(t, y))
    elif jn.startswith("array"):
        kw["jac"] = form(kind, Mm @ j(0.0, y0))
    elif kind:
        S = (np.abs(Mm) @ S0 != 0).astype(int)
        if kind == "ones":
            S = np.ones((4, 4), int)
        kw["jac_sparsity"] = form(kind, S)
    calls = [0]

    def fun(t, y):
        calls[0] += 1
        if calls[0] > 20000:
            raise core.Budget()
        return Mm @ f(t, y)
    rt = case["rt"]
    tag = "%s d=%d complex=%d linear=%d rtol=%g jac=%s M=%s jac_each_step=" \
        "%s vectorized=%s" % (case["m"], d, case["cplx"], case["lin"], rt,
                              jn, mass, each, vec)
    try:
        sol = mt.ALL[case["m"]].make(
            fun, 0.0, y0, te * d, rtol=rt, atol=rt, first_step=0.01, M=M,
            jac_each_step=each, vectorized=vec, **kw)
        n, worst = 0, 0.0
        while sol.status == "running" and n < 3000:
            sol.step()
            n += 1
            e = np.max(np.abs(sol.y - phi(sol.t * d)))
            worst = max(worst, float(e))
    except Exception as ex:
        res.bad("exc:%s:%s" % (jn, mass), "%s: %r" % (tag, ex))
        return
    res.traces += 1
    res.states += n
    res.transitions += n
    if sol.status != "finished":
        res.bad("status:%s:%s" % (jn, mass), "%s: %s after %d steps"
                % (tag, sol.status, n))
        return
    if not worst < 60 * rt * (1e-4 / min(rt, 1e-4)) ** (1 / 3):
        res.bad("error:%s:%s" % (jn, mass), "%s: error %.3g" % (tag, worst))
        return
    res.sig(case["lin"], jn, mass, int(np.log10(worst)))
    out[mass, jn, each, vec] = (n, sol.nfev, np.array(sol.y), tag)
    if res.sample is None:
        res.sample = {"run": tag, "steps": n, "error": worst}


def compare(case, res, out):
    """equivalent descriptions behave equally"""
    base = {}
    for (mass, jn, each, vec), v in out.items():
        key = (mass.split(":")[0].replace("none", "I"), each,
               jn.split(":")[0])
        b = base.setdefault(key, v)
        for i, what in ((0, "steps"), (1, "evaluations")):
            if abs(b[i] - v[i]) > 3 + 3 * i + 0.1 * b[i]:
                res.bad("cost:%s:%s" % (jn, mass), "%s needs %d %s, the "
                        "equivalent %s needs %d" % (v[3], v[i], what, b[3],
                                                    b[i]))
        if b[:2] == v[:2] and not np.all(np.abs(b[2] - v[2]) <= case["rt"]):
            res.bad("differs:%s:%s" % (jn, mass), "%s: %s; %s: %s" % (
                v[3], v[2], b[3], b[2]))
