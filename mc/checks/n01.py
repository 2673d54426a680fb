"""N01 evaluation and failure counters are exact."""
import warnings
import numpy as np
import core
import methods as mt
from extensisq import NFS, NFI
from extensisq.common import NLS
from checks.h01 import attempts, C

ID = "N01"
TECHNIQUE = ("exhaustive exploration of scripted right-hand side answers "
             "(accept/reject/failure histories) interleaved with continuous "
             "solutions; the counters of the real solver are compared with a "
             "counting environment after every operation")
NOTE = ("The environment counts every call of the right-hand side and of the "
        "Jacobian; the number of attempts is recovered from the times of the "
        "calls.")
RULE = ("Every method and option x direction x stiffness diagnosis setting x "
        "Jacobian form x all deviations (4 magnitudes, nan, inf) at every "
        "call index of the first three steps (thorough: and all pairs) x "
        "continuous solutions requested after each step, twice. Outcome class "
        "= (method, setting, pattern of attempts, counters).")
ASSUMPTIONS = ["implicit methods: calls for the estimate of the first step "
               "and of the Jacobian are not counted (library convention), so "
               "these are given in this check",
               "attempts below 1e-5 are not reconstructed (rounding)"]

MAGS = [0.3, 5.0, 300.0, 1e5, np.nan, np.inf]
# extra evaluations of the continuous solution of a step (documented)
EXTRA = {"BS5": 1, "BS5best": 3, "BS5free": 0, "Mu5Nmb": 1, "Mu5Nmbunsc": 1,
         "Fi5N1": 2, "Fi5N2": 2, "Fi5N3": 1, "Fi5N": 2}


def cases(tier):
    for name in mt.ALL:
        m = mt.ALL[name]
        sd = [0]
        if m.kind in ("rk", "rkn") and name != "CKdisc":
            sd = [0, 1, 40, 5000]
        for d in (1, -1):
            for s in sd:
                jacs = [0]
                if m.kind == "esdirk":
                    jacs = ["f", "a", "e"]
                if m.kind == "ssv":
                    jacs = ["r", "c"]
                for j in jacs:
                    for dense in (0, 1):
                        yield dict(m=name, d=d, sd=s, jac=j, dense=dense,
                                   two=tier != "quick")


class Env:
    def __init__(self, d, plan, second):
        self.i = 0
        self.n = 0
        self.nj = 0
        self.on = False
        self.d, self.plan, self.second = d, plan, second
        self.log = []

    def jac(self, t, y):
        self.nj += 1
        self.log.append("j")
        return np.array([[-3.0, 0.5 + 0.2 * y[0]], [0, -0.5]]) * self.d

    def __call__(self, t, y):
        self.n += 1
        if self.n > 30000:
            raise core.Budget()
        x = y[:2] if self.second else y
        f = np.array([-3 * x[0] + 0.5 * x[1] + 0.1 * x[0] * x[1],
                      -0.5 * x[1] + 0.3 * np.cos(t)])
        if not self.second:
            f = f * self.d
        if self.on:
            m = self.plan.get(self.i)
            self.i += 1
            if m is not None:
                f = f + m * np.array([0.5, 1.0])
            self.log.append(float(t))
        if self.second:
            return np.concatenate((y[2:], f))
        return f


def run(case, res):
    m = mt.ALL[case["m"]]
    nn = 12 if m.kind in ("swag", "ssv") else min(30, 3 * len(C[m.base]))
    plans = [{}]
    for i in range(nn):
        for a in MAGS:
            plans.append({i: a})
    for i in range(0, nn, 3):
        plans.append({j: 5.0 * (-1) ** j for j in range(i, i + 30)})
    if case["two"]:
        for i in range(nn):
            for j in range(i + 1, i + nn):
                for a in (5.0, 300.0):
                    plans.append({i: a, j: -a})
    if case["sd"] not in (0, 40):
        plans = plans[::7]
    for plan in plans:
        one(m, case, plan, res)


def one(m, case, plan, res):
    d = case["d"]
    rkn = m.kind == "rkn"
    y0 = np.array([1.0, -0.5])
    if rkn:
        y0 = np.concatenate((y0, [0.2, 0.3]))
    k = Env(d, plan, rkn)
    kw = {}
    jc = case["jac"]
    if case["sd"] is not None and m.kind in ("rk", "rkn") and \
            m.name != "CKdisc":
        kw["nfev_stiff_detect"] = case["sd"]
    if jc == "f":
        kw.update(jac=k.jac, first_step=0.2)
    elif jc == "a":
        kw.update(jac=k.jac(0.0, y0), first_step=0.2)
        k.nj = 0
    elif jc == "e":
        kw.update(jac=k.jac, jac_each_step=True, first_step=0.2)
    elif jc in ("r", "c"):
        def rho(t, y):
            return 3.6
        kw.update(rho_jac=rho)
        if jc == "c":
            kw.update(const_jac=True)
    k.log = []
    NFS[()] = 7            # an earlier integration
    tag = "%s d=%d sd=%s jac=%s dense=%d plan=%s" % (
        m.name, d, case["sd"], jc, case["dense"],
        plan if len(plan) < 4 else "%d x %d.." % (list(plan.values())[0],
                                                  list(plan)[0]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sol = m.make(k, 0.0, y0, 12.0 * d, rtol=1e-3, atol=1e-4, **kw)
        k.on = True
        if not counters(m, k, sol, tag + " construction", res, jc):
            return
        if int(NFS[()]) != 0:
            res.bad("nfs0:" + m.name, tag + ": the counter of failed steps is "
                    "%d after construction" % NFS[()])
            return
        if m.kind == "esdirk" and int(NFI[()]) != 0:
            res.bad("nfi0:" + m.name, tag + ": NFI is not reset")
        fails = 0
        known = True
        pat = ""
        for step in range(4):
            if sol.status != "running":
                break
            k.log = []
            n0, t = k.n, sol.t
            try:
                sol.step()
            except (ValueError, np.linalg.LinAlgError):
                if m.kind == "esdirk" and not all(
                        np.isfinite(list(plan.values()))):
                    break
                raise
            if not counters(m, k, sol, "%s step %d" % (tag, step), res, jc):
                return
            calls = k.n - n0
            # (the calls of the diagnosis cannot be told from attempts)
            if m.kind == "ssv" and step == 0:
                k.log = k.log[1:]        # estimate of the first step
            att = None if case["sd"] in (1, 40) else \
                split(m, k.log, t, d, case)
            if not att or known is None or att[-1] < 1e-5:
                known = None
            else:
                ok = sol.status != "failed"
                fails += len(att) - ok
                got = int(NFS[()]) + (int(NFI[()]) if m.kind == "esdirk"
                                      else 0)
                if ok and got != fails:
                    res.bad("nfs:" + m.name, "%s step %d: %d failed attempts, "
                            "reported %d (attempts of this step %s)" % (
                                tag, step, fails, got, att))
                    return
                if m.kind in ("rk", "rkn"):
                    s = mt.TABLES[m.base]["n_stages"]
                    more = 0 if m.name != "CKdisc" else 1
                    if calls > s * len(att) + more:
                        res.bad("cost:" + m.name, "%s step %d: %d evaluations "
                                "for %d attempts of %d stages" % (
                                    tag, step, calls, len(att), s))
                        return
                if m.kind == "swag" and ok and calls != len(att) + 1:
                    res.bad("cost:" + m.name, "%s step %d: %d evaluations for "
                            "%d attempts" % (tag, step, calls, len(att)))
                    return
                pat += "%d " % len(att)
            res.transitions += 1
            if sol.status == "failed":
                pat += "f"
                break
            if case["dense"]:
                n0 = k.n
                itp = sol.dense_output()
                itp(0.5 * (sol.t + sol.t_old))
                if not counters(m, k, sol, "%s dense %d" % (tag, step), res,
                                jc):
                    return
                if k.n - n0 > EXTRA.get(m.name, 0):
                    res.bad("dense:" + m.name, "%s step %d: the continuous "
                            "solution used %d evaluations, documented %d" % (
                                tag, step, k.n - n0, EXTRA.get(m.name, 0)))
                    return
            res.states += 1
    res.traces += 1
    res.sig(m.name, case["sd"], jc, pat[:8])
    if res.sample is None and len(plan) == 1 and "2" in pat:
        res.sample = {"run": tag, "attempts per step": pat, "nfev": sol.nfev}


def split(m, log, t, d, case):
    """attempts of the step; a Jacobian call inside the step begins a new
    attempt"""
    eps = 1e-13 * (1 + abs(t))
    if m.kind != "esdirk":
        return attempts(m, C.get(m.base), [x for x in
                                           (d * (y - t) for y in log)
                                           if x > eps], case)
    groups, cur, first = [], [], True
    for x in log:
        if x == "j":
            if cur:
                groups.append(cur)
            cur = []
        else:
            cur.append(d * (x - t))
    if cur:
        groups.append(cur)
    out = []
    for g in groups:
        out += attempts(m, C[m.base], [x for x in g if x > eps], case)
    return out


def counters(m, k, sol, tag, res, jc):
    if sol.nfev != k.n:
        res.bad("nfev:" + m.name, "%s: nfev=%d, calls=%d" % (tag, sol.nfev,
                                                             k.n))
        return False
    want = k.nj if m.kind == "esdirk" else 0
    if sol.njev != want:
        res.bad("njev:" + m.name, "%s: njev=%d, calls=%d" % (tag, sol.njev,
                                                             want))
        return False
    return True
