"""H01 step-size limits and the sequence of attempts."""
import numpy as np
import core
import methods as mt

ID = "H01"
TECHNIQUE = ("exhaustive exploration of scripted right-hand side answers over "
             "a grid of step limits; every attempt of the real step loop is "
             "recovered from the calls and monitored")
NOTE = ("Attempt sizes are recovered from the times of the calls (stage "
        "abscissae of the published tableaus).")
RULE = ("Every method x (maximum step, first step, interval, direction) grid x "
        "scripts with at most one (thorough: two) deviating answers at every "
        "call index of the first three steps, with several magnitudes that "
        "cause acceptance, single and repeated rejections; and every method x "
        "controller x direction x problem that becomes free of errors and is "
        "perturbed later by any order of magnitude (growth limits). Outcome "
        "class = (method, limits, pattern of attempts).")
ASSUMPTIONS = ["growth limits are monitored after the second step, without "
               "maximum step, away from the end of the interval",
               "implicit methods may repeat an attempt of the same size once "
               "with a new Jacobian, and stretch the last step by 1 %"]

C = {k: np.array(v["C"]) for k, v in mt.TABLES.items()}
# attempts smaller than this are not reconstructed (rounding of the times)
HMIN = 1e-5

LIMITS = [   # (max_step, first_step, length)
    (None, 0.25, 50.0), (0.3, 0.25, 50.0), (0.3, 0.3, 50.0),
    (0.3, 0.9, 50.0), (0.05, None, 2.0), (None, None, 50.0),
    (None, None, 1.0), (0.7, None, 1.0), (0.5, 0.5, 1.0), (2.0, 0.4, 1.0),
    (None, 0.5, 1.05),
]
MAGS = [0.3, 5.0, 300.0, 1e5]
NAMES = mt.BASE + ["BS5best", "SWAG4", "Mu5Nmbfree", "Fi5N3"]


def cases(tier):
    for name in NAMES:
        for lim in LIMITS:
            for d in (1, -1):
                for jac in ((0, 1) if mt.ALL[name].kind == "esdirk" else (0,)):
                    yield dict(m=name, lim=lim, d=d, jac=jac,
                               idx2=tier == "thorough")
        for d in (1, -1):
            for sc in SCS[mt.ALL[name].kind]:
                yield dict(m=name, quiet=1, d=d, sc=sc,
                           fine=tier == "thorough")


SCS = {"rk": [None, "G", "S", (0.5, -0.3, 0.2, 0.7)],
       "rkn": [None, "G", "S", (0.5, -0.3, 0.2, 0.7)],
       "esdirk": [None, "G", "S", "standard", (0.5, -0.3, 0.2, 0.7)],
       "swag": [None], "ssv": [None]}


def ncall(name):
    m = mt.ALL[name]
    if m.kind in ("swag", "ssv"):
        return 8
    return min(30, 3 * len(C[m.base]))


class Kick:
    def __init__(self, d, plan, second):
        self.i = 0
        self.on = False
        self.d, self.plan, self.second = d, plan, second
        self.log = []

    def base(self, t, x):
        return np.array([-x[0] + 0.5 * x[1], -0.5 * x[1] + 0.3 * np.cos(t)])

    def __call__(self, t, y):
        if self.second:
            f = self.base(t, y[:2])
        else:
            f = self.base(t, y) * self.d
        if self.on:
            m = self.plan.get(self.i)
            self.i += 1
            if m is not None:
                f = f + m * np.array([0.5, 1.0])
            if self.i > 20000:
                raise core.Budget()
            self.log.append(float(t))
        if self.second:
            return np.concatenate((y[2:], f))
        return f


def quiet(m, case, res):
    """an active phase, a phase with constant (no error) or vanishing
    derivative, and a later perturbation of any size: growth limits"""
    d = case["d"]
    rkn = m.kind == "rkn"
    e = 1 if case["fine"] else 3
    for rest in (0.0, 1.0):
        for t1 in ((1.0, 5.0) if case["fine"] else (5.0,)):
            for t2 in ((6.0, 20.0, 200.0) if case["fine"]
                           else (6.0, 200.0)):
                for p in range(0, 13, e):
                    quiet1(m, case, res, d, rkn, rest, t1, t2, 10.0 ** -p)


def quiet1(m, case, res, d, rkn, rest, t1, t2, eps):
    def f(t, y):
        s = t * d
        a = -3 * (y[0] - np.cos(s)) - np.sin(s) if s < t1 else rest
        if s > t2:
            a = a + eps * np.sin(s)
        return np.array([y[1], a]) if rkn else np.array([a * d])
    kw = {}
    if m.kind in ("rk", "rkn") and m.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    if case["sc"] is not None:
        sc = tuple(case["sc"]) if isinstance(case["sc"], list) else case["sc"]
        if m.name == "CKdisc":
            return
        kw["sc_params"] = sc
    if m.kind == "ssv":
        kw["rho_jac"] = lambda t, y: 3.0
    y0 = np.array([0.9, 0.1] if rkn else [0.9])
    sol = m.make(f, 0.0, y0, 1e7 * d, rtol=1e-4, atol=1e-6, **kw)
    tag = "%s d=%d sc_params=%s derivative %g from %g, perturbed by %g from " \
        "%g" % (m.name, d, case["sc"], rest, t1, eps, t2)
    hp, small, big = None, False, 0.0
    for step in range(90 if m.kind != "ssv" else 150):
        sol.step()
        if sol.status != "running":
            break
        h = sol.step_size
        if h > 1e5:
            break
        if hp is not None:
            r = h / hp
            hi = {"swag": 2.0, "ssv": 10.0}.get(m.kind, 4.0 if small else 10.0)
            if m.name == "CKdisc":
                hi = 5.0
            if r > hi * (1 + 1e-6) and (step > 1 or m.kind not in (
                    "rk", "rkn")):
                res.bad("quiet:" + m.name, "%s: step %d of size %r after %r"
                        % (tag, step, h, hp))
                return
            small = small or r < 3.9
            big = max(big, r)
        hp = h
        res.transitions += 1
    res.states += step
    res.traces += 1
    res.sig(m.name, "quiet", case["sc"], round(big))


def run(case, res):
    m = mt.ALL[case["m"]]
    if case.get("quiet"):
        return quiet(m, case, res)
    plans = [{}]
    n = ncall(case["m"])
    for i in range(n):
        for a in MAGS:
            plans.append({i: a})
    # a deviation that stays for a while: several rejections in a row
    for i in range(0, n, 2):
        for a in MAGS[:3]:
            plans.append({j: a * (1 if j % 2 else -1)
                          for j in range(i, i + 40)})
    if case["idx2"]:
        for i in range(0, n):
            for j in range(i + 1, i + n):
                for a in MAGS[1:]:
                    for b in MAGS[1:]:
                        plans.append({i: a, j: -b})
    for plan in plans:
        one(m, case, plan, res)


def one(m, case, plan, res):
    ms, fs, L = case["lim"]
    d = case["d"]
    rkn = m.kind == "rkn"
    y0 = np.array([1.0, -0.5])
    if rkn:
        y0 = np.concatenate((y0, [0.2, 0.3]))
    k = Kick(d, plan, rkn)
    kw = {}
    if ms is not None:
        kw["max_step"] = ms
    if fs is not None:
        kw["first_step"] = fs
    if m.kind in ("rk", "rkn") and m.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    if case["jac"]:
        J = np.array([[-1.0, 0.5], [0, -0.5]]) * d
        kw["jac"] = (lambda t, y: J) if case["jac"] == 1 else J
    if m.kind == "ssv":
        # a deviation during the power iteration would only ask for an
        # enormous number of stages
        kw["rho_jac"] = lambda t, y: 2.0
    sol = m.make(k, 0.0, y0, L * d, rtol=1e-3, atol=1e-4, **kw)
    k.on = True
    tag = "%s lim=%s d=%d jac=%d plan=%s" % (
        m.name, case["lim"], d, case["jac"],
        plan if len(plan) < 4 else "%d x %d.." % (list(plan.values())[0],
                                                  list(plan)[0]))
    lim = ms if ms is not None else np.inf
    Ct = C.get(m.base)
    over = max(1.0, np.max(Ct)) if Ct is not None else 1.0
    if m.name == "Fi5N3":
        over = 1.0
    eps = 1e-10
    prev = None        # (accepted step, had rejections)
    small = False
    pat = ""
    for step in range(6):
        if sol.status != "running":
            break
        k.log = []
        t = sol.t
        rem = abs(d * L - t)
        sol.step()
        log = [d * (x - t) for x in k.log]
        if log and max(log) > min(lim, rem) * over * (1 + eps) + 1e-14:
            res.bad("max:" + m.name, "%s step %d: evaluation %r beyond the "
                    "current point, max_step %r, remaining %r"
                    % (tag, step, max(log), ms, rem))
            return
        if sol.status == "failed":
            pat += "f"
            break
        hacc = abs(sol.t - t)
        if hacc > lim * (1 + eps):
            res.bad("max:" + m.name, "%s step %d: accepted step %r" % (
                tag, step, hacc))
            return
        att = attempts(m, Ct, [x for x in log if x > 1e-13 * (1 + abs(t))],
                       case)
        if not att or att[-1] < HMIN:
            break
        pat += "%d " % len(att)
        res.transitions += len(att)
        last = sol.status == "finished"
        if not last and abs(att[-1] - hacc) > 1e-9 and m.name != "CKdisc":
            res.bad("h:" + m.name, "%s step %d: attempts %s but accepted step "
                    "%r" % (tag, step, att, hacc))
            return
        slack = 1.011 if last or rem < 1.2 * att[0] else 1 + 1e-9
        for a, b in zip(att, att[1:]):
            same = m.kind == "esdirk" and abs(b / a - 1) < 1e-9
            if not same and not b < a * (1 - 1e-6):
                res.bad("retry:" + m.name, "%s step %d: attempts %s do not "
                        "shrink" % (tag, step, att))
                return
            if m.kind in ("rk", "rkn", "esdirk") and b < a * 0.2 * (1 - 1e-6):
                res.bad("shrink:" + m.name, "%s step %d: attempts %s shrink "
                        "too fast" % (tag, step, att))
                return
        if sum(abs(b / a - 1) < 1e-9 for a, b in zip(att, att[1:])) > 1:
            res.bad("same:" + m.name, "%s step %d: attempts %s" % (tag, step,
                                                                   att))
            return
        if step == 0 and fs is not None and fs <= L / 2 and m.kind != "ssv":
            want = min(fs, lim)
            if abs(att[0] - want) > 1e-9 and not (
                    ms is None and abs(L / fs - 2) < 0.2):
                res.bad("first:" + m.name, "%s: first attempt %r instead of "
                        "%r" % (tag, att[0], want))
                return
        if prev is not None:
            p, rej = prev
            r = att[0] / p
            if rej and m.kind in ("rk", "rkn", "esdirk") and r > slack:
                res.bad("grow:" + m.name, "%s step %d: %r after a step %r "
                        "with rejected attempts" % (tag, step, att[0], p))
                return
            free = ms is None and L > 10 and rem > 3 * att[0] and \
                rem > 10 * p
            if free and (step >= 2 or m.kind in ("ssv", "swag")):
                hi, lo = {"swag": (2, 0.5), "ssv": (10, 0.1)}.get(
                    m.kind, (4.0 if small else 10.0, 0.2))
                if not lo * (1 - 1e-9) <= r <= hi * (1 + 1e-9):
                    res.bad("ratio:" + m.name, "%s step %d: step %r after %r"
                            % (tag, step, att[0], p))
                    return
            if r < 3.9 and m.name != "CKdisc":
                small = True
        prev = (hacc, len(set(np.round(att, 12))) > 1)
        res.states += 1
    res.traces += 1
    res.sig(m.name, case["lim"], pat[:8])
    if res.sample is None and len(plan) == 1 and "2" in pat:
        res.sample = {"run": tag, "attempts per step": pat}


def attempts(m, Ct, log, case):
    """sizes of the attempts of one step from the times of its calls"""
    out = []
    if m.kind == "swag":
        for x in log:
            if not out or x != out[-1]:
                out.append(x)
        return out
    if m.kind == "ssv":
        for i, x in enumerate(log):
            if i + 1 == len(log) or log[i + 1] <= x * (1 + 1e-12):
                out.append(x)
        return out
    p = 0
    while p < len(log):
        h = log[p] / Ct[1]
        if h < HMIN:
            return out + [h]
        p += 1
        cs = list(Ct[2:]) + [1.0]
        if m.kind == "esdirk":
            cs = list(Ct[2:])
            allowed = [Ct[1]]
            while p < len(log):
                if abs(log[p] - allowed[-1] * h) < 1e-9 * h + 1e-13:
                    p += 1             # next Newton iteration
                elif cs and abs(log[p] - cs[0] * h) < 1e-9 * h + 1e-13:
                    allowed.append(cs.pop(0))
                    p += 1
                else:
                    break
        else:
            if m.name == "CKdisc":
                cs = list(Ct[2:])
            for c in cs:
                if p < len(log) and abs(log[p] - c * h) < 1e-9 * h + 1e-13:
                    p += 1
                else:
                    break
        out.append(h)
        if m.name == "CKdisc" and p == len(log) - 1:
            # final evaluation at the accepted point
            p += 1
    return out
