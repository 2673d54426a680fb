"""F01 termination and containment of RHS faults."""
import numpy as np
import core
import methods as mt
from envs import Script, BASES, DEV

ID = "F01"
TECHNIQUE = ("stateless model checking of the real step loops: exhaustive "
             "enumeration of right-hand-side fault scripts up to a deviation "
             "bound")
NOTE = ("Exhaustive for all scripts with at most 1 (quick) / 2 (thorough) "
        "faults out of 10 kinds at every call of the first steps, on small "
        "problems; boundedness is judged by a call budget.")
RULE = ("Every RHS answer sequence that deviates from the nominal answers in "
        "at most D calls (D=1 quick, 2 thorough; transient, and persistent "
        "from one call on) with the deviations of envs.DEV, at every call "
        "index of the first steps, for every method; outcome class = (kind of "
        "end, message, first deviation kind).")
ASSUMPTIONS = ["RHS call budget per step 60000 stands for 'bounded'"]
CPU_LIMIT = 40.0

SPANS = {"up0": (0.0, 1.0), "down": (0.5, -0.75), "far": (1e3, 1e3 + 2.0)}
STEPS = 12
BUDGET = 60000


def base_for(kind):
    return ["oscf"] if kind == "rkn" else ["mild", "scal"]


def horizon(name, base, span, jac):
    """number of calls of the nominal run"""
    f, y0 = BASES[base]
    s = Script(f)
    t0, tb = SPANS[span]
    m = mt.ALL[name]
    kw = {}
    if jac:
        kw["jac"] = _jac(base)
    try:
        sol = m.make(s, t0, y0, tb, **kw)
        k = 0
        while sol.status == "running" and k < 4:
            sol.step()
            k += 1
    except Exception:
        pass
    return s.n


def _jac(base):
    J = {"mild": [[-1., .25], [0., -.5]], "scal": [[-1.]],
         "oscf": [[0., 1.], [-1., 0.]]}[base]
    return lambda t, y: J


def cases(tier):
    out = []
    devs = list(DEV)
    for name in mt.BASE + ["SWAG4", "SWAG1"]:
        kind = mt.ALL[name].kind
        for base in base_for(kind):
            for span in SPANS:
                for jac in ((False, True) if kind == "esdirk" else (False,)):
                    out.append(dict(m=name, base=base, span=span, jac=jac,
                                    d=1, tier=tier))
                    if tier == "thorough" and base in ("scal", "oscf"):
                        for i in range(0, 48):
                            out.append(dict(m=name, base=base, span=span,
                                            jac=jac, d=2, first=i,
                                            tier=tier))
    return out


def run(case, res):
    name, base, span, jac = (case[k] for k in ("m", "base", "span", "jac"))
    n = horizon(name, base, span, jac)
    if "only" in case:
        execute(case, res, case["only"], None, None)
        return
    devs = list(DEV)
    if case["d"] == 1:
        n = min(n, 60 if case["tier"] == "quick" else 150)
        for i in range(n):
            for d in devs:
                execute(case, res, {i: d}, None, None)
                execute(case, res, {}, i, d)
    else:
        n = min(n, 48)
        i = case["first"]
        if i >= n:
            return
        dd = ["nan1", "inf", "max", "jump", "kick", "flip"]
        for j in range(i + 1, min(n, i + 25)):
            for d in dd:
                for e in dd:
                    execute(case, res, {i: d, j: e}, None, None)


def execute(case, res, plan, persist, pname):
    name, base, span = case["m"], case["base"], case["span"]
    m = mt.ALL[name]
    f, y0 = BASES[base]
    t0, tb = SPANS[span]
    fun = Script(f, plan, persist, pname, budget=BUDGET,
                 second=m.kind == "rkn")
    kw = {"jac": _jac(base)} if case["jac"] else {}
    if m.kind == "ssv":
        kw["rtol"] = 1e-10          # limits the documented number of stages
    tag = "%s/%s/%s/jac=%s/plan=%s/from=%s:%s" % (
        name, base, span, case["jac"], plan, persist, pname)
    dname = pname or ",".join(plan.values())
    res.traces += 1
    direction = np.sign(tb - t0)
    try:
        try:
            sol = m.make(fun, t0, np.array(y0), tb, **kw)
        except core.Budget:
            res.bad("init:" + tag, "constructor exhausted the call budget")
            return
        k = 0
        while sol.status == "running" and k < STEPS:
            t, y = sol.t, sol.y.copy()
            fun.n0 = fun.n
            fun.budget = fun.n + BUDGET
            msg = sol.step()
            res.transitions += 1
            k += 1
            if sol.status == "failed":
                if not isinstance(msg, str) or not msg:
                    res.bad("msg:" + tag, "failed without a message")
                if sol.t != t or not np.array_equal(sol.y, y):
                    res.bad("moved:" + tag, "failed step moved the state "
                            "%r %r -> %r %r" % (t, y, sol.t, sol.y))
            else:
                res.states += 1
                if not direction * (sol.t - t) > 0:
                    res.bad("stuck:" + tag, "no progress %r -> %r"
                            % (t, sol.t))
                if direction * (sol.t - tb) > 0:
                    res.bad("past:" + tag, "past the end %r" % sol.t)
                if not np.all(np.isfinite(sol.y)):
                    res.bad("nonfinite:" + tag,
                            "accepted non-finite state %r at %r"
                            % (sol.y, sol.t))
                    return
            if sol.status not in ("running", "finished", "failed"):
                res.bad("status:" + tag, sol.status)
        res.sig(m.kind, sol.status if sol.status != "running" else "bound",
                (msg or "")[:20], dname)
        if res.sample is None and plan:
            res.sample = {"plan": {str(k): v for k, v in plan.items()},
                          "end": sol.status, "steps": k, "calls": fun.n}
    except core.Budget:
        res.bad("endless:" + tag, "a step used more than %d RHS calls"
                % BUDGET)
    except core.CpuLimit:
        raise core.CpuLimit(tag)
    except (ValueError, RuntimeError, np.linalg.LinAlgError) as e:
        # scipy.linalg refuses non-finite matrices (documented outcome of the
        # implicit methods, as for scipy's own implicit methods)
        if m.kind == "esdirk" and (fun.nonfinite or fun.huge):
            res.sig(m.kind, "raised", type(e).__name__, dname)
        else:
            import traceback
            res.bad("raised:" + tag, traceback.format_exc())
    except AssertionError as e:
        # a disturbed velocity makes the RHS look velocity dependent
        if m.kind == "rkn" and "problems" in str(e) or "ODEs" in str(e):
            res.sig(m.kind, "refused", dname)
        else:
            import traceback
            res.bad("raised:" + tag, traceback.format_exc())
    except Exception:
        import traceback
        res.bad("raised:" + tag, traceback.format_exc())
