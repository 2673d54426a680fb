"""S02 integrations in different threads do not influence each other."""
import sys
import threading
import numpy as np
import core
import methods as mt
from checks.s01 import fun_of, data
from iso import isolated

ID = "S02"
TECHNIQUE = ("stateless exploration of thread schedules under a controlled "
             "scheduler: all schedules with a bounded number of preemptions at "
             "right-hand side calls, and all single preemptions at every "
             "source line of the package")
NOTE = ("Threads are real Python threads that hand over a baton; with a single "
        "preemption the other thread runs to its end in between, at every "
        "executed line of the package.")
RULE = ("(1) for pairs of solvers: every schedule with at most 2 (thorough: 3) "
        "preemptions at right-hand side calls; (2) for every pair of the same "
        "class and neighbouring pairs: a preemption at every executed source "
        "line of the package during construction, steps and continuous "
        "solution, the other thread runs completely in between. Results are "
        "compared bit by bit with those of a pristine process. Outcome class "
        "= (part, pair).")
ASSUMPTIONS = ["interleaving at source lines (sequential consistency of the "
               "interpreter)", "integer counters are not results"]
CPU_LIMIT = 400.0


def pairs(tier):
    names = mt.BASE + ["BS5best", "Fi5N3", "Mu5Nmbfree", "Mu5Nmbunsc",
                       "SWAG4", "KC3IC1"]
    out = []
    for i, a in enumerate(names):
        out.append((a, a))
        if tier != "quick":
            out.append((a, names[(i + 1) % len(names)]))
            out.append((a, names[(i + 5) % len(names)]))
    out += [("Mu5Nmb", "Mu5Nmbunsc"), ("BS5", "BS5best"), ("SWAG", "SWAG4"),
            ("CK5", "Ts5"), ("Pr7", "Pr8"), ("Kv3I", "KC4I"),
            ("HS2I", "HS2Ia"), ("Fi4N", "MR6NN")]
    return out


def cases(tier):
    for a, b in pairs(tier):
        yield dict(part="lines", a=a, b=b, steps=2)
        yield dict(part="calls", a=a, b=b, bound=2,
                   steps=1 if tier == "quick" else 2)
    if tier != "quick":
        for a in mt.BASE:
            yield dict(part="calls", a=a, b=a, bound=3, steps=1)


def job(name, p, fun=None, steps=2):
    m = mt.ALL[name]
    f, y0 = fun_of(m, p)
    kw = {}
    if m.kind == "esdirk":
        kw["jac"] = lambda t, y: np.array([[-1.0 - 0.5 * p, 0.5],
                                           [0.2 * y[0], -0.8]])
    if m.kind == "ssv":
        kw["rho_jac"] = lambda t, y: 1.7 + p
    out = []
    s = m.make(fun or f, 0.0, y0, 6.0, rtol=1e-3, atol=1e-4, max_step=1.0,
               first_step=0.55 - 0.2 * p, **kw)
    for _ in range(steps):
        s.step()
        out.append((s.t, s.y.tobytes(), s.status, s.nfev))
        o = s.dense_output()
        out.append(o(s.t_old + (s.t - s.t_old)
                     * np.array([0.2, 0.6])).tobytes())
    return out


PREFIX = None


def lines(a, b, ref_a, ref_b, steps):
    """single preemption of a at each of its lines, b runs in between"""
    prefix = core.REPO.rstrip("/") + "/extensisq/"
    k = [0, -1]
    got = []

    def local(frame, event, arg):
        if event == "line":
            k[0] += 1
            if k[0] == k[1]:
                sys.settrace(None)
                got.append(job(b, 0.25, None, steps))
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            return local
        return None
    k[:] = [0, -1]
    sys.settrace(glob)
    try:
        job(a, 0.0, None, steps)
    finally:
        sys.settrace(None)
    n = k[0]
    bad = []
    for i in range(1, n + 1):
        k[:] = [0, i]
        got.clear()
        sys.settrace(glob)
        try:
            out = job(a, 0.0, None, steps)
        finally:
            sys.settrace(None)
        if out != ref_a or got != [ref_b]:
            bad.append((i, out == ref_a))
            break
    return n, bad


class Sched:
    """two threads, one baton; switch points are right-hand side calls"""

    def __init__(self, plan):
        self.plan = plan              # call numbers (global) to switch at
        self.n = 0
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]

    def point(self, me):
        self.n += 1
        if self.n in self.plan and not self.done[1 - me]:
            self.sem[1 - me].release()
            self.sem[me].acquire()

    def finish(self, me):
        self.done[me] = True
        if not self.done[1 - me]:
            self.sem[1 - me].release()


def schedule(a, b, plan, steps):
    sch = Sched(plan)
    out = [None, None]

    def body(me, name, p):
        sch.sem[me].acquire()
        f, _ = fun_of(mt.ALL[name], p)

        def fun(t, y):
            sch.point(me)
            r = f(t, y)
            return r
        try:
            out[me] = job(name, p, fun, steps)
        except BaseException as e:
            out[me] = repr(e)
        sch.finish(me)
    th = [threading.Thread(target=body, args=(0, a, 0.0)),
          threading.Thread(target=body, args=(1, b, 0.25))]
    for t in th:
        t.start()
    sch.sem[0].release()
    for t in th:
        t.join(60)
    return out, sch.n


def schedules(a, b, bound, ref_a, ref_b, steps):
    (oa, ob), n = schedule(a, b, set(), steps)
    bad = []
    cnt = 1
    if oa != ref_a or ob != ref_b:
        return cnt, [((), oa == ref_a)]
    import itertools
    for k in range(1, bound + 1):
        if k <= 2:
            ranges = itertools.combinations(range(1, n + 1), k)
        else:
            ranges = itertools.combinations(range(1, n + 1, 2), k)
        for plan in ranges:
            (oa, ob), _ = schedule(a, b, set(plan), steps)
            cnt += 1
            if oa != ref_a or ob != ref_b:
                bad.append((plan, oa == ref_a))
                return cnt, bad
    return cnt, bad


def run(case, res):
    a, b = case["a"], case["b"]
    ra = isolated(job, a, 0.0, None, case["steps"])
    rb = isolated(job, b, 0.25, None, case["steps"])
    for r, w in ((ra, a), (rb, b)):
        if r[0] != "ok":
            res.bad("exc:" + w, r[1])
            return
    if case["part"] == "lines":
        q = isolated(lines, a, b, ra[1], rb[1], case["steps"])
    else:
        q = isolated(schedules, a, b, case["bound"], ra[1], rb[1],
                     case["steps"])
    if q[0] != "ok":
        res.bad("exc:%s" % a, "%s / %s %s\n%s" % (a, b, case["part"], q[1]))
        return
    n, bad = q[1]
    res.traces += n
    res.states += n
    res.transitions += 2 * n
    for where, eq in bad:
        res.bad("%s:%s" % (case["part"], a), "%s preempted by %s at %s: result "
                "of %s differs from the one alone" % (
                    a, b, ("line event %s" if case["part"] == "lines" else
                           "right-hand side calls %s") % (where,),
                    b if eq else a))
    res.sig(case["part"], a, b, "equal" if not bad else "differs")
    if res.sample is None:
        res.sample = {"schedules": n}
