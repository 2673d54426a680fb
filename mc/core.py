"""Shared driver of the bounded model checks.

A check module defines

    ID, TITLE, TECHNIQUE(optional)
    def cases(tier):      iterable of JSON-able cases, a complete enumeration of
                          the bounded space of that tier (never a sample)
    def run(case):        Result of one case on the real code
    RULE, ASSUMPTIONS     texts for the evidence file

The driver forks workers, runs every case, collects counts, writes the
evidence file, and prints VIOLATION / KNOWN-FINDING lines.
"""
import os
import sys

REPO = os.environ.get("EXTENSISQ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
# an old .pyc must never stand in for the current source
sys.pycache_prefix = "/nonexistent-pycache-prefix"
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import json                                                     # noqa: E402
import logging                                                  # noqa: E402
import multiprocessing as mp                                    # noqa: E402
import signal                                                   # noqa: E402
import time                                                     # noqa: E402
import traceback                                                # noqa: E402
import warnings                                                 # noqa: E402

import numpy as np                                              # noqa: E402

import extensisq                                                # noqa: E402

assert os.path.realpath(extensisq.__file__).startswith(
    os.path.realpath(REPO) + os.sep), extensisq.__file__

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Budget(BaseException):
    """Raised inside a user function when its call budget is used up."""


class CpuLimit(BaseException):
    """Raised by the CPU timer: the code under test computes forever."""


class Result:
    """What one case covered and found."""

    def __init__(self):
        self.states = 0            # states (accepted points / model states)
        self.transitions = 0       # transitions (attempts, steps, operations)
        self.traces = 0            # complete executions of the real code
        self.sigs = set()          # outcome classes seen
        self.viol = []             # [(key, message)]
        self.known_ok = 0
        self.sample = None
        self.nontrivial = 0

    def bad(self, key, msg):
        if len(self.viol) < 25:
            self.viol.append((str(key), str(msg)))

    def sig(self, *parts):
        self.sigs.add("|".join(str(p) for p in parts))


def _alarm(signum, frame):
    raise CpuLimit()


_MODULE = None


def _run_case(arg):
    i, case, cpu = arg
    res = Result()
    _MODULE.R = res
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                _MODULE.run(case, res)
    except CpuLimit:
        res.bad("cpu:" + case_key(case),
                "no end after %gs of CPU time\n%s" % (cpu,
                                                      traceback.format_exc()))
    except Budget:
        res.bad("budget:" + case_key(case), "RHS call budget exhausted\n"
                + traceback.format_exc())
    except Exception:
        # does the exception come out of the code under test?
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = any(os.path.realpath(f.filename).startswith(
            os.path.realpath(REPO) + os.sep) for f in tb)
        if inside:
            res.bad("exc:" + case_key(case), traceback.format_exc())
        else:
            err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return (i, err, res.states, res.transitions, res.traces, res.sigs,
            res.viol, res.sample, res.nontrivial)


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def load_findings(pid):
    """known findings of this property: dict key -> text"""
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        with open(path) as fh:
            for e in json.load(fh).get("findings", []):
                if e.get("property") == pid:
                    out[e["key"]] = e["what"]
    return out


def run_module(module, tier, replay=None, jobs=None):
    global _MODULE
    _MODULE = module
    pid = module.ID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cpu = getattr(module, "CPU_LIMIT", 60.0)
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else
                     float(os.environ.get("VERIF_DEADLINE", "840")))
    if replay is not None:
        with open(replay) as fh:
            cases = [json.load(fh)["case"]]
        jobs = 1
    else:
        cases = list(module.cases(tier))
    ncases = len(cases)
    # the seed only chooses the order in which the complete space is walked
    order = list(range(ncases))
    if replay is None and seed != 1:
        import random
        random.Random(seed).shuffle(order)
    jobs = jobs or min(len(os.sched_getaffinity(0)), 8)
    tot = dict(states=0, transitions=0, traces=0, nontrivial=0)
    sigs, samples, viol, errors = set(), [], [], []
    done = 0
    truncated = False
    work = [(i, cases[i], cpu) for i in order]

    def take(out):
        nonlocal done
        i, err, st, tr, tc, sg, vi, sample, nt = out
        done += 1
        tot["states"] += st
        tot["transitions"] += tr
        tot["traces"] += tc
        tot["nontrivial"] += nt
        sigs.update(sg)
        if sample is not None and len(samples) < 6:
            samples.append({"case": cases[i], "outcome": sample})
        if err:
            errors.append((cases[i], err))
        for key, msg in vi:
            viol.append((cases[i], key, msg))

    if jobs == 1 or ncases == 1:
        for w in work:
            take(_run_case(w))
    else:
        ctx = mp.get_context("fork")
        chunk = max(1, min(64, ncases // (jobs * 8)))
        with ctx.Pool(jobs) as pool:
            for out in pool.imap_unordered(_run_case, work, chunk):
                take(out)
                if time.time() > deadline:
                    truncated = True
                    pool.terminate()
                    break
    known = load_findings(pid)
    hit, fresh = {}, []
    for case, key, msg in viol:
        if key in known:
            hit.setdefault(key, msg)
        else:
            fresh.append((case, key, msg))
    for key in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
    wall = time.time() - t0
    if errors and replay is None:
        for case, err in errors[:3]:
            print("HARNESS-ERROR in %s case %s\n%s" % (pid, case, err))
    outdir = os.path.join(VERIF, "evidence", "replay", pid)
    if replay is None:
        os.makedirs(outdir, exist_ok=True)
        for f in os.listdir(outdir):
            os.unlink(os.path.join(outdir, f))
        # group violations by message class, keep the first few
        for n, (case, key, msg) in enumerate(fresh[:10]):
            path = os.path.join(outdir, "%d.json" % n)
            with open(path, "w") as fh:
                json.dump({"property": pid, "case": case, "key": key,
                           "message": msg}, fh, indent=1, default=str)
            print("--", key)
            print("   ", msg.strip().replace("\n", "\n    ")[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        if len(fresh) > 10:
            print("... %d further violations" % (len(fresh) - 10))
        write_evidence(module, tier, seed, tot, sigs, samples, ncases, done,
                       truncated, wall, len(fresh))
    else:
        for case, key, msg in fresh:
            print("--", key)
            print("   ", msg.strip().replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        for case, err in errors:
            print("HARNESS-ERROR\n" + err)
    print("%s %s: cases=%d/%d states=%d transitions=%d executions=%d "
          "distinct-outcomes=%d violations=%d known=%d%s wall=%.1fs" % (
              pid, tier, done, ncases, tot["states"], tot["transitions"],
              tot["traces"], len(sigs), len(fresh), len(hit),
              " TRUNCATED" if truncated else "", wall))
    sys.stdout.flush()
    if fresh:
        return 1
    if errors:
        return 2
    return 0


def write_evidence(module, tier, seed, tot, sigs, samples, ncases, done,
                   truncated, wall, nviol):
    level = getattr(module, "LEVEL", "model_checking")
    cov = {
        "states": tot["states"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": module.RULE,
        "samples": samples or [{"note": "no sample recorded"}],
        "distinct_outcomes": sorted(sigs)[:60],
        "cases_enumerated": ncases,
        "exhaustive": not truncated and done == ncases,
    }
    ev = {"property": module.ID, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": list(getattr(module, "ASSUMPTIONS", []))}
    path = os.path.join(VERIF, "evidence", module.ID + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=_js)
    os.replace(tmp, path)


def _js(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return str(x)
