"""Runner shared by every check.

A check module (checks/<ID>.py) declares *facets*.  A facet is one executable
statement of (part of) the property:

    @facet(strategy, quick=..., thorough=..., rule="...", corners=[...])
    def name(case): ...   # raise Violation / any exception -> violated
                          # return a truthy value  -> the case was non-trivial

`strategy` is a Hypothesis strategy producing a JSON-serialisable `case`
(nested dicts / lists / ints / floats / strings / bools / None).  Everything a
facet does is a pure function of the case, so a shrunk case written as JSON is
a complete replay file.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_LIMIT_S = 240      # a case takes milliseconds to a few seconds
LAST_CASE = None        # file holding the case a worker is working on
SHRINK = True


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness (not the code under test) is at fault."""


class Facet(object):
    def __init__(self, fn, strategy, quick, thorough, rule, corners, shards):
        self.fn = fn
        self.name = fn.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.corners = corners or []
        self.shards = shards


def facet(strategy, quick=50, thorough=None, rule="", corners=None,
          shards=None):
    def deco(fn):
        fn._facet = Facet(fn, strategy, quick, thorough or quick * 20, rule,
                          corners, shards)
        return fn
    return deco


def facets_of(module):
    out = []
    for key, val in vars(module).items():
        f = getattr(val, "_facet", None)
        if isinstance(f, Facet) and getattr(val, "__module__", None) == \
                module.__name__:
            out.append(f)
    names = [f.name for f in out]
    assert len(set(names)) == len(names)
    return out


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True,
                                   default=str).encode()).hexdigest()


def _quiet():
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)


def _on_alarm(signum, frame):
    raise Violation("no answer within %s s" % CASE_LIMIT_S)


def run_case(f, case):
    """Run a facet on one case with a pinned global RNG state."""
    import numpy as np
    import random
    # The case always goes through JSON so a replay sees identical values.
    text = json.dumps(case)
    case = json.loads(text)
    if LAST_CASE:
        with open(LAST_CASE, "w") as fh:
            fh.write(text)
    seed = int(case_key(case)[:8], 16)
    np.random.seed(seed)
    random.seed(seed)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f.fn(case)
    finally:
        signal.alarm(0)


def _fewer_mutations(eng):
    """By default five of six generated cases repeat most of the previous
    one, which is a waste where a case takes long: do so for few of them."""
    runner = eng.ConjectureRunner
    full = getattr(runner, "generate_mutations_from", None)
    if full is None or getattr(full, "_sparse", False):
        return

    def sparse(self, data):
        if self.random.random() < 0.05:
            full(self, data)
    sparse._sparse = True
    runner.generate_mutations_from = sparse


def _task(args):
    """One shard of one facet, in a worker process."""
    modname, fname, shard, n_examples, seed = args
    t0 = time.time()
    res = dict(facet=fname, shard=shard, evaluations=0, nontrivial=set(),
               samples=[], failure=None, error=None, labels={})
    devnull = open(os.devnull, "w")
    real_stdout, real_stderr = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    saved = os.dup(1), os.dup(2)
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    try:
        _quiet()
        module = importlib.import_module(modname)
        f = [x for x in facets_of(module) if x.name == fname][0]
        last = {}

        def record(case):
            res["evaluations"] += 1
            try:
                got = run_case(f, case)
            except HarnessError:
                raise
            except Exception as exc:
                tb = traceback.format_exc()
                last["case"] = case
                last["msg"] = "%s: %s" % (type(exc).__name__, exc)
                last["tb"] = tb
                raise
            if got:
                k = case_key(case)
                if k not in res["nontrivial"]:
                    res["nontrivial"].add(k)
                    if len(res["samples"]) < 2:
                        res["samples"].append({"facet": fname, "case": case})
                if isinstance(got, str):
                    res["labels"][got] = res["labels"].get(got, 0) + 1

        if shard == 0:
            for case in f.corners:
                try:
                    record(case)
                except HarnessError:
                    raise
                except Exception:
                    res["failure"] = dict(last)
                    break

        if res["failure"] is None and n_examples > 0:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 40
            _fewer_mutations(eng)
            fseed = int(hashlib.sha1(("%s/%s/%d/%d" % (
                modname, fname, shard, seed)).encode()).hexdigest()[:12], 16)

            @hypothesis.seed(fseed)
            @settings(max_examples=n_examples, database=None, deadline=None,
                      derandomize=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate] + [Phase.shrink] * SHRINK)
            @given(f.strategy)
            def test(case):
                record(case)

            try:
                test()
            except HarnessError:
                raise
            except Exception as exc:
                if not last:
                    raise HarnessError(
                        "generator failed: %s" % traceback.format_exc())
                res["failure"] = dict(last)
    except Exception:
        res["error"] = traceback.format_exc()
    finally:
        sys.stdout = real_stdout
        sys.stderr = real_stderr
        for fd, keep in ((1, saved[0]), (2, saved[1])):
            os.dup2(keep, fd)
            os.close(keep)
        devnull.close()
    res["wall"] = time.time() - t0
    return res


def plan(module, tier, seed):
    tasks = []
    for f in facets_of(module):
        n = f.quick if tier == "quick" else f.thorough
        shards = f.shards or (4 if n >= 40 else 2 if n >= 10 else 1)
        if tier == "thorough":
            shards = max(shards, 8)
        shards = max(1, min(shards, n))
        per = [n // shards + (1 if i < n % shards else 0)
               for i in range(shards)]
        for i, k in enumerate(per):
            tasks.append((module.__name__, f.name, i, k, seed))
    # interleave so that long facets start early
    tasks.sort(key=lambda t: (t[2],))
    return tasks


def load_known(prop):
    """known_findings.txt: lines 'finding: property=P.. case=<json file> ...'"""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and \
                    ("property=%s " % prop) in line:
                out.append(line[len("finding:"):].strip())
    return out


def _child(task, conn, path):
    global LAST_CASE
    LAST_CASE = path
    conn.send(_task(task))
    conn.close()


def run_tasks(tasks, jobs, failfast=False):
    """Run every task in a process of its own, a few at a time.

    A process that dies (a crash in the compiled code) is a failure on the
    case it was working on.
    """
    ctx = mp.get_context("fork")
    scratch = tempfile.mkdtemp(prefix="vp-cases-")
    waiting = list(tasks)[::-1]
    running = {}
    try:
        while waiting or running:
            while waiting and len(running) < jobs:
                t = waiting.pop()
                path = os.path.join(scratch, "%s-%d" % (t[1], t[2]))
                rx, tx = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(t, tx, path))
                p.start()
                tx.close()
                running[rx] = (p, t, path, time.time())
            for rx in mp.connection.wait(list(running)):
                p, t, path, t0 = running.pop(rx)
                try:
                    r = rx.recv()
                except EOFError:
                    p.join()
                    r = dict(facet=t[1], shard=t[2], evaluations=1,
                             nontrivial=set(), samples=[], failure=None,
                             error=None, labels={}, wall=time.time() - t0)
                    what = "the process died (exit code %s)" % p.exitcode
                    if os.path.exists(path):
                        r["failure"] = dict(case=json.load(open(path)),
                                            msg=what, tb=what)
                    else:
                        r["error"] = what
                rx.close()
                p.join()
                yield r
                if failfast and r["failure"]:
                    waiting = []
                    for q in running.values():
                        q[0].kill()
                    for q in running.values():
                        q[0].join()
                    running = {}
    finally:
        for q in running.values():
            q[0].kill()
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--failfast", action="store_true",
                    help="stop at the first failure, without shrinking it")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.failfast:
        global SHRINK
        SHRINK = False
    prop, tier = a.property, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    _quiet()
    sys.path.insert(0, VERIF)
    if os.environ.get("VP_REPO"):      # development only: another checkout
        sys.path.insert(0, os.environ["VP_REPO"])
    else:
        sys.path.insert(0, REPO)
    module = importlib.import_module("checks.%s" % prop)
    import turbustat
    root = os.path.realpath(os.environ.get("VP_REPO", REPO))
    if not os.path.realpath(turbustat.__file__).startswith(root + "/"):
        print("turbustat imported from", turbustat.__file__)
        return 3

    # loaded once here, for all worker processes
    for name in ("turbustat.statistics", "turbustat.simulator",
                 "turbustat.moments", "statsmodels.api", "spectral_cube",
                 "radio_beam", "emcee", "corner", "astrodendro", "scipy.odr",
                 "matplotlib.pyplot", "turbustat.moments.make_moments",
                 "astropy.convolution", "astropy.modeling"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass

    if a.replay:
        rep = json.load(open(a.replay))
        f = [x for x in facets_of(module) if x.name == rep["facet"]][0]
        try:
            run_case(f, rep["case"])
        except HarnessError:
            raise
        except Exception:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay passes")
        return 0

    tasks = plan(module, tier, a.seed)
    if a.facet:
        tasks = [t for t in tasks if t[1] in a.facet.split(",")]
    if a.scale != 1.0:
        tasks = [t[:3] + (max(1, int(t[3] * a.scale)),) + t[4:]
                 for t in tasks]
    results = []
    for r in run_tasks(tasks, a.jobs, a.failfast):
        results.append(r)
        if a.v:
            print("%-40s #%d n=%d nt=%d %.1fs %s" % (
                r["facet"], r["shard"], r["evaluations"],
                len(r["nontrivial"]), r["wall"],
                "FAIL" if r["failure"] else "ERR" if r["error"] else ""),
                flush=True)

    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = set()
    per = {}
    for r in sorted(results, key=lambda r: (r["facet"], r["shard"])):
        nontrivial |= {r["facet"] + k for k in r["nontrivial"]}
        p = per.setdefault(r["facet"], dict(evaluations=0, nontrivial=0,
                                            cpu_s=0.0, labels={}))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["nontrivial"])
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
    samples = []
    seen = set()
    for r in sorted(results, key=lambda r: (r["shard"], r["facet"])):
        if r["facet"] in seen:
            continue
        if r["samples"]:
            seen.add(r["facet"])
            samples.append(r["samples"][0])
    rules = "; ".join("%s: %s" % (f.name, f.rule)
                      for f in facets_of(module) if f.rule)
    rule = ("Cases are drawn by Hypothesis strategies (seeded by VERIF_SEED) "
            "as JSON values from which all inputs are built. Non-trivial: "
            + (getattr(module, "RULE", "") or "the oracle comparison ran")
            + ". " + rules)

    known = load_known(prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evaluations,
                            distinct_nontrivial=len(nontrivial),
                            rule=rule, samples=samples[:12], facets=per,
                            known_findings=known),
              assumptions=getattr(module, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    if not a.facet:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)

    for line in known:
        print("KNOWN-FINDING: %s" % line)

    if failures:
        seen = set()
        for r in failures:
            if r["facet"] in seen:
                continue
            seen.add(r["facet"])
            rep = dict(property=prop, facet=r["facet"],
                       case=r["failure"]["case"], message=r["failure"]["msg"],
                       traceback=r["failure"]["tb"], seed=a.seed, tier=tier)
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (prop, r["facet"]))
            with open(path, "w") as fh:
                json.dump(rep, fh, indent=1, default=str)
            print("--- %s.%s" % (prop, r["facet"]))
            print("case:", json.dumps(r["failure"]["case"], default=str))
            print(r["failure"]["tb"][-1800:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    if errors:
        for r in errors:
            print("HARNESS ERROR in %s" % r["facet"])
            print(r["error"])
        return 3
    print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d "
          "wall=%.1fs" % (prop, tier, a.seed, evaluations, len(nontrivial),
                          time.time() - t0))
    return 0


