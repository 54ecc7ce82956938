"""Explorer, reporting and evidence shared by every check.

A property module (mc/props/<id>.py) provides

    jobs(tier)   -> list of JSON-serialisable job descriptions: together they enumerate the bounded
                    space of the property completely
    run(job)     -> Result, explores one part of the space on the real code

A job is also what a replay file holds: ``check.py <ID> --replay FILE`` runs that job again.
"""

import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOB_LIMIT = 300  # seconds, one job
RUN_LIMIT = 800  # seconds, one check
MAX_REPORTED = 5


class NotTerminated(Exception):
    pass


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Result:
    """What one job covered and what it found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.samples = []
        self.counters = {}
        self.labels = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def see(self, group, label):
        """Remember which labels of a group were reached."""
        self.labels.setdefault(group, set()).add(str(label))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def violation(self, key, text, **detail):
        """key identifies the failing input / call site / history for the known-findings file."""
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, text=text, detail=jsonable(detail)))

    def check(self, ok, key, text, **detail):
        if not ok:
            self.violation(key, text, **detail)
        return ok

    def pack(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            violations=self.violations,
            samples=self.samples,
            counters=self.counters,
            labels={k: sorted(v) for k, v in self.labels.items()},
        )


def explore(initial, successors, key, visit, depth, result=None):
    """Breadth-first exploration of every history up to ``depth`` operations, states that have the
    same key are merged. ``successors(state)`` yields (operation name, next state)."""
    frontier = []
    seen = {}
    for s in initial:
        k = key(s)
        if k not in seen:
            seen[k] = ()
            frontier.append(s)
            visit(s, ())
    transitions = 0
    for _ in range(depth):
        nxt = []
        for s in frontier:
            trace = seen[key(s)]
            for name, t in successors(s):
                transitions += 1
                k = key(t)
                if k in seen:
                    continue
                seen[k] = trace + (name,)
                visit(t, seen[k])
                nxt.append(t)
        frontier = nxt
        if not frontier:
            break
    if result is not None:
        result.states += len(seen)
        result.transitions += transitions
    return seen


def _alarm(signum, frame):
    raise NotTerminated()


def _safe_run(args):
    module_name, job = args
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, JOB_LIMIT)
    try:
        module = importlib.import_module(module_name)
        res = module.run(job)
        out = res.pack()
    except NotTerminated:
        res = Result()
        res.violation(
            "does-not-terminate",
            f"a part of the space that takes seconds did not finish in {JOB_LIMIT} s",
        )
        out = res.pack()
    except BaseException as e:  # noqa: BLE001 - any escape from the code under test is a finding
        res = Result()
        res.violation(
            f"exception:{type(e).__name__}",
            f"unexpected {type(e).__name__}: {str(e)[:300]}",
            traceback=traceback.format_exc()[-3000:],
        )
        out = res.pack()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["job"] = job
    out["wall"] = time.time() - t0
    return out


def known_findings():
    """{(property, key): text} of the committed file."""
    path = os.path.join(VERIF, "known_findings.txt")
    found = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            fields = line[len("finding:") :].split(None, 2)
            prop = fields[0].split("=", 1)[1]
            key = fields[1].split("=", 1)[1]
            found[(prop, key)] = fields[2] if len(fields) > 2 else ""
    return found


def run_check(prop, module, info, replay=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()

    if replay is not None:
        job = json.load(open(replay, encoding="utf-8"))["job"]
        out = _safe_run((module.__name__, job))
        for v in out["violations"]:
            print(f"{v['key']}: {v['text']}")
            for k, d in v["detail"].items():
                print(f"   {k}: {d}")
        if out["violations"]:
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print("replay: the property holds")
        return 0

    jobs = module.jobs(tier)
    outs = []
    complete = True
    n_proc = max(1, min(8, os.cpu_count() or 1, len(jobs)))
    known = known_findings()
    bad = 0
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(n_proc)
    try:
        it = pool.imap_unordered(_safe_run, [(module.__name__, j) for j in jobs])
        for _ in range(len(jobs)):
            left = RUN_LIMIT - (time.time() - t0)
            try:
                out = it.next(timeout=max(left, 0.1))
            except multiprocessing.TimeoutError:
                complete = False
                if not bad:
                    # never a silent pass: what was not explored is not claimed, and a tree on which
                    # the bounded space cannot be finished in many times the usual time is reported
                    r = Result()
                    r.violation(
                        "does-not-terminate",
                        f"the bounded space was not finished in {RUN_LIMIT} s",
                    )
                    out = r.pack()
                    out["job"] = jobs[0]
                    outs.append(out)
                break
            outs.append(out)
            bad += sum(1 for v in out["violations"] if (prop, v["key"]) not in known)
            if bad >= MAX_REPORTED:
                complete = complete and len(outs) == len(jobs)
                break
    finally:
        pool.terminate()
        pool.join()

    # deterministic order
    order = {json.dumps(jsonable(j), sort_keys=True): i for i, j in enumerate(jobs)}
    outs.sort(key=lambda o: order.get(json.dumps(jsonable(o["job"]), sort_keys=True), 0))

    violations, seen_known = [], {}
    for out in outs:
        for v in out["violations"]:
            if (prop, v["key"]) in known:
                seen_known[v["key"]] = known[(prop, v["key"])]
            else:
                violations.append((v, out["job"]))

    # coverage that must have been reached, otherwise the machinery itself is broken
    labels = {}
    counters = {}
    for out in outs:
        for k, v in out["labels"].items():
            labels.setdefault(k, set()).update(v)
        for k, v in out["counters"].items():
            counters[k] = counters.get(k, 0) + v
    if complete and hasattr(module, "final"):
        r = Result()
        module.final(tier, labels, counters, r)
        for v in r.violations:
            violations.append((v, dict(final=True)))

    samples = []
    for out in outs:
        for s in out["samples"]:
            if len(samples) < 6:
                samples.append(s)
    coverage = dict(
        states=sum(o["states"] for o in outs),
        transitions=sum(o["transitions"] for o in outs),
        traces_validated_against_impl=sum(o["traces"] for o in outs),
        samples=samples,
        exhaustive=bool(complete),
        jobs=len(outs),
        space=info.get("space", {}).get(tier, info.get("space", {}).get("quick", "")),
    )
    if counters:
        coverage["counters"] = counters
    if labels:
        coverage["reached"] = {k: sorted(v) for k, v in labels.items() if len(v) <= 300}
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=info["level"],
        coverage=jsonable(coverage),
        assumptions=info.get("assumptions", []),
        wall_s=round(time.time() - t0, 3),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)

    for key, text in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {key} {text}")
    print(
        f"{prop} {tier}: states={coverage['states']} transitions={coverage['transitions']} "
        f"traces={coverage['traces_validated_against_impl']} jobs={len(outs)}/{len(jobs)} "
        f"violations={len(violations)} wall={evidence['wall_s']}s"
    )
    if not violations:
        return 0
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for i, (v, job) in enumerate(violations[:MAX_REPORTED]):
        path = os.path.join(VERIF, "replay", f"{prop}-{i}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(dict(property=prop, job=jsonable(job), violation=v), f, indent=1)
        print(f"  {v['key']}: {v['text']}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1
