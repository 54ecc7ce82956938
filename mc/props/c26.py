"""C26: calls that overlap in time, or are broken off, do not disturb each other.

Stateless exploration of the real code under a controlled scheduler. Two calls run in two threads of
which exactly one runs at a time; every line of wulfric that a thread is about to execute is a point
where the scheduler may hand over to the other thread. All schedules with one preemption (at every
point) are executed, and, for pairs of short calls, all with two. A second exploration breaks a call
off at every point (an exception arrives there, as from Ctrl-C or a signal handler with a time
limit) and asks again. A third one asks in processes that differ in the order in which sets and
hashes are walked.
"""

import os
import pickle
import random
import subprocess
import sys
import threading
import time
import warnings

import numpy as np

from mc.core import Result, VERIF
from mc.props import c21
from mc.props.c22 import equal

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all schedules of two threads with one preemption, at the first and the last execution of every line "
        "of wulfric, for ~60 calls against 3 or 4 calls on the same and on another crystal; all schedules with two "
        "preemptions for pairs of 18 short calls; every call broken off at the same points and asked again; "
        "every call in 16 processes with other hash seeds; process-wide settings after every call",
        thorough="the first three and the last two executions of every line, two worlds, ~10 partners, two "
        "preemptions for more pairs, 64 hash seeds",
    ),
    assumptions=[
        "a line of wulfric is executed without interruption; the libraries it calls are not preempted",
        "lines that are executed many times: the first and the last executions are the points",
    ],
)

SKIP = ("plot", "plot A", "plot B")
SLOW = ("ws", "bz", "lepage")
SHORT = (
    "reciprocal", "params", "products", "volume", "angle", "spherical", "spherical axis", "vector", "distance",
    "path list", "path string", "kp labels", "kp ticks", "kp string", "kinds", "species", "unique names",
    "transformation", "kp ticks relative", "spherical radians", "lattice params",
)  # fmt: skip
SOURCE = None


class BrokenOff(KeyboardInterrupt):
    pass


def source():
    global SOURCE
    if SOURCE is None:
        import wulfric

        SOURCE = os.path.dirname(wulfric.__file__) + os.sep
    return SOURCE


class Tracer:
    """Calls ``at(index, (file, line))`` before every line of wulfric."""

    def __init__(self, at):
        self.at, self.n, self.src = at, 0, source()

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.src):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n += 1
            self.at(n, frame)
        return self.line


def outcome(f, world):
    try:
        return c21.norm(f(world))
    except BrokenOff:
        return ["broken off"]
    except Exception as e:  # noqa: BLE001
        return ["exception", type(e).__name__]


def points(f, world, first, last):
    """Indices of the scheduling points of a call and its answer"""
    seen = {}

    def at(n, frame):
        seen.setdefault((frame.f_code, frame.f_lineno), []).append(n)

    sys.settrace(Tracer(at))
    try:
        answer = outcome(f, world)
    finally:
        sys.settrace(None)
    out = set()
    for ns in seen.values():
        out.update(ns[:first])
        out.update(ns[len(ns) - last :])  # nothing if last is 0
    return sorted(out), answer


class Schedule:
    """Two calls in two threads, one of which runs at a time. Thread i hands over at the points
    ``stops[i]`` and when it ends."""

    def __init__(self, calls, world, stops, patience=5.0):
        self.calls, self.world, self.stops, self.patience = calls, world, stops, patience
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.blocked = False
        self.switches = 0

    def thread(self, i):
        self.go[i].acquire()
        stops = self.stops[i]

        def at(n, frame):
            if n in stops and not self.done[1 - i]:
                self.switches += 1
                self.go[1 - i].release()
                if not self.go[i].acquire(timeout=self.patience):
                    self.blocked = True  # the other one waits for this one: not a possible schedule

        sys.settrace(Tracer(at))
        try:
            self.out[i] = outcome(self.calls[i], self.world)
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.go[1 - i].release()

    def run(self):
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in threads:
            t.start()
        self.go[0].release()
        for t in threads:
            t.join(4 * self.patience + 10)
            if t.is_alive():
                return None
        return self.out


def settings():
    return dict(
        printing=repr(sorted(np.get_printoptions().items(), key=str)),
        errors=repr(sorted(np.geterr().items())),
        folder=os.getcwd(),
        environment=repr(sorted(os.environ.items())),
        numpy_random=repr(np.random.get_state()),
        random=hash(random.getstate()),
        recursion=sys.getrecursionlimit(),
        warnings=repr(warnings.filters),
        out=id(sys.stdout),
    )


def menu(w, slow=False):
    ops = {k: v[0] for k, v in c21.menu(w).items() if k not in SKIP}
    for t in "AB":
        ops |= {
            f"kp ticks relative {t}": lambda W, t=t: W[t].kp.ticks(relative=True),
            f"kp flat relative {t}": lambda W, t=t: W[t].kp.flat_points(relative=True),
            f"kp table short {t}": lambda W, t=t: W[t].kp.hs_table(decimals=2),
            f"kp read {t}": lambda W, t=t: read(W[t].kp),
            f"names repeated {t}": lambda W, t=t: w.crystal.get_unique_names(W[t].atoms),
            f"spherical radians {t}": lambda W, t=t: w.geometry.get_spherical(W[t].vector, in_degrees=False),
            f"lattice params {t}": lambda W, t=t: w.cell.from_params(*w.cell.get_params(W[t].cell)),
            f"compare {t}": lambda W, t=t: [
                w.compare_with_tolerance(W[t].vector[i], c, 0.3, rtol=0.1 * i, atol=0.0) for i in range(3) for c in ("<", "==", ">=")
            ],
            f"sugar {t}": lambda W, t=t: sugared(w, W[t].atoms),
        }
    return {k: v for k, v in ops.items() if k.rsplit(" ", 1)[0] in SLOW or not slow}


def read(kp):
    return [kp.path, kp.path_string, kp.n, kp.labels, kp.ticks(), kp.points(), kp.hs_names, kp.hs_coordinates, kp.rcell]


def sugared(w, atoms):
    a = w.add_sugar(atoms)
    a.extra = [1, 2]
    out = [list(a.keys()), a.names]
    return [out, w.remove_sugar(a)]


def partners(name, deep):
    base, tag = name.rsplit(" ", 1)
    other = "B" if tag == "A" else "A"
    out = [f"{base} {other}", f"{base} {tag}"]
    if base in SLOW:
        return out[:1] + ([f"params {tag}"] if deep else [])
    if base.startswith(("conventional", "primitive", "path", "from_crystal", "symbol", "variation", "data")):
        out += [f"conventional SC {other}", f"path HPKOT False {tag}"]
    elif base.startswith("kp"):
        out = out[1:] + [f"kp added {other}", f"kp read {tag}"]
    else:
        out += [f"data {other}"]
    if deep:
        out += [f"{b} {t}" for b in ("niggli own", "kp flat", "kinds", "validate") for t in "AB"]
    return [p for i, p in enumerate(out) if p not in out[:i]]


def names():
    """The menu without making a world: the same for every world"""
    import wulfric as w

    return list(menu(w))


def jobs(tier):
    deep = tier != "quick"
    out = []
    everything = names()
    worlds = [("low", "arrays")] if not deep else [("low", "arrays"), ("kinds", "lists")]
    for world, form in worlds:
        base = dict(world=world, form=form, deep=deep)
        for name in everything:
            if not name.endswith(" A"):
                continue
            slow = name.rsplit(" ", 1)[0] in SLOW
            if slow and not deep and name != "ws A":
                continue
            parts = 8 if slow else 2 if name.startswith(("path", "from_crystal")) else 1
            for part in range(parts):
                out.append(dict(base, kind="one", name=name, part=part, parts=parts))
            if not slow or deep:
                for part in range(parts):
                    out.append(dict(base, kind="broken", name=name, part=part, parts=parts))
        for i, a in enumerate(SHORT):
            out.append(dict(base, kind="two", name=f"{a} A", others=[f"{b} B" for b in SHORT[i:]]))
        if deep:
            for a in ("symbol data", "variation data", "kp flat", "kp copy edited", "kp table", "conventional HPKOT data"):
                for b in ("kp copy edited", "conventional HPKOT data", "reciprocal"):
                    out.append(dict(base, kind="two", name=f"{a} A", others=[f"{b} B"]))
        out.append(dict(base, kind="settings"))
    for seed in range(64 if deep else 16):
        out.append(dict(kind="process", seed=seed + 1, deep=deep))
    return sorted(out, key=lambda j: j.get("name", "").rsplit(" ", 1)[0] not in SLOW)


def run(job):
    import wulfric as w

    warnings.simplefilter("ignore")
    res = Result()
    kind = job["kind"]
    if kind == "process":
        run_process(res, job)
        return res
    if kind == "settings":
        run_settings(w, res, job)
        return res
    ops = menu(w)
    world = c21.make_world(w, job["world"], job["form"])
    user = {t: vars(s) for t, s in world.items()}
    before = c21.digest(user)
    first, last = (3, 2) if job["deep"] else (1, 1)
    if job["name"].rsplit(" ", 1)[0] in SLOW:
        first, last = (1, 1) if job["deep"] else (1, 0)
    name = job["name"]
    a = ops[name]
    t0 = time.time()
    outcome(a, world)
    t0 = time.time()
    alone = outcome(a, world)
    stops, again = points(a, world, first, last)
    patience = 5 + 100 * (time.time() - t0)
    res.check(equal(alone, again), f"{name}/twice", f"{name}: a second call answers {c21.show(again)}, not {c21.show(alone)}")
    if kind == "two":
        run_two(res, job, ops, world, before, user, patience)
        return res
    mine = stops[job["part"] :: job["parts"]]
    res.count("points", len(mine))
    if kind == "one":
        others = partners(name, job["deep"])
        want = {}
        for other in others:
            outcome(ops[other], world)
            want[other] = outcome(ops[other], world)
        for other in others:
            for k in mine:
                one(res, (name, other), (a, ops[other]), (alone, want[other]), ({k}, ()), world, patience, before, user)
                if len(res.violations) > 3:
                    return res
    else:
        other = partners(name, False)[0]
        b = ops[other]
        outcome(b, world)
        want = outcome(b, world)
        for k in mine:

            def at(n, frame, k=k):
                if n == k:
                    raise BrokenOff(f"{frame.f_code.co_name}:{frame.f_lineno}")

            sys.settrace(Tracer(at))
            try:
                cut = outcome(a, world)
            finally:
                sys.settrace(None)
            res.transitions += 1
            res.states += 1
            res.traces += 2
            if cut == ["broken off"]:
                res.count("broken off")
            key = f"broken/{name}/{k}"
            now = c21.digest(user)
            if now != before:
                res.violation(key, f"{name} that is broken off at its point {k} leaves its arguments changed")
                return res
            for n, f, good in ((other, b, want), (name, a, alone)):
                got = outcome(f, world)
                if not equal(good, got):
                    res.violation(
                        key, f"after {name} was broken off at its point {k}, {n} answers {c21.show(got)}, not {c21.show(good)}"
                    )
                    return res
    res.sample(job=job, points=len(mine), schedules=res.states)
    return res


def one(res, names, calls, want, stops, world, patience, before, user):
    s = Schedule(calls, world, stops, patience)
    got = s.run()
    res.states += 1
    res.transitions += s.switches + 1
    res.traces += 1
    key = f"threads/{names[0]}/{names[1]}/{sorted(stops[0])}/{sorted(stops[1])}"
    where = f"{names[0]} interrupted at its points {sorted(stops[0])} by {names[1]}"
    if stops[1]:
        where += f", which is interrupted at {sorted(stops[1])}"
    if got is None:
        res.violation(key, f"{where}: the two threads do not finish")
        return
    if s.blocked:
        res.count("not possible: one waits for the other")
    if s.switches:
        res.count("preempted")
    for n, good, g in zip(names, want, got):
        if not equal(good, g):
            res.violation(key, f"{where}: {n} answers {c21.show(g)}, alone {c21.show(good)}")
    if c21.digest(user) != before:
        res.violation(key, f"{where}: the arguments are changed")


def run_two(res, job, ops, world, before, user, patience):
    a = ops[job["name"]]
    first, last = (1, 1) if not job["deep"] else (2, 1)
    stops_a, want_a = points(a, world, first, last)
    for other in job["others"]:
        b = ops[other]
        outcome(b, world)
        stops_b, want_b = points(b, world, first, last)
        for k in stops_a:
            for m in stops_b:
                one(res, (job["name"], other), (a, b), (want_a, want_b), ({k}, {m}), world, patience, before, user)
                if len(res.violations) > 3:
                    return
    res.sample(name=job["name"], others=len(job["others"]), schedules=res.states)


def run_settings(w, res, job):
    ops = menu(w)
    world = c21.make_world(w, job["world"], job["form"])
    for f in ops.values():
        outcome(f, world)  # everything that is imported late is imported now
    shown = warnings.showwarning
    warnings.showwarning = lambda *a, **k: None
    try:
        np.set_printoptions(precision=5, suppress=True, linewidth=77)
        np.seterr(divide="print", over="print", under="ignore", invalid="print")
        np.random.seed(7)
        random.seed(7)
        warnings.resetwarnings()
        warnings.filterwarnings("default", message="something")
        before = settings()
        for name, f in ops.items():
            outcome(f, world)
            now = settings()
            res.states += 1
            res.transitions += 1
            res.traces += 1
            for k in before:
                if now[k] != before[k]:
                    res.violation(f"settings/{name}/{k}", f"{name} changes the {k} of the process: {before[k]} -> {now[k]}")
            if now != before:
                return
    finally:
        warnings.showwarning = shown


# ------------------------------------------------------------------------------------------
# processes
# ------------------------------------------------------------------------------------------
PROBE = ("Cr", "Br", "O")


def answers():
    import wulfric as w

    warnings.simplefilter("ignore")
    out = {}
    for world_name, form in (("kinds", "names"), ("low", "arrays")):
        world = c21.make_world(w, world_name, form)
        for name, f in menu(w).items():
            if name.rsplit(" ", 1)[0] not in SLOW:
                out[f"{world_name}: {name}"] = outcome(f, world)
    cell = c21.lattice("oF")
    many = dict(
        names=["Cr1", "O1", "Br2", "Fe", "O1", "Xx"], positions=[[0, 0, i / 7] for i in range(6)]
    )
    some = dict(many, species=["Cr", "O", "Br", "Fe", "O", "X"])
    for k, atoms in (("names", many), ("species", some)):
        calls = {
            "kinds": lambda a: w.get_spglib_types(a),
            "names all": lambda a: w.crystal.get_unique_names(a, strategy="all"),
            "names": lambda a: w.crystal.get_unique_names(a),
            "species": lambda a: w.crystal.get_atoms_species(a),
            "conventional": lambda a: w.crystal.get_conventional(cell, a),
            "primitive": lambda a: w.crystal.get_primitive(cell, a, "SC"),
            "path": lambda a: w.kpoints.get_path_and_points(cell, a, with_time_reversal=False),
            "data": lambda a: w.get_spglib_data(cell, a),
        }
        for name, f in calls.items():
            out[f"many {k}: {name}"] = outcome(f, atoms)
    for name, (f, _) in c21.example_menu(w).items():
        if name.startswith("example"):
            out[name] = outcome(f, {})
    return out


def run_process(res, job):
    here = answers()
    import wulfric

    env = dict(os.environ, PYTHONHASHSEED=str(job["seed"]), OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    env["PYTHONPATH"] = VERIF + os.pathsep + os.path.dirname(os.path.dirname(wulfric.__file__))
    out = subprocess.run(
        [sys.executable, "-W", "ignore", "-m", "mc.props.c26"], env=env, cwd=VERIF, capture_output=True, timeout=250
    )
    if out.returncode:
        res.violation(f"process/{job['seed']}", f"a process with another hash seed fails: {out.stderr.decode()[-600:]}")
        return
    probe, there = pickle.loads(out.stdout)
    res.see("orders of a set of three names", probe)
    for name in here:
        res.states += 1
        res.transitions += 1
        res.traces += 1
        if not (name in there and equal(here[name], there[name])):
            res.violation(
                f"process/{name}",
                f"{name}: {c21.show(there.get(name))} in a process with the hash seed {job['seed']}, {c21.show(here[name])} in another",
            )
            return


def final(tier, labels, counters, r):
    r.check(counters.get("preempted", 0) > 1000, "coverage", "too few schedules with a preemption")
    r.check(counters.get("broken off", 0) > 500, "coverage", "too few calls were broken off")
    r.check(len(labels.get("orders of a set of three names", ())) >= 3, "coverage", "too few orders of a set")


if __name__ == "__main__":
    data = pickle.dumps((tuple(set(PROBE)), answers()), protocol=5)
    sys.stdout.buffer.write(data)
