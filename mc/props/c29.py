"""C29: what wulfric returns and what it raises can be copied, stored and sent to another process.

The states are objects of wulfric (symmetry data, k-path objects, sugared dictionaries, cells and atoms,
plots, exceptions) after sequences of round trips: a shallow or a deep copy, or one of the protocols of
pickle. All sequences up to the stated length are made; after each the object has to do the same as the
original, and, unless the last copy was shallow, what is done to it must not reach the original.
A second exploration makes calls in the processes of a pool, where the answer or the exception arrives.
"""

import base64
import copy
import dataclasses
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from mc import crystals as cr
from mc import zoo
from mc.core import NotTerminated, Result, VERIF
from mc.props import c21, c22, c28
from mc.props.c22 import equal

INFO = dict(
    level="model_checking",
    space=dict(
        quick="8 round trips (copy, deepcopy, 6 protocols; the method copy): symmetry data of the 230 standard settings and of all Bravais "
        "lattices with every function that accepts them, all sequences of 2 for the Bravais lattices; k-path objects after "
        "all histories of 2 edits, before and after the round trip; sugared dictionaries; figures; ~60 failing calls "
        "with all sequences of 3; ~180 calls in a pool of processes",
        thorough="530 settings, histories of 3 edits",
    ),
    assumptions=["a round trip may share what is immutable"],
)


def trips():
    out = {"copy": copy.copy, "deepcopy": copy.deepcopy}
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        out[f"pickle{p}"] = lambda x, p=p: pickle.loads(pickle.dumps(x, protocol=p))
    return out


TRIPS = trips()
METHOD = "method"  # of objects that have their own


def send(res, label, obj, seq):
    """The object after a sequence of round trips"""
    for t in seq:
        try:
            new = obj.copy() if t == METHOD else TRIPS[t](obj)
        except NotTerminated:
            raise
        except Exception as e:  # noqa: BLE001
            res.violation(f"{label}/{'+'.join(seq)}", f"{label}: {t} fails: {type(e).__name__}: {str(e)[:200]}")
            return None
        if type(new) is not type(obj):
            res.violation(f"{label}/{'+'.join(seq)}", f"{label}: {t} gives a {type(new).__name__}, not a {type(obj).__name__}")
            return None
        obj = new
    res.states += 1
    res.transitions += len(seq)
    return obj


def sequences(length, some=None):
    names = some or list(TRIPS)
    return [s for n in range(1, length + 1) for s in itertools.product(names, repeat=n)]


def jobs(tier):
    deep = tier != "quick"
    out = []
    halls = list(range(1, 531)) if deep else list(cr.standard_halls().values())
    for p in zoo.split(halls, 32 if not deep else 80):
        out.append(dict(kind="data", halls=p, deep=deep))
    for i in range(len(zoo.BRAVAIS_SG)):
        out.append(dict(kind="bravais", index=i, deep=deep))
    for i in range(8):
        out.append(dict(kind="paths", part=i, parts=8, deep=deep))
    for i in range(4):
        out.append(dict(kind="failures", part=i, parts=4, deep=deep))
    out.append(dict(kind="values", deep=deep))
    out.append(dict(kind="figures", deep=deep))
    out.append(dict(kind="pool", world="kinds", form="names"))
    out.append(dict(kind="pool", world="low", form="lists"))
    return out


def run(job):
    import wulfric as w

    warnings.simplefilter("ignore")
    res = Result()
    globals()[f"run_{job['kind']}"](w, res, job)
    return res


# ------------------------------------------------------------------------------------------
# symmetry data
# ------------------------------------------------------------------------------------------
def run_data(w, res, job):
    names = list(TRIPS)
    for hall in job["halls"]:
        for c in zoo.crystals(hall, 0):
            # two round trips for a setting, all of them for a group of neighbouring settings
            mine = [names[hall % len(names)], names[(hall // 8 + 3) % len(names)]]
            data_of(w, res, c, [(m,) for m in dict.fromkeys(mine)], job)


def run_bravais(w, res, job):
    bl = list(zoo.BRAVAIS_SG)[job["index"]]
    for c in zoo.bravais_crystals(2 if job["deep"] else 1):
        if c.label.startswith(bl + "/"):
            data_of(w, res, c, sequences(2), job)


def data_of(w, res, c, seqs, job):
    cell, atoms = c.cell, c.atoms()
    data = w.get_spglib_data(cell, atoms, spglib_symprec=2e-5, spglib_angle_tolerance=0.01)
    functions = c22.functions(w)
    want = None
    facts = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in vars(data).items()}
    for n, seq in enumerate(seqs):
        label = f"data/{c.label}"
        d = send(res, label, data, seq)
        if d is None:
            return
        key = f"{label}/{'+'.join(seq)}"
        names = [f.name for f in dataclasses.fields(data)] if dataclasses.is_dataclass(data) else list(facts)
        for k in names:
            if not equal(getattr(data, k), getattr(d, k, "nothing")):
                res.violation(key, f"{label}: {k} is {getattr(d, k, None)} after {seq}, not {getattr(data, k)}")
                return
        for k in ("symprec", "space_group_number"):
            try:
                setattr(d, k, 7)
            except AttributeError:
                pass
            else:
                res.violation(key, f"{label}: {k} of the data after {seq} can be changed")
        if want is None:
            want = {k: c22.answer(f, cell, atoms, data) for k, f in functions.items()}
        # all functions after the first sequences, one of them after the others
        few = list(functions) if n < 2 else [list(functions)[n % len(functions)]]
        for k in few:
            got = c22.answer(functions[k], cell, atoms, d)
            res.traces += 1
            if not equal(want[k], got):
                res.violation(key, f"{label}: {k} with the data after {seq} is {c21.show(got)}, not {c21.show(want[k])}")
                return
        other = np.array(cell) * 1.1
        got = c22.answer(functions["sc_get_variation"], other, atoms, d)
        res.check(got[:1] == ("ValueError",), key, f"{label}: the data after {seq} are accepted for another cell")
        if seq[-1] != "copy" and "copy" not in seq[:1]:
            c21.scribble({k: getattr(d, k) for k in names})
            for k in names:
                if not equal(facts[k], getattr(data, k)):
                    res.violation(key, f"{label}: {k} of the original changes with the one of the object after {seq}")
                    return
        res.count("data")


# ------------------------------------------------------------------------------------------
# k-path objects
# ------------------------------------------------------------------------------------------
EDITS = {
    "add": lambda k: k.add_hs_point("NEW", [0.1, 0.2, 0.3], label="$N$"),
    "add absolute": lambda k: k.add_hs_point("ABS", [0.4, -0.2, 0.3], relative=False),
    "remove": lambda k: k.remove_hs_point("GAMMA"),
    "path": lambda k: setattr(k, "path", [["X", "R"], ["M", "X"]]),
    "path string": lambda k: setattr(k, "path", "R-M-R|X-M"),
    "no path": lambda k: setattr(k, "path", []),
    "n": lambda k: setattr(k, "n", 3),
    "read": lambda k: seen(k),
}


def seen(k):
    return dict(
        rcell=k.rcell, path=k.path, string=k.path_string, n=k.n, names=k.hs_names, coordinates=k.hs_coordinates,
        hs_labels=k.hs_labels, labels=k.labels, ticks=k.ticks(), ticks_r=k.ticks(relative=True), points=k.points(),
        points_r=k.points(relative=True), flat=k.flat_points(), flat_r=k.flat_points(relative=True), table=k.hs_table(),
    )  # fmt: skip


def make_kp(w, i):
    if i == 0:
        cell = np.array([[3.0, 0.1, 0], [0, 3.0, 0.2], [0.3, 0, 3.0]])
        return w.Kpoints(
            w.cell.get_reciprocal(cell), coordinates=[[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0.5], [0.5, 0.5, 0]],
            names=["GAMMA", "X", "R", "M"], path="GAMMA-X-M|R-GAMMA", n=4,
        )  # fmt: skip
    cell = np.diag([3.0, 3.0, 3.0])
    return w.Kpoints.from_crystal(cell, dict(names=["Fe"], positions=[[0, 0, 0]]), convention=("SC", "HPKOT")[i - 1], n=2)


def edit(k, name):
    try:
        EDITS[name](k)
    except ValueError as e:
        return str(e)
    return None


def run_paths(w, res, job):
    length = 3 if job["deep"] else 2
    histories = [h for n in range(length + 1) for h in itertools.product(EDITS, repeat=n)]
    for i, before in enumerate(histories):
        if i % job["parts"] != job["part"]:
            continue
        for which in range(3):
            original = make_kp(w, which)
            for e in before:
                edit(original, e)
            want = c21.norm(seen(original))
            label = f"kp{which}/{'+'.join(before)}"
            for seq in sequences(1) + [
                ("deepcopy", "pickle2"), ("pickle4", "copy", "pickle5"), (METHOD,), (METHOD, METHOD), ("pickle3", METHOD),
            ]:  # fmt: skip
                k = send(res, label, original, seq)
                if k is None:
                    return
                key = f"{label}/{'+'.join(seq)}"
                got = c21.norm(seen(k))
                res.traces += 1
                if not equal(want, got):
                    bad = [x for x in want if not equal(want[x], got[x])]
                    res.violation(key, f"Kpoints after {before} and {seq}: {bad} are {[got[b] for b in bad]}, not {[want[b] for b in bad]}")
                    return
                if "copy" in seq:
                    continue
                # the copy and a second original take the same edits
                for after in EDITS:
                    k = send(res, label, original, seq)
                    twin = make_kp(w, which)
                    for e in before:
                        edit(twin, e)
                    a, b = edit(k, after), edit(twin, after)
                    res.transitions += 1
                    res.traces += 1
                    if a != b or not equal(c21.norm(seen(k)), c21.norm(seen(twin))):
                        res.violation(key, f"Kpoints after {before}, {seq} and {after} is not the one after {before} and {after}")
                        return
                    if not equal(want, c21.norm(seen(original))):
                        res.violation(key, f"Kpoints after {before}: {after} of the object after {seq} changes the original")
                        return
            res.count("paths")


# ------------------------------------------------------------------------------------------
# exceptions
# ------------------------------------------------------------------------------------------
def failing(w):
    cell = np.diag([3.0, 4.0, 5.0])
    ok = dict(names=["Fe1", "O1"], positions=[[0, 0, 0], [0.5, 0.5, 0.25]])
    symmetry = []

    def data():
        if not symmetry:
            symmetry.append(w.get_spglib_data(cell, ok))
        return symmetry[0]

    skewed = [[1, 0, 0], [7, 1, 0], [-5, 4, 1.0]]
    kp = make_kp(w, 0)
    ops = {}
    for conv in ("none", "", "HPKOT2"):
        ops[f"conventional {conv}"] = lambda c=conv: w.crystal.get_conventional(cell, ok, c)
        ops[f"primitive {conv}"] = lambda c=conv: w.crystal.get_primitive(cell, ok, c, spglib_data=data())
        ops[f"path {conv}"] = lambda c=conv: w.kpoints.get_path_and_points(cell, ok, convention=c)
        ops[f"from_crystal {conv}"] = lambda c=conv: w.Kpoints.from_crystal(cell, ok, convention=c)
    for n in (0, 1, 2):
        ops[f"niggli {n}"] = lambda n=n: w.cell.get_niggli(skewed, implementation="wulfric", max_iterations=n)
    ops["niggli flat"] = lambda: w.cell.get_niggli(np.ones((3, 3)))
    ops["niggli none"] = lambda: w.cell.get_niggli(cell, implementation="other")
    for n in ("??", "", "Q1", "123"):
        ops[f"species {n}"] = lambda n=n: w.crystal.get_atom_species(n, raise_on_fail=True)
        ops[f"all species {n}"] = lambda n=n: w.crystal.get_atoms_species(dict(names=["Fe", n]), raise_on_fail=True)
    bad = dict(
        lengths=dict(names=["Fe"], positions=[[0, 0, 0], [0.5, 0, 0]]),
        number=dict(names=3, positions=[[0, 0, 0]]),
        ragged=dict(names=["Fe", "O"], positions=[[0, 0, 0], [0.5, 0]]),
        shape=dict(names=["Fe"], positions=[[0, 0]]),
        name=dict(names=[1], positions=[[0, 0, 0]]),
        kind=dict(species=["Ee"], positions=[[0, 0, 0]]),
        type=dict(spglib_types=[0], positions=[[0, 0, 0]]),
        nothing=dict(positions=[[0, 0, 0]]),
        missing=dict(names=["Fe"]),
    )
    for k, a in bad.items():
        ops[f"validate {k}"] = lambda a=a: w.crystal.validate_atoms(a, required_keys=["positions", "names"])
        ops[f"data {k}"] = lambda a=a: w.get_spglib_data(cell, a)
        ops[f"conventional with {k}"] = lambda a=a: w.crystal.get_conventional(cell, a)
    ops |= {
        "data cell": lambda: w.get_spglib_data([1, 2], ok),
        "data text": lambda: w.get_spglib_data("cell", ok),
        "data same": lambda: w.get_spglib_data(cell, dict(names=["Fe", "O"], positions=[[0, 0, 0], [0, 0, 0]])),
        "foreign cell": lambda: w.validate_spglib_data(2 * cell, ok, data()),
        "foreign positions": lambda: w.validate_spglib_data(cell, dict(ok, positions=[[0, 0, 0], [0.5, 0.5, 0.3]]), data()),
        "foreign kinds": lambda: w.validate_spglib_data(cell, dict(ok, names=["O", "O"]), data()),
        "not data": lambda: w.crystal.sc_get_variation(cell, ok, spglib_data=3),
        "params": lambda: w.cell.from_params(1, 2, 3, 10, 20, 150),
        "parallelepiped": lambda: w.geometry.parallelepiped_check(-1, 0, 3, 10, 20, 190, raise_error=True),
        "angle": lambda: w.geometry.get_angle([0, 0, 0], [1, 0, 0]),
        "volume": lambda: w.geometry.get_volume(1, 2),
        "compare": lambda: w.compare_with_tolerance(1, "=", 2),
        "sugar": lambda: w.add_sugar([1]),
        "remove sugar": lambda: w.remove_sugar([1]),
        "attribute": lambda: w.add_sugar({"a": 1}).b,
        "SC example": lambda: w.cell.sc_get_example("none"),
        "HPKOT example": lambda: w.crystal.hpkot_get_example("none"),
        "path list": lambda: w.kpoints.get_path_as_list("A"),
        "path list number": lambda: w.kpoints.get_path_as_list(3),
        "path string": lambda: w.kpoints.get_path_as_string(3),
        "path undefined": lambda: setattr(kp, "path", [["GAMMA", "nowhere"]]),
        "path short": lambda: setattr(kp, "path", [["GAMMA"]]),
        "point": lambda: kp.add_hs_point("X", [0, 0, 0]),
        "n": lambda: setattr(kp, "n", 1.5),
        "labels": lambda: w.Kpoints(np.eye(3), coordinates=[[0, 0, 0]], labels=["a", "b"]),
        "unique": lambda: w.crystal.get_unique_names(ok, strategy="none"),
        "shift": lambda: w.crystal.shift_atoms(ok, gp_is_relative=False),
        "dump": lambda: w.io.dump_poscar(cell, dict(names=["??"], positions=[[0, 0, 0]]), "/nowhere/at/all"),
        "mode": lambda: w.io.dump_poscar(cell, ok, "/nowhere/at/all", mode="none"),
        "folder": lambda: w.io.dump_poscar(cell, ok, "/nowhere/at/all"),
        "load": lambda: w.io.load_poscar("/nowhere/at/all"),
    }
    return ops


def story(e):
    return [type(e).__module__, type(e).__name__, str(e), [str(n) for n in getattr(e, "__notes__", [])]]


def arrived(e):
    """Messages might list what has no order"""
    return ["exception", *story(e)[:2], sorted(str(e))]


def caught(f):
    try:
        f()
    except NotTerminated:
        raise
    except Exception as e:  # noqa: BLE001
        return e
    return None


def run_failures(w, res, job):
    ops = failing(w)
    for name in list(ops)[job["part"] :: job["parts"]]:
        e = caught(ops[name])
        if e is None:
            res.count("no failure")
            continue
        want = story(e)
        names = list(TRIPS)
        if isinstance(e, OSError) and type(e).__module__ == "builtins":
            names = [n for n in names if n not in ("pickle0", "pickle1", "pickle2")]  # Python 2 has OSError
        for seq in sequences(3, names):
            got = send(res, f"failure {name}", e, seq)
            if got is None:
                break
            res.traces += 1
            if story(got) != want:
                res.violation(f"failure/{name}/{'+'.join(seq)}", f"{name}: {story(got)} after {seq}, not {want}")
                break
            try:
                raise got
            except type(e):
                pass
        res.count("failures")


# ------------------------------------------------------------------------------------------
# dictionaries, arrays, figures
# ------------------------------------------------------------------------------------------
def run_values(w, res, job):
    cell, _ = w.crystal.hpkot_get_example("mC1")
    atoms = dict(names=["Fe", "O"], positions=np.array([[0, 0, 0], [0.5, 0.5, 0.25]]))
    things = {
        "sugar": w.add_sugar(dict(a=1, b=[1, [2]], c={"d": np.eye(2)})),
        "sugared atoms": w.add_sugar(atoms),
        "empty sugar": w.add_sugar({}),
        "sugar of methods": w.add_sugar({"keys": 1, "copy": 2, "__len__": 3}),
        "nested sugar": w.add_sugar({"in": w.add_sugar({"side": [1]})}),
        "odd sugar": w.add_sugar({1: 2, (3, 4): "x", "a b": None, "__reduce__": 5, "__deepcopy__": 6, "__getstate__": 7, "__dict__": 8}),
        "conventional": w.crystal.get_conventional(cell, atoms),
        "primitive": w.crystal.get_primitive(cell, atoms, "SC"),
        "path": w.kpoints.get_path_and_points(cell, atoms, with_time_reversal=False),
        "example": w.crystal.hpkot_get_example("oF1"),
        "zone": w.cell.get_brillouin_zone(cell),
    }
    for name, x in things.items():
        if name == "odd sugar":
            seqs = [s for s in sequences(1) if s != ("deepcopy",)]  # the names of methods of the protocol are the user's
        else:
            seqs = sequences(3)
        want = c21.norm(x)
        for seq in seqs:
            y = send(res, name, x, seq)
            if y is None:
                break
            key = f"values/{name}/{'+'.join(seq)}"
            res.traces += 1
            if not equal(want, c21.norm(y)) or (isinstance(x, dict) and list(dict.keys(x)) != list(dict.keys(y))):
                res.violation(key, f"{name} is {y} after {seq}, not {x}")
                break
            if isinstance(x, dict):
                bad = [k for k in x if isinstance(k, str) and not hasattr(dict, k) and k != "__dict__" and getattr(y, k) is not y[k]]
                res.check(not bad, key, f"{name} after {seq}: attributes {bad} are not the entries")
                try:
                    y.nothing
                except AttributeError:
                    pass
                else:
                    res.violation(key, f"{name} after {seq} has attributes that are no keys")
                y.another = 5
                res.check(dict.get(y, "another") == 5, key, f"{name} after {seq}: an attribute that is set is no entry")
                res.check("another" not in list(x), key, f"{name}: a change after {seq} reaches the original")
        res.count("values")


def drawn(p):
    """What was drawn; the defaults of the layout are of plotly"""
    data = [decoded(t) for t in p.fig.to_dict()["data"]]
    groups = list(dict.fromkeys(t.get("legendgroup") for t in data))  # random names
    for t in data:
        t["legendgroup"] = groups.index(t.get("legendgroup"))
    return c21.norm(data)


def decoded(x):
    """Plotly encodes arrays, not always at the same time"""
    if isinstance(x, dict) and set(x) in ({"dtype", "bdata"}, {"dtype", "bdata", "shape"}):
        a = np.frombuffer(base64.b64decode(x["bdata"]), dtype=x["dtype"])
        return (a.reshape([int(n) for n in x["shape"].split(",")]) if "shape" in x else a).tolist()
    if isinstance(x, dict):
        return {k: decoded(v) for k, v in sorted(x.items())}
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [decoded(v) for v in x]
    return x


def run_figures(w, res, job):
    cell = np.array([[3.0, 0.1, 0], [0, 3.2, 0.2], [0.3, 0, 2.7]])
    atoms = dict(names=["Fe1", "O1"], positions=[[0, 0, 0], [0.5, 0.5, 0.25]])
    calls = {
        "cell": lambda p: p.plot_cell(cell, color="red", legend_label="cell"),
        "points": lambda p: p.plot_points([[0, 0, 0], [1, 2, 3]]),
        "line": lambda p: p.plot_line([0, 0, 0], [9, 2, 3]),
        "vector": lambda p: p.plot_vector(start_point=[0, 0, 0], end_point=[-8, 2, 3]),
        "atoms": lambda p: p.plot_atoms(cell, atoms),
        "kpath": lambda p: p.plot_kpath(make_kp(w, 0)),
        "lattice": lambda p: p.plot_lattice(cell, range=(1, 0, 2)),
    }
    made = {}
    for n, f in calls.items():
        try:
            f(w.PlotlyEngine())
            made[n] = f
        except TypeError:
            res.count(f"not callable this way: {n}")
    for before in itertools.chain([()], itertools.product(made, repeat=1)):
        p = w.PlotlyEngine()
        for b in before:
            made[b](p)
        want = drawn(p)
        for seq in sequences(1) + [("pickle4", "deepcopy")]:
            label = f"figure/{'+'.join(before)}"
            q = send(res, label, p, seq)
            if q is None:
                return
            key = f"{label}/{'+'.join(seq)}"
            res.traces += 1
            res.check(equal(want, drawn(q)), key, f"a figure with {before} changes with {seq}")
            if "copy" in seq:
                continue
            for after in ("cell", "line"):
                if after not in made:
                    continue
                q = TRIPS[seq[0]](p)
                made[after](q)
                twin = w.PlotlyEngine()
                for b in before:
                    made[b](twin)
                made[after](twin)
                with tempfile.TemporaryDirectory() as d:
                    for i, x in enumerate((q, twin)):
                        x.save(output_name=os.path.join(d, f"{i}.html"))
                res.transitions += 1
                res.traces += 1
                res.check(equal(drawn(twin), drawn(q)), key, f"a figure with {before}: {after} after {seq} is drawn in another way")
                res.check(equal(want, drawn(p)), key, f"a figure with {before}: {after} on the object after {seq} reaches the original")
        res.count("figures")


# ------------------------------------------------------------------------------------------
# processes
# ------------------------------------------------------------------------------------------
_POOL = {}


def pool_call(world, form, name):
    """In a process of the pool"""
    import wulfric as w

    warnings.simplefilter("ignore")
    if world not in _POOL:
        _POOL[world] = (c28.menu(w), c21.make_world(w, world, form), failing(w))
    ops, shared, fails = _POOL[world]
    if name in fails:
        return fails[name]()
    return ops[name](shared)


def run_pool(w, res, job):
    import wulfric

    ops, fails = c28.menu(w), failing(w)
    world = c21.make_world(w, job["world"], job["form"])
    names = [n for n in ops if c28.base(n) not in c28.HEAVY] + list(fails)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    env["PYTHONPATH"] = VERIF + os.pathsep + os.path.dirname(os.path.dirname(wulfric.__file__))
    child = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", "from mc.props import c29; c29.main()"],
        input=pickle.dumps((job["world"], job["form"], names)), env=env, cwd=VERIF, capture_output=True, timeout=250,
    )  # fmt: skip
    if child.returncode:
        res.violation("pool", f"a pool of processes fails: {child.stderr.decode(errors='replace')[-800:]}")
        return
    there = pickle.loads(child.stdout)
    for name in names:
        f = fails[name] if name in fails else lambda: ops[name](world)
        try:
            want = c21.norm(f())
        except Exception as e:  # noqa: BLE001
            want = arrived(e)
        res.states += 1
        res.transitions += 1
        res.traces += 1
        if not equal(want, there[name]):
            res.violation(
                f"pool/{name}", f"{name} in a process of a pool: {c21.show(there[name])}, here {c21.show(want)}"
            )
            return
    res.count("pool")


def main():
    from concurrent.futures import ProcessPoolExecutor
    from multiprocessing import get_context

    world, form, names = pickle.load(sys.stdin.buffer)
    out = {}
    with ProcessPoolExecutor(2, mp_context=get_context("spawn")) as pool:
        waiting = {n: pool.submit(pool_call, world, form, n) for n in names}
        for n, f in waiting.items():
            try:
                out[n] = c21.norm(f.result())
            except Exception as e:  # noqa: BLE001
                out[n] = arrived(e)
    sys.stdout.buffer.write(pickle.dumps(out))


def final(tier, labels, counters, r):
    r.check(counters.get("failures", 0) > 70, "coverage", "too few failing calls")
    r.check(counters.get("data", 0) > 500, "coverage", "too few symmetry data")
    r.check(counters.get("figures", 0) > 4, "coverage", "too few figures")
    r.check(counters.get("pool", 0) == 2, "coverage", "no pool of processes")
