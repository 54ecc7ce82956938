"""C25: validation of atoms."""

import copy
import itertools

import numpy as np

from mc.core import Result
from mc.props.c17 import ELEMENTS

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all combinations of 11 forms of names, 13 of species, 14 of positions, 13 of kinds and 6 of another "
        "key (each valid, of a wrong length, shape, type, value, or absent), x 7 sets of required keys, with and "
        "without raising; every ordered choice of up to 6 required keys for every set of present keys; all singly and doubly invalid dictionaries given to 9 functions that take atoms",
        thorough="the same for one, two and three atoms",
    ),
    assumptions=["at least one atom"],
)

ABSENT = "absent"
# value -> is it acceptable on its own for two atoms (None: it has no length)
NAMES = [
    (ABSENT, True), (["A", "B"], True), (("A", "A"), True), (["A"], "short"), (["A", "B", "C"], "long"),
    (["A", 1], False), ([None, "B"], False), ("AB", True), (5, None), (None, None), (np.array(["A", "B"]), True),
]  # fmt: skip
SPECIES = [
    (ABSENT, True), (["Fe", "O"], True), (("X", "H"), True), (["Og", "U"], True), (["fe", "O"], False),
    (["Fe", "FE"], False), (["Fe", None], False), (["", "O"], False), (["D", "O"], False), (["Fe1", "O"], False),
    (["Fe", "O", "O"], "long"), (["Fe"], "short"), (3, None),
]  # fmt: skip
POSITIONS = [
    (ABSENT, True), ([[0, 0, 0], [0.5, 0.5, 0.5]], True), (np.array([[0, 0, 0.1], [0.5, 1, 0.5]]), True),
    (((0, 0, 0), (1, 2, 3)), True), ([np.zeros(3), [0.1, 0.2, 0.3]], True), ([[0, 0, 0]], "short"),
    ([[0, 0, 0], [0.5, 0.5, 0.5], [0.1, 0, 0]], "long"), ([[0, 0], [0.5, 0.5]], False), ([0.0, 0.5], False),
    ([[0, 0, 0], [0.5, 0.5]], False), ([[[0], [0], [0]], [[1], [1], [1]]], False), (None, None), (0.5, None),
    ([[0, 0, 0, 0], [0, 0, 0, 1]], False),
]  # fmt: skip
TYPES = [
    (ABSENT, True), ([1, 2], True), ((1, 1), True), ([7, 3], True), ([1, 0], False), ([-1, 1], False),
    ([1, 1.0], False), ([1, "1"], False), ([None, 1], False), ([1], "short"), ([1, 2, 3], "long"), (None, None),
    (1, None),
]  # fmt: skip
OTHER = [
    (ABSENT, True), ([1, [2, 3]], True), ("xy", True), ([1], "short"), (5, None), (np.zeros((2, 3, 3)), True),
]  # fmt: skip
REQUIRED = [None, [], ["positions"], ["names", "positions"], ["nothing"], ["spglib_types"], ("species", "moment")]
KEYS = ("names", "species", "positions", "spglib_types", "moment")
MENU = dict(zip(KEYS, (NAMES, SPECIES, POSITIONS, TYPES, OTHER)))


def jobs(tier):
    out = []
    for i in range(len(NAMES)):
        for j in range(len(SPECIES)):
            out.append(dict(kind="combos", names=i, species=j))
    out.append(dict(kind="elements"))
    out.extend(dict(kind="required", first=k) for k in (*KEYS, "nothing", None))
    out.append(dict(kind="functions"))
    if tier == "thorough":
        for n in (1, 3):
            for i in range(len(NAMES)):
                for j in range(len(SPECIES)):
                    out.append(dict(kind="combos", names=i, species=j, n=n))
    return out


def resize(value, n):
    """The same value for n atoms instead of two: the last element is dropped or the first repeated."""
    if n == 2 or isinstance(value, (int, float)) or value is None or value is ABSENT:
        return value
    if n == 1:
        return value[1:]
    if isinstance(value, np.ndarray):
        return np.concatenate([value[:1], value])
    return value[:1] + value


def verdict(states, required, present):
    """Set of acceptable answers: True, or the names of the errors."""
    errors = set()
    if any(s is None for s in states):
        errors.add(TypeError)
    lengths = {2 if s is True or s is False else s for s, p in zip(states, present) if p and s is not None}
    if len(lengths) > 1 or any(s is False for s in states):
        errors.add(ValueError)
    if any(k not in [key for key, p in zip(KEYS, present) if p] for k in required or ()):
        errors.add(ValueError)
    return errors


def check_one(wulf, res, atoms, errors, required, key):
    f = wulf.crystal.validate_atoms
    before = repr(atoms)
    kw = {} if required is None else dict(required_keys=required)
    res.states += 1
    res.traces += 2
    try:
        got = f(atoms, **kw)
        if errors:
            res.violation(key, f"{atoms} with required keys {required} is accepted")
        elif got is not True:
            res.violation(key, f"the answer for acceptable atoms {atoms} is {got!r}")
        res.count("accepted")
    except Exception as e:  # noqa: BLE001
        res.count("rejected")
        if not errors:
            res.violation(key, f"acceptable atoms {atoms}, required {required}: {type(e).__name__}: {e}")
        elif not isinstance(e, tuple(errors)):
            res.violation(
                key,
                f"{atoms} with required keys {required} raises {type(e).__name__}, documented: "
                f"{sorted(x.__name__ for x in errors)}",
            )
    try:
        got = f(atoms, raise_errors=False, **kw)
        if bool(got) != (not errors):
            res.violation(key, f"raise_errors=False: {got} for {atoms} with required keys {required}")
    except Exception as e:  # noqa: BLE001
        res.violation(key, f"raise_errors=False raises {type(e).__name__} for {atoms}, required {required}")
    if repr(atoms) != before:
        res.violation(key + "/changed", f"validation changed the atoms {before}")


def run_combos(wulf, job, res):
    n = job.get("n", 2)
    i = 0
    for c in itertools.product(range(len(POSITIONS)), range(len(TYPES)), range(len(OTHER))):
        index = (job["names"], job["species"], *c)
        i += 1
        atoms, states, present = {}, [], []
        for k, j in zip(KEYS, index):
            v, ok = MENU[k][j]
            here = not (isinstance(v, str) and v == ABSENT)
            present.append(here)
            states.append(ok)
            if here:
                atoms[k] = resize(v, n)
        if n == 1 and any(s == "short" for s in states):
            continue
        if n != 2 and any(s is False for s in states):
            # the wrong element may be the one that is dropped
            continue
        if i % 2:
            atoms = dict(reversed(atoms.items()))
        key = f"{n}/{'.'.join(map(str, index))}"
        for q, required in enumerate(REQUIRED):
            check_one(wulf, res, atoms, verdict(states, required, present), required, f"{key}/{q}")


def run_required(wulf, job, res):
    """Every ordered choice of required keys against every set of present keys."""
    good = {k: MENU[k][1][0] for k in KEYS}
    names = (*KEYS, "nothing")
    if job["first"] is None:
        orders = [()]
    else:
        rest = [k for k in names if k != job["first"]]
        orders = [(job["first"], *o) for n in range(len(rest) + 1) for o in itertools.permutations(rest, n)]
        orders += [(job["first"], k, job["first"]) for k in rest]
    for present in itertools.product((True, False), repeat=len(KEYS)):
        atoms = {k: good[k] for k, p in zip(KEYS, present) if p}
        for required in orders:
            errors = {ValueError} if any(k not in atoms for k in required) else set()
            key = f"required/{'.'.join(required)}/{'.'.join(atoms)}"
            check_one(wulf, res, atoms, errors, list(required), key)


def run_elements(wulf, res):
    """Every element, in every letter case, is judged."""
    for e in ELEMENTS + ["X", "Xx", "D", "T", "Uue", "", " ", "Fe ", "x"]:
        for s in {e, e.upper(), e.lower(), e + "1", " " + e}:
            good = s in ELEMENTS or s == "X"
            errors = set() if good else {ValueError}
            check_one(wulf, res, dict(species=[s]), errors, None, f"element/{s}")
            check_one(wulf, res, dict(species=["Fe", s, "O"]), errors, ["species"], f"element3/{s}")
    check_one(wulf, res, {}, set(), None, "empty")
    check_one(wulf, res, {}, {ValueError}, ["names"], "empty/required")


def run_functions(wulf, res):
    cell = [[4.0, 0, 0], [0, 5.0, 0], [0, 0, 6.0]]
    good = dict(
        names=["Fe1", "O1"], species=["Fe", "O"], positions=[[0, 0, 0], [0.5, 0.5, 0.5]], spglib_types=[1, 2]
    )
    functions = {
        "get_spglib_types": lambda a: wulf.get_spglib_types(a),
        "get_spglib_data": lambda a: wulf.get_spglib_data(cell, a),
        "get_conventional": lambda a: wulf.crystal.get_conventional(cell, a),
        "get_primitive": lambda a: wulf.crystal.get_primitive(cell, a),
        "get_path_and_points": lambda a: wulf.kpoints.get_path_and_points(cell, a),
        "from_crystal": lambda a: wulf.Kpoints.from_crystal(cell, a),
        "hpkot_get_extended_bl_symbol": lambda a: wulf.crystal.hpkot_get_extended_bl_symbol(cell, a),
        "sc_get_variation": lambda a: wulf.crystal.sc_get_variation(cell, a),
        "get_atoms_species": lambda a: wulf.crystal.get_atoms_species(a),
        "get_unique_names": lambda a: wulf.crystal.get_unique_names(a),
    }
    for name, f in functions.items():
        try:
            f(copy.deepcopy(good))
            res.states += 1
        except Exception as e:  # noqa: BLE001
            res.violation(f"functions/{name}", f"{name} fails for good atoms: {type(e).__name__}: {e}")
    bad = {k: [v for v, ok in MENU[k] if ok is not True] for k in KEYS}
    cases = [{k: v} for k in KEYS for v in bad[k]]
    cases += [
        {k1: v1, k2: v2}
        for (k1, k2) in itertools.combinations(KEYS, 2)
        for v1 in bad[k1]
        for v2 in bad[k2]
        if not (isinstance(v1, list) and isinstance(v2, list) and len(v1) == len(v2) != 2)
    ]
    for changes in cases:
        atoms = {**copy.deepcopy(good), **changes}
        for name, f in functions.items():
            res.states += 1
            res.traces += 1
            try:
                out = f(atoms)
                res.violation(
                    f"functions/{name}/{sorted(changes)}",
                    f"{name} accepts atoms with {changes}: {str(out)[:200]}",
                )
            except (ValueError, TypeError):
                res.count("rejected by functions")
    # atoms without what a function needs
    for name, missing in (
        ("get_atoms_species", "names"), ("get_unique_names", "names"), ("get_conventional", "positions"),
        ("get_spglib_data", "positions"), ("get_primitive", "positions"),
    ):  # fmt: skip
        atoms = {k: v for k, v in good.items() if k != missing}
        res.states += 1
        try:
            out = functions[name](atoms)
            res.violation(f"functions/{name}/missing", f"{name} without {missing}: {str(out)[:200]}")
        except (ValueError, TypeError, KeyError):
            res.count("rejected by functions")


def run(job):
    import warnings

    import wulfric as wulf

    warnings.simplefilter("ignore")
    res = Result()
    if job["kind"] == "combos":
        run_combos(wulf, job, res)
    elif job["kind"] == "required":
        run_required(wulf, job, res)
    elif job["kind"] == "elements":
        run_elements(wulf, res)
    else:
        run_functions(wulf, res)
    return res


def final(tier, labels, counters, r):
    r.check(counters.get("accepted", 0) > 1000, "coverage", "too few acceptable atoms")
    r.check(counters.get("rejected", 0) > 1000, "coverage", "too few atoms to be rejected")
